"""
C07  jacobians: inverse maps, conventions, constructors
"""
import copy
import itertools
import numpy as np
import ngmix
from ngmix import Jacobian, DiagonalJacobian, UnitJacobian
from mc.core import bfs, fp

LEVEL = 'model_checking'
RULE = (
    'All non degenerate 2x2 derivative matrices with entries from a 9 value set '
    '(6 quick) x centres x points through all constructor routes, both transforms, '
    'scalar, array and galsim forms, against exact rational reference arithmetic; '
    'all 8192 subsets of the 13 constructor keywords for acceptance; breadth-first '
    'search over histories of set_cen (valid, incomplete), copy, transform on two '
    'objects with a reference model.'
)
ASSUMPTIONS = ['condition number of the matrix up to 1e8; round trip tolerance scales with it']

ENT = [0.0, 0.27, -0.27, 1.0, 1e-3, -2.0]
ENT_T = ENT + [0.2637, -1e-5, 50.0]
CENS = [(0.0, 0.0), (15.3, -7.25), (1e4, 2e3 + 0.125)]
PTS = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (15.3, -7.25), (-3.5, 1e3), (0.1, 0.2), (31, 4)]

ALLKW = ['row', 'col', 'x', 'y', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol', 'dudx', 'dudy', 'dvdx',
         'dvdy', 'wcs']
VALS = dict(row=1.5, col=2.5, x=10.0, y=20.0, dvdrow=.3, dvdcol=.01, dudrow=.02, dudcol=.25,
            dudx=1.25, dudy=1.02, dvdx=1.01, dvdy=1.3)
ERR = (ValueError, KeyError, AssertionError, TypeError, AttributeError)


def tup(j):
    return tuple(float(x) for x in (j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol))


def routes(cen, m):
    """the same transformation by every constructor"""
    import galsim
    a, b, c, d = m     # dvdrow dvdcol dudrow dudcol
    w = galsim.JacobianWCS(d, c, b, a)
    r = dict(
        rc=Jacobian(row=cen[0], col=cen[1], dvdrow=a, dvdcol=b, dudrow=c, dudcol=d),
        xy=Jacobian(y=cen[0], x=cen[1], dvdy=a, dvdx=b, dudy=c, dudx=d),
        wrc=Jacobian(row=cen[0], col=cen[1], wcs=w),
        wxy=Jacobian(y=cen[0], x=cen[1], wcs=w),
    )
    if a == d and b == c == 0.0:
        r['diag'] = DiagonalJacobian(scale=a, row=cen[0], col=cen[1])
        r['diagxy'] = DiagonalJacobian(scale=a, y=cen[0], x=cen[1])
        if a == 1.0:
            r['unit'] = UnitJacobian(row=cen[0], col=cen[1])
            r['unitxy'] = UnitJacobian(y=cen[0], x=cen[1])
            r['diagdef'] = DiagonalJacobian(row=cen[0], col=cen[1])
    j = r['rc']
    r['copy'] = j.copy()
    r['ccopy'] = copy.copy(j)
    r['dcopy'] = copy.deepcopy(j)
    r['fromwcs'] = Jacobian(row=cen[0], col=cen[1], wcs=j.get_galsim_wcs())
    r['fromrepr'] = eval(repr(j), dict(ngmix=ngmix, np=np))
    return r, w


def k_map(case, rec):
    a, b, c, d = m = case['m']
    for cen in CENS:
        rs, w = routes(cen, m)
        det = a * d - b * c
        L = np.longdouble
        want = (cen[0], cen[1], a, b, c, d)
        cond = (a * a + b * b + c * c + d * d) / abs(det)
        for name, j in rs.items():
            rec.eval()
            rec.trans()
            if tup(j) != want:
                rec.fail('route', '%s gives %r, expected %r' % (name, tup(j), want))
            if not (j == rs['rc'] and rs['rc'] == j):
                rec.fail('route-equal', '%s != rc for %r' % (name, m))
            if abs(j.det - det) > 1e-15 * (abs(a * d) + abs(b * c)):
                rec.fail('det', '%s: %r, expected %r' % (name, j.det, det))
            if abs(j.scale - np.sqrt(abs(det))) > 1e-14 * j.scale:
                rec.fail('scale', '%s: %r, expected %r' % (name, j.scale, np.sqrt(abs(det))))
            if abs(j.area - abs(det)) > 1e-14 * abs(det):
                rec.fail('area', '%s: %r, expected %r' % (name, j.area, abs(det)))
            if tuple(j.cen) != cen or tuple(j.get_cen()) != cen:
                rec.fail('cen', '%s: %r' % (name, j.cen))
        j = rs['rc']
        w2 = j.get_galsim_wcs()
        if (w2.dudx, w2.dudy, w2.dvdx, w2.dvdy) != (d, c, b, a):
            rec.fail('wcs', '%r' % (w2,))
        jd = [x for x in rs.values()][-3]
        pa = np.array(PTS, dtype='f8')
        # grids of different layout: 1d, 2d, strided, integer
        R, C = np.meshgrid(np.arange(3.0), np.arange(4.0), indexing='ij')
        for arrs in ((pa[:, 0].copy(), pa[:, 1].copy()), (pa[::2, 0], pa[::2, 1]), (R, C)):
            k0 = arrs[0].copy(), arrs[1].copy()
            v, u = j.get_vu(*arrs)
            v3, u3 = j(*arrs)
            r_, c_ = jd.get_rowcol(*arrs)
            rec.trans(3)
            if not (np.array_equal(k0[0], arrs[0]) and np.array_equal(k0[1], arrs[1])):
                rec.fail('map-input', 'arrays modified')
            if v.shape != k0[0].shape or not (np.array_equal(v, v3) and np.array_equal(u, u3)):
                rec.fail('map-array', 'get_vu and call differ')
            for i in np.ndindex(k0[0].shape):
                s = j.get_vu(k0[0][i], k0[1][i])
                t = j.get_rowcol(k0[0][i], k0[1][i])
                if abs(s[0] - v[i]) > 1e-12 * (abs(s[0]) + 1e-3 * abs(a) + 1) or \
                        abs(s[1] - u[i]) > 1e-12 * (abs(s[1]) + 1):
                    rec.fail('map-array', 'vu array %r scalar %r' % ((v[i], u[i]), s))
                if not np.allclose((r_[i], c_[i]), t, rtol=1e-12, atol=1e-12):
                    rec.fail('map-array', 'rowcol array %r scalar %r' % ((r_[i], c_[i]), t))
        import galsim
        for p in PTS:
            rec.trace()
            rec.eval(3)
            rec.state(fp(m, cen, p))
            v, u = j.get_vu(*p)
            dr, dc = L(p[0]) - L(cen[0]), L(p[1]) - L(cen[1])
            V, U = L(a) * dr + L(b) * dc, L(c) * dr + L(d) * dc
            tol = 4e-15 * (abs(cen[0]) + abs(cen[1]) + abs(p[0]) + abs(p[1])) * max(map(abs, m))
            if abs(v - V) > tol or abs(u - U) > tol:
                rec.fail('vu', '%r at %r: %r, expected %r' % (j, p, (v, u), (float(V), float(U))))
            g = w.toWorld(galsim.PositionD(float(dc), float(dr)))
            if abs(g.y - v) > tol or abs(g.x - u) > tol:
                rec.fail('galsim', '%r at %r: %r, galsim %r' % (j, p, (v, u), g))
            r, cc = j.get_rowcol(v, u)
            t2 = 1e-14 * (cond + 1) * (abs(cen[0]) + abs(cen[1]) + abs(p[0]) + abs(p[1]) + 1)
            if abs(r - p[0]) > t2 or abs(cc - p[1]) > t2:
                rec.fail('inverse', '%r at %r: back to %r' % (j, p, (r, cc)))
            # the other direction
            r, cc = j.get_rowcol(*p)
            v, u = j.get_vu(r, cc)
            t3 = 1e-14 * (cond + 1) * (abs(p[0]) + abs(p[1]) + 1
                                       + (abs(cen[0]) + abs(cen[1])) * max(map(abs, m)))
            if abs(v - p[0]) > t3 or abs(u - p[1]) > t3:
                rec.fail('inverse', '%r at v,u %r: back to %r' % (j, p, (v, u)))
        rec.outcome('det>0' if det > 0 else 'det<0')


def k_kw(case, rec):
    import galsim
    wcs = galsim.JacobianWCS(2.25, 2.02, 2.01, 2.3)
    for sub in case['subs']:
        kw = {k: (wcs if k == 'wcs' else VALS[k]) for i, k in enumerate(ALLKW) if sub >> i & 1}
        ok = {}
        for cen, der, tag in ((('row', 'col'), ('dvdrow', 'dvdcol', 'dudrow', 'dudcol'), 'rc'),
                              (('y', 'x'), ('dvdy', 'dvdx', 'dudy', 'dudx'), 'xy')):
            if all(k in kw for k in cen):
                if 'wcs' in kw:
                    ok[tag + 'w'] = tuple(kw[k] for k in cen) + (2.3, 2.01, 2.02, 2.25)
                if all(k in kw for k in der):
                    ok[tag] = tuple(kw[k] for k in cen) + tuple(kw[k] for k in der)
        rec.trans()
        rec.eval()
        rec.trace()
        rec.state('kw%d' % sub)
        try:
            j = Jacobian(**kw)
        except ERR:
            j = None
        rec.outcome(j is not None)
        if j is None:
            only_rc = not any(k in kw for k in ('x', 'y', 'dudx', 'dudy', 'dvdx', 'dvdy'))
            only_xy = not any(k in kw for k in ALLKW[:2] + ALLKW[4:8])
            if ok and (only_rc or only_xy):
                rec.fail('kw-rejected', 'Jacobian(%s) raised' % sorted(kw), case=dict(subs=[sub]))
        elif tup(j) not in ok.values():
            rec.fail('kw-accepted', 'Jacobian(%s) gives %r' % (sorted(kw), j), case=dict(subs=[sub]))
        # diagonal classes
        if sub < 16:
            for cls, extra in ((DiagonalJacobian, dict(scale=0.5)), (UnitJacobian, {}),
                               (DiagonalJacobian, {})):
                try:
                    j = cls(**dict(kw, **extra))
                except ERR:
                    j = None
                cens = [(kw['row'], kw['col'])] if 'row' in kw and 'col' in kw else []
                cens += [(kw['y'], kw['x'])] if 'x' in kw and 'y' in kw else []
                s = extra.get('scale', 1.0)
                if j is None:
                    if len(kw) == 2 and cens:
                        rec.fail('kw-rejected', '%s(%s) raised' % (cls.__name__, sorted(kw)))
                elif tup(j) not in [c + (s, 0.0, 0.0, s) for c in cens]:
                    rec.fail('kw-accepted', '%s(%s) gives %r' % (cls.__name__, sorted(kw), j))


OPS = [['rc', 3.0, 4.5], ['xy', -1.25, 7.0], ['rc', 0.0, 0.0], ['bad', 'row'], ['bad', 'x'],
       ['bad', 'y'], ['bad', 'col'], ['bad'], ['nan'], ['copy'], ['ccopy'], ['dcopy'], ['use'],
       ['wcs'], ['data']]


def build(case, trace):
    """a list of live jacobians, operations act on the last, all are compared"""
    m = case['m']
    cen = (1.5, 2.5)
    js = [routes(cen, m)[0][case['route']]]
    mod = [list(cen)]
    errs = []
    for op in trace:
        j, n = js[-1], op[0]
        if n == 'rc':
            j.set_cen(row=op[1], col=op[2])
            mod[-1] = [op[1], op[2]]
        elif n == 'xy':
            j.set_cen(x=op[1], y=op[2])
            mod[-1] = [op[2], op[1]]
        elif n == 'bad':
            try:
                j.set_cen(**{k: 9.0 for k in op[1:]})
                errs.append('set_cen(%s) accepted' % op[1:])
            except ERR:
                pass
        elif n == 'nan':
            try:
                j.set_cen(row='a', col=3.0)
                errs.append('set_cen(row=string) accepted')
            except ERR:
                pass
        elif n == 'copy':
            js.append(j.copy())
            mod.append(list(mod[-1]))
        elif n == 'ccopy':
            js.append(copy.copy(j))
            mod.append(list(mod[-1]))
        elif n == 'dcopy':
            js.append(copy.deepcopy(j))
            mod.append(list(mod[-1]))
        elif n == 'use':
            j.get_vu(3.0, 4.0), j.get_rowcol(np.arange(3.0), np.arange(3.0))
        elif n == 'wcs':
            j.get_galsim_wcs()
        elif n == 'data':
            j.get_data().copy()['row0'] = 99.0
    return js, mod, errs


def compare(b, case, rec):
    js, mod, errs = b
    bad = list(errs)
    a, bb, c, d = case['m']
    for i, (j, cen) in enumerate(zip(js, mod)):
        if tup(j) != tuple(cen) + (a, bb, c, d):
            bad.append('jacobian %d is %r, expected centre %r' % (i, j, cen))
            continue
        v, u = j.get_vu(7.0, 11.0)
        V = a * (7 - cen[0]) + bb * (11 - cen[1])
        U = c * (7 - cen[0]) + d * (11 - cen[1])
        r, cc = j.get_rowcol(v, u)
        if abs(v - V) + abs(u - U) + abs(r - 7) + abs(cc - 11) > 1e-9:
            bad.append('maps of jacobian %d: %r' % (i, (v, u, r, cc)))
        for k in range(i):
            if bool(j == js[k]) is not (list(cen) == list(mod[k])):
                bad.append('equality of %d and %d' % (i, k))
        rec.eval()
    return bad


def k_hist(case, rec):
    if 'trace' in case:
        bad = compare(build(case, case['trace']), case, rec)
        rec.state(fp(case))
        rec.trace()
        rec.trans(len(case['trace']) or 1)
        if bad:
            rec.fail('history:' + bad[0].split(' ')[0], '; '.join(bad))
        return

    def check(b, hist):
        bad = compare(b, case, rec)
        if bad:
            rec.fail('history:' + bad[0].split(' ')[0], '; '.join(bad) + ' after %s' % hist,
                     case=dict(case, trace=hist))
        return not bad

    bfs(OPS, case['depth'], lambda t: build(case, t), rec,
        lambda b: fp([list(tup(j)) for j in b[0]], b[1]), check, prefix=case['prefix'])


KINDS = {'map': k_map, 'kw': k_kw, 'hist': k_hist}
CHUNK = 16


def warmup():
    j = UnitJacobian(row=0, col=0)
    j.get_vu(1.0, 2.0), j.get_rowcol(1.0, 2.0)
    a = np.arange(3.0)
    j.get_vu(a, a), j.get_rowcol(a, a)


def cases(tier):
    th = tier == 'thorough'
    ent = ENT_T if th else ENT
    for m in itertools.product(ent, repeat=4):
        a, b, c, d = m
        det = a * d - b * c
        if abs(det) > 1e-8 * (a * a + b * b + c * c + d * d):
            yield 'map', dict(m=list(m))
    for lo in range(0, 1 << len(ALLKW), 256):
        yield 'kw', dict(subs=list(range(lo, lo + 256)))
    for m, route in (([.27, .02, -.01, .3], 'rc'), ([.27, .02, -.01, .3], 'xy'),
                     ([0., 1., 1., 0.], 'wxy'), ([1., 0., 0., 1.], 'unit'), ([.5, 0., 0., .5], 'diag')):
        for op in OPS:
            yield 'hist', dict(m=m, route=route, prefix=[op], depth=5 if th else 4)
