"""
C06  shapes: unit disc, conversions, shear composition
"""
import copy
import itertools
import numpy as np
import ngmix
from ngmix import Shape
from ngmix import shape as S
from ngmix.gexceptions import GMixRangeError
from mc.core import bfs, fp

LEVEL = 'model_checking'
RULE = (
    'All points of a polar grid over the disc (20 radii from 0 to beyond the rim, '
    'including the last floats below 1, x 17 angles incl. axes and denormals) '
    'through every conversion, round trip, scalar and array form; all ordered '
    'pairs of a 60 point grid for shear addition; breadth-first search over all '
    'histories of set (valid and invalid), rotate, get_rotated, negate, shear and '
    'copy on a real Shape against a complex number model.'
)
ASSUMPTIONS = ['finite inputs; close to the rim the tolerance follows the conditioning '
               'of the conversion (2e-8 in g from e)']

RADII = [0.0, 1e-200, 1e-15, 1e-6, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, 0.999, 0.9999999,
         1 - 1e-10, 1 - 1e-14, float(np.nextafter(1, 0)), 1.0, 1.0000001, 1.5, 1e10]
ANG = [0.0, np.pi / 2, np.pi, -np.pi / 2] + [0.1 + k * 2 * np.pi / 13 for k in range(13)]


def pt(r, a):
    if a in ANG[:4]:
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][ANG.index(a)]
    else:
        c, s = np.cos(a), np.sin(a)
    return float(r * c), float(r * s)


def absg(a, b):
    return float(np.sqrt(np.float64(a) * a + np.float64(b) * b))


def ldhyp(a, b):
    a, b = np.longdouble(a), np.longdouble(b)
    return np.sqrt(a * a + b * b)


# radial reference functions in long double
def r_g2e(g):
    return 2 * g / (1 + g * g)


def r_e2g(e):
    return e / (1 + np.sqrt((1 - e) * (1 + e)))


def r_g2eta(g):
    return 2 * np.arctanh(g)


def r_e2eta(e):
    return np.arctanh(e)


def r_eta2g(eta):
    return np.tanh(eta / 2)


CONV = {
    'g1g2_to_e1e2': (r_g2e, 1), 'e1e2_to_g1g2': (r_e2g, 1), 'g1g2_to_eta1eta2': (r_g2eta, 1),
    'e1e2_to_eta1eta2': (r_e2eta, 1), 'eta1eta2_to_g1g2': (r_eta2g, None),
}
INV = [('g1g2_to_e1e2', 'e1e2_to_g1g2'), ('e1e2_to_g1g2', 'g1g2_to_e1e2'),
       ('g1g2_to_eta1eta2', 'eta1eta2_to_g1g2')]


def rad(x):
    return ldhyp(x[0], x[1])


def tolfor(name, r):
    """how much one ulp of the input moves the result"""
    e = 1e-15
    d = max(float(1 - r), 1e-16)
    if name == 'e1e2_to_g1g2':
        return 4e-16 / np.sqrt(d) * 4 + 1e-14
    if name in ('g1g2_to_eta1eta2', 'e1e2_to_eta1eta2'):
        return 4e-16 / d + 1e-13
    return 1e-14 + e


def k_conv(case, rec):
    name = case['f']
    f = getattr(S, name)
    ref, lim = CONV[name]
    pts = []
    for r in RADII:
        if lim is None:
            r = r * 20 if r < 1 else (r if r < 1e5 else 1e5)
        for a in ANG:
            pts.append(pt(r, a))
    good = []
    for x in pts:
        rr = rad(x)
        inside = absg(*x) < 1.0 if lim else bool(np.tanh(0.5 * absg(*x)) < 1.0)
        rec.trans()
        rec.eval()
        rec.state(fp(name, list(x)))
        try:
            y = f(*x)
        except GMixRangeError:
            if inside and not (lim and abs(float(rr) - 1) < 3e-16):
                rec.fail('conv-range', '%s%s raised' % (name, x))
            rec.outcome('raise')
            # arrays with one bad element raise too
            for arr in ([x], [(0.1, 0.1), x], [x, (0.0, 0.0), (0.1, 0.1)]):
                a = np.array(arr)
                try:
                    f(a[:, 0].copy(), a[:, 1].copy())
                    if not inside:
                        rec.fail('conv-array-range', '%s of array with %s did not raise' % (name, x))
                except GMixRangeError:
                    pass
            continue
        if not inside:
            if not (lim and abs(float(rr) - 1) < 3e-16):
                rec.fail('conv-range', '%s%s did not raise' % (name, x))
            continue
        rec.outcome('ok')
        good.append(x)
        yr = rad(y)
        if rr == 0 or float(rr) ** 2 == 0.0:
            if yr > 4 * rr:
                rec.fail('conv-zero', '%s%s = %s' % (name, x, y))
            continue
        if not all(np.isfinite(y)):
            rec.fail('conv-value', '%s%s = %s' % (name, x, y))
            continue
        if name != 'g1g2_to_eta1eta2' and name != 'e1e2_to_eta1eta2' and not absg(*y) < 1.0 + 3e-16:
            rec.fail('conv-outside', '%s%s = %s is outside' % (name, x, y))
        want = ref(min(rr, np.nextafter(np.longdouble(1), 0)) if lim else rr)
        tol = tolfor(name, rr) * max(1.0, float(want)) + 1e-12 * float(rr < 1e-3) * float(want)
        if abs(float(yr - want)) > tol and float(1 - rr) > 1e-14:
            rec.fail('conv-value', '%s%s = %s has size %r, expected %r' % (name, x, y, float(yr), float(want)))
        # direction
        cross = (x[0] * y[1] - x[1] * y[0]) / float(rr * yr)
        dot = (x[0] * y[0] + x[1] * y[1]) / float(rr * yr)
        if abs(cross) > 1e-12 or dot <= 0:
            rec.fail('conv-direction', '%s%s = %s' % (name, x, y))
    # arrays
    rec.trace(len(pts))
    A = np.array(good)
    for n in (1, 2, len(good)):
        for lo in range(0, len(good), n):
            a1, a2 = A[lo:lo + n, 0].copy(), A[lo:lo + n, 1].copy()
            k1, k2 = a1.copy(), a2.copy()
            y1, y2 = f(a1, a2)
            rec.trans()
            if not (np.array_equal(a1, k1) and np.array_equal(a2, k2)):
                rec.fail('conv-input', '%s modified its input' % name)
            for i in range(len(k1)):
                s = f(float(k1[i]), float(k2[i]))
                if not np.allclose((y1[i], y2[i]), s, rtol=1e-12, atol=1e-300):
                    rec.fail('conv-array', '%s%s: array %s scalar %s' % (
                        name, (k1[i], k2[i]), (y1[i], y2[i]), s))
    # inputs that are not contiguous
    y = f(A[::2, 0], A[::2, 1])
    s = f(A[::2, 0].copy(), A[::2, 1].copy())
    if not np.array_equal(y, s):
        rec.fail('conv-strided', name)


def k_inverse(case, rec):
    f, g = getattr(S, case['f']), getattr(S, case['g'])
    for r in RADII:
        if r >= 1 - 1e-15:
            continue
        for a in ANG:
            x = pt(r, a)
            rec.trans(2)
            rec.eval()
            rec.trace()
            rec.state(fp(case, list(x)))
            try:
                y = f(*x)
                z = g(*y)
            except GMixRangeError:
                # the image of the last floats below the rim rounds to the rim
                if absg(*x) < 1 - 1e-7:
                    rec.fail('inverse-range', '%s then %s of %s raised' % (case['f'], case['g'], x))
                continue
            tol = 1e-12 * r + 1e-14 if r < 0.95 else 5e-8
            if not np.allclose(z, x, rtol=0, atol=tol):
                rec.fail('inverse', '%s then %s of %s gives %s' % (case['f'], case['g'], x, z))
            za = g(*f(np.array([x[0], 0.1]), np.array([x[1], 0.2])))
            if not np.allclose((za[0][0], za[1][0]), x, rtol=0, atol=tol):
                rec.fail('inverse-array', '%s then %s of %s gives %s' % (case['f'], case['g'], x, za))
            # e -> eta agrees with e -> g -> eta
            if case['f'] == 'e1e2_to_g1g2' and r < 0.9999:
                if not np.allclose(S.e1e2_to_eta1eta2(*x), S.g1g2_to_eta1eta2(*y), rtol=1e-9, atol=1e-14):
                    rec.fail('conv-consistent', 'e to eta at %s' % (x,))


def cshear(g, s):
    return (g + s) / (1 + g * np.conj(s))


def ld(z):
    return np.clongdouble(z)


def k_shear(case, rec):
    g = case['g']
    cg = complex(*g)
    sg = Shape(*g)
    if sg.get_sheared(0.0, 0.0).g1 != g[0] or sg.get_sheared(0.0, 0.0).g2 != g[1]:
        if abs(sg.get_sheared(0.0, 0.0).g1 - g[0]) + abs(sg.get_sheared(0.0, 0.0).g2 - g[1]) > 1e-15:
            rec.fail('shear-zero', 'shear of %s by 0 gives %s' % (g, sg.get_sheared(0.0, 0.0)))
    for s in case['ss']:
        cs = complex(*s)
        denom = abs(1 + ld(cg) * np.conj(ld(cs)))
        rec.trans(5)
        rec.eval(3)
        rec.trace()
        rec.state(fp(g, s))
        if denom < 1e-5:
            continue
        want = complex(cshear(ld(cg), ld(cs)))
        tol = 2e-15 / float(denom) ** 2 + 1e-15
        res = []
        try:
            r = sg.get_sheared(*s)
            res.append((r.g1, r.g2))
            if abs(r.g - np.hypot(r.g1, r.g2)) > 1e-15:
                rec.fail('shape-g', 'g=%s for %s' % (r.g, r))
            r = sg.get_sheared(Shape(*s))
            res.append((r.g1, r.g2))
        except GMixRangeError:
            if abs(want) < 1 - tol:
                rec.fail('shear-range', 'shear of %s by %s raised, expected %s' % (g, s, want))
            continue
        res.append(S.shear_reduced(g[0], g[1], s[0], s[1]))
        a = S.shear_reduced(np.array([g[0], 0.0]), np.array([g[1], 0.0]), s[0], s[1])
        res.append((a[0][0], a[1][0]))
        if abs(a[0][1] - s[0]) + abs(a[1][1] - s[1]) > 1e-15:
            rec.fail('shear-of-zero', 'shear of 0 by %s gives %s' % (s, a))
        a = S.shear_reduced(np.array([g[0]]), np.array([g[1]]), np.array([s[0]]), np.array([s[1]]))
        res.append((a[0][0], a[1][0]))
        for y in res:
            if abs(complex(*y) - want) > tol:
                rec.fail('shear-law', 'shear of %s by %s gives %s, expected %s' % (g, s, y, want))
        if (sg.g1, sg.g2) != tuple(g):
            rec.fail('shear-input', 'get_sheared changed the shape')
        # inverse
        y = res[0]
        d2 = abs(1 - complex(*y) * np.conj(cs))
        if d2 > 1e-4 and abs(complex(*y)) < 1 - 1e-12:
            b = S.shear_reduced(y[0], y[1], -s[0], -s[1])
            b2 = Shape(*y).get_sheared(-Shape(*s))
            t = (tol + 2e-15) / d2 ** 2 * 4
            if abs(complex(*b) - cg) > t or abs(complex(b2.g1, b2.g2) - cg) > t:
                rec.fail('shear-inverse', 'shear of %s by %s and back gives %s' % (g, s, b))
        # jacobian of the transformation against the analytic derivative
        want_j = (1 - abs(cs) ** 2) ** 2 / float(denom) ** 4
        j = S.dgs_by_dgo_jacob(g[0], g[1], s[0], s[1])
        if abs(j - want_j) > 1e-10 * want_j / float(denom) ** 2:
            rec.fail('shear-jacobian', '%s %s: %s, expected %s' % (g, s, j, want_j))


def k_pointwise(case, rec):
    """construction, update, rotation, negation, round factor at one point"""
    x = case['x']
    r = absg(*x)
    inside = r < 1.0
    edge = abs(float(rad(x)) - 1) < 3e-16
    rec.trans(4)
    rec.trace()
    rec.eval()
    rec.state(fp(x))
    rec.outcome(inside)
    try:
        s = Shape(*x)
        ok = True
    except GMixRangeError:
        ok = False
    if ok is not inside and not edge:
        rec.fail('shape-range', 'Shape%s accepted: %s' % (tuple(x), ok))
    s2 = Shape(0.1, -0.2)
    try:
        s2.set_g1g2(*x)
        ok2 = True
    except GMixRangeError:
        ok2 = False
        if (s2.g1, s2.g2) != (0.1, -0.2) or abs(s2.g - np.hypot(.1, .2)) > 1e-15:
            rec.fail('shape-rejected-update', 'rejected update to %s changed the shape to %s' % (x, s2))
    if ok2 is not inside and not edge:
        rec.fail('shape-range', 'set_g1g2%s accepted: %s' % (tuple(x), ok2))
    if not ok or not ok2:
        return
    for t in (s, s2):
        if (t.g1, t.g2) != tuple(x) or abs(t.g - r) > 1e-15:
            rec.fail('shape-value', 'Shape %s g=%s for %s' % (t, t.g, x))
    n = -s
    if (n.g1, n.g2) != (-x[0], -x[1]):
        rec.fail('shape-neg', '-%s = %s' % (s, n))
    c = s.copy()
    if (c.g1, c.g2, c.g) != (s.g1, s.g2, s.g) or c is s:
        rec.fail('shape-copy', '%s' % c)
    f = S.get_round_factor(*x)
    want = (1 - r * r) / (1 + r * r)
    if abs(f - want) > 1e-15 * 4:
        rec.fail('round-factor', '%s: %s, expected %s' % (x, f, want))
    for th in (0.0, np.pi / 4, np.pi / 2, np.pi, -0.3, 1.1, 7.0):
        want = complex(*x) * np.exp(-2j * th)
        try:
            a = s.get_rotated(th)
            b = s.copy()
            b.rotate(th)
            d = s.get_rotated(th).get_rotated(-th)
        except GMixRangeError:
            if r < 1 - 1e-15:
                rec.fail('rotate-range', '%s by %s raised' % (x, th))
            continue
        e = S.rotate_shape(x[0], x[1], th)
        h = S.rotate_shape(np.array([x[0]]), np.array([x[1]]), th)
        for y in ((a.g1, a.g2), (b.g1, b.g2), e, (h[0][0], h[1][0])):
            if abs(complex(*y) - want) > 4e-15 * max(r, 1e-300):
                rec.fail('rotate', '%s by %s: %s, expected %s' % (x, th, y, want))
        if abs(complex(d.g1, d.g2) - complex(*x)) > 4e-15:
            rec.fail('rotate-inverse', '%s by %s' % (x, th))
        if abs(b.g - np.hypot(b.g1, b.g2)) > 4e-16:
            rec.fail('shape-g', 'after rotate: g=%s' % b.g)


# ---------------------------------------------------------------------------

OPS = [['set', 0.3, -0.4], ['set', 0.0, 0.0], ['set', 0.0, 0.999], ['bad', 1.0, 0.0],
       ['bad', -0.8, 0.9], ['rot', 0.7], ['rot', -np.pi / 2], ['getrot', 0.35], ['neg'],
       ['shear', 0.05, 0.02], ['shear', -0.5, 0.6], ['shearS', 0.9, -0.1], ['unshear', 0.05, 0.02],
       ['copy'], ['badshear'], ['deepcopy']]


def build(case, trace):
    s = Shape(*case['root'])
    g = ld(complex(*case['root']))
    errs = []
    for op in trace:
        n = op[0]
        old = (s.g1, s.g2, s.g)
        if n == 'set':
            s.set_g1g2(op[1], op[2])
            g = ld(complex(op[1], op[2]))
        elif n == 'bad':
            try:
                s.set_g1g2(op[1], op[2])
                errs.append('%s accepted' % op)
            except GMixRangeError:
                if (s.g1, s.g2, s.g) != old:
                    errs.append('rejected update %s changed the shape to %s' % (op, s))
        elif n == 'rot':
            s.rotate(op[1])
            g = g * np.exp(ld(-2j * op[1]))
        else:
            if n == 'getrot':
                new = s.get_rotated(op[1])
                g = g * np.exp(ld(-2j * op[1]))
            elif n == 'neg':
                new = -s
                g = -g
            elif n == 'shear':
                new = s.get_sheared(op[1], op[2])
                g = cshear(g, ld(complex(op[1], op[2])))
            elif n == 'shearS':
                sh = Shape(op[1], op[2])
                new = s.get_sheared(sh)
                if (sh.g1, sh.g2) != (op[1], op[2]):
                    errs.append('get_sheared changed the shear')
                g = cshear(g, ld(complex(op[1], op[2])))
            elif n == 'unshear':
                new = s.get_sheared(-op[1], -op[2])
                g = cshear(g, ld(complex(-op[1], -op[2])))
            elif n == 'copy':
                new = s.copy()
            elif n == 'deepcopy':
                new = copy.deepcopy(s)
            elif n == 'badshear':
                new = None
                try:
                    s.get_sheared(0.1)
                    errs.append('get_sheared with one component was accepted')
                except ValueError:
                    pass
            if (s.g1, s.g2, s.g) != old:
                errs.append('%s changed its input' % op)
            if new is not None:
                if n in ('copy', 'deepcopy'):
                    s.set_g1g2(0.11, 0.22)
                s = new
    return s, g, errs


def compare(b, rec):
    s, g, errs = b
    bad = list(errs)
    g = complex(g)
    cond = 1e-13 / max(1e-6, 1 - abs(g))
    if abs(complex(s.g1, s.g2) - g) > cond:
        bad.append('shape %s, expected %s' % (s, g))
    if not s.g < 1 or abs(s.g - np.hypot(s.g1, s.g2)) > 1e-15:
        bad.append('g %s' % s.g)
    rec.eval(2)
    rec.outcome(round(abs(g), 1))
    return bad


def k_hist(case, rec):
    if 'trace' in case:
        bad = compare(build(case, case['trace']), rec)
        rec.trace()
        rec.state(fp(case))
        rec.trans(len(case['trace']) or 1)
        if bad:
            rec.fail(bad[0].split(' ')[0], '; '.join(bad))
        return

    def check(b, hist):
        bad = compare(b, rec)
        if bad:
            rec.fail(bad[0].split(' ')[0], '; '.join(bad) + ' after %s' % hist,
                     case=dict(case, trace=hist))
        return not bad

    bfs(OPS, case['depth'], lambda t: build(case, t), rec,
        lambda b: fp(b[0].g1, b[0].g2, b[0].g, complex(b[1])), check, prefix=case['prefix'])


KINDS = {'conv': k_conv, 'inverse': k_inverse, 'shear': k_shear, 'point': k_pointwise,
         'hist': k_hist}
CHUNK = 8


def cases(tier):
    th = tier == 'thorough'
    for f in CONV:
        yield 'conv', dict(f=f)
    for f, g in INV:
        yield 'inverse', dict(f=f, g=g)
    for r in RADII:
        for a in ANG:
            yield 'point', dict(x=list(pt(r, a)))
    rs = [0.0, 1e-8, 0.05, 0.3, 0.7, 0.95, 0.9999] + ([0.01, 0.5, 0.99, 1 - 1e-9] if th else [])
    pts = [list(pt(r, a)) for r in rs for a in (ANG if th else ANG[:9])]
    for g in pts:
        yield 'shear', dict(g=g, ss=pts)
    for root in ([0.1, 0.2], [0.0, 0.0], [-0.99, 0.05]):
        for op in OPS:
            yield 'hist', dict(root=root, prefix=[op], depth=5 if th else 4)
