"""
C04  a mixture always evaluates according to its current parameters
"""
import copy
import itertools
import numpy as np
import ngmix
from ngmix import GMix, GMixModel, Observation
from ngmix.gmix import GMixCM, GMixCoellip, gmix_concat
from ngmix.gexceptions import GMixRangeError
from mc.core import bfs, fp
from mc import gmref as R
from mc.data import jac, noise

LEVEL = 'model_checking'
RULE = (
    'Breadth-first search over histories of real mixtures (full with 1-3 '
    'gaussians including a singular, negative or zero-size component in each '
    'position, gauss, exp, dev, turb, bdf, bd, cm, coellip): fill with good and '
    'bad parameters, set_cen, set_flux, set_norms, render, fast render, '
    'likelihood, residuals, S/N, weighted sums, copy, shear, round, convolve, '
    'concatenate. After each history every getter and evaluator is compared '
    '(twice) with a reference mixture kept as plain numbers, and the inputs of '
    'operations returning new mixtures are compared with before. '
    'States are merged only if all attributes of the object are equal.'
)
ASSUMPTIONS = [
    'parameters of the alphabet are finite; total flux is not zero',
    'the fast exponential may be off by 1e-4 relative and the cutoff is chi2=25',
]

BADCOMP = {'det': [1.0, 0.2, 0.1, 2.0, 3.0, 2.0], 'zero': [1.0, 0.2, 0.1, 0.0, 0.0, 0.0],
           'neg': [1.0, 0.2, 0.1, -2.0, 0.3, -3.0]}
GOOD = [[1.0, 0.1, 0.2, 4.0, 0.5, 3.0], [2.0, -0.3, 0.4, 2.0, -0.5, 3.5],
        [0.5, 0.6, -0.2, 1.5, 0.2, 1.0]]
GOOD2 = [[3.0, 0.3, -0.1, 3.0, -0.4, 2.0], [1.0, 0.2, 0.2, 1.0, 0.3, 2.5],
         [0.7, -0.1, -0.6, 2.5, 0.1, 3.0]]
SIMPLE = {
    'gauss': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'exp': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0],
    'dev': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0], 'turb': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0],
    'cm': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0],
    'bdf': [0.1, 0.2, 0.1, -0.05, 4.0, 0.4, 2.0],
    'bd': [0.1, 0.2, 0.1, -0.05, 4.0, 0.1, 0.4, 2.0],
    'coellip2': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0, 1.0, 0.5],
    'coellip1': [0.1, 0.2, 0.1, -0.05, 4.0, 2.0],
}
SIMPLE2 = {
    'bdf': [-0.3, 0.25, -0.2, 0.1, 6.0, 0.9, 5.0],
    'bd': [-0.3, 0.25, -0.2, 0.1, 6.0, -0.3, 0.9, 5.0],
    'coellip2': [-0.3, 0.25, -0.2, 0.1, 6.0, 1.0, 3.0, 2.0],
}


def fillpars(kind, which):
    """valid (0, 1), 'g' out of range shape, 'T' zero size, 'len' wrong length"""
    if kind.startswith('full'):
        n = int(kind[4])
        if which == 'len':
            return [1.0] * (6 * n + 1)
        g = [list(x) for x in (GOOD2 if which == 1 else GOOD)[:n]]
        if which == 'g':
            g[n - 1] = BADCOMP['det']
        elif which == 'T':
            g[n - 1] = BADCOMP['zero']
        elif which == 'T0':
            g[0] = BADCOMP['neg']
        return list(itertools.chain(*g))
    p = list(SIMPLE[kind]) if which != 1 else list(
        SIMPLE2.get(kind, [-0.3, 0.25, -0.2, 0.1, 6.0, 5.0]))
    if which == 'len':
        p = p + [1.0]
    elif which == 'g':
        p[2] = 1.2
    elif which == 'T':
        p[4] = 0.0
        if kind == 'coellip2':
            p[4], p[5] = 2.0, 0.0
    elif which == 'T0':
        p[4] = -1.0
    return p


def construct(kind, pars):
    if kind.startswith('full'):
        return GMix(pars=pars)
    if kind == 'cm':
        return GMixCM(0.3, 0.8, pars)
    if kind.startswith('coellip'):
        return GMixCoellip(pars)
    return GMixModel(pars, kind)


def mixof(gm):
    return gm.get_full_pars().reshape(-1, 6)


PSF = {'psf1': [[1.5, 0.3, -0.2, 1.0, 0.1, 1.2]],
       'psf2': [[1.5, 0.3, -0.2, 1.0, 0.1, 1.2], [0.5, -0.1, 0.1, 2.0, -0.3, 2.2]]}


def psf(name):
    return GMix(pars=np.array(PSF[name]).ravel())


_IM = noise((4, 5), 3)
_WT = np.abs(noise((4, 5), 4)) + 0.5
_WT[1, 2] = 0.0
_WT[3, 0] = -1.0


def make_obs():
    return Observation(_IM.copy(), weight=_WT.copy(), jacobian=jac(1.4, 2.1, 0.8, 0.1, -0.05, 0.7))


_OBS = []


def obs():
    if not _OBS:
        _OBS.append(make_obs())
    return _OBS[0]


def grid(j, dims):
    r, c = np.mgrid[0:dims[0], 0:dims[1]]
    v = j.dvdrow * (r - j.row0) + j.dvdcol * (c - j.col0)
    u = j.dudrow * (r - j.row0) + j.dudcol * (c - j.col0)
    return v, u, abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow)


class Box(object):
    """the real mixture, the model, notes on what went wrong"""

    def __init__(self, kind, which):
        self.kind = kind
        self.errs = []
        if isinstance(which, list):
            self.gm = GMix(pars=np.array(which).ravel())
            self.m = np.array(which, dtype='f8')
        else:
            self.gm = construct(kind, fillpars(kind, which))
            self.m = mixof(self.gm).copy()

    def both(self, op, real, expect_raise):
        try:
            r = real()
        except GMixRangeError:
            if expect_raise is False:
                self.errs.append('%s raised GMixRangeError' % (op,))
            return None
        if expect_raise:
            self.errs.append('%s did not raise GMixRangeError' % (op,))
        return r


EVAL = ['render', 'fast', 'loglike', 'fdiff', 's2n', 'wsums', 'norms', 'wsumsh']


def evaluate(gm, what):
    o = obs()
    if what == 'render':
        return gm.make_image([4, 5], jacobian=o.jacobian)
    if what == 'fast':
        return gm.make_image([4, 5], jacobian=o.jacobian, fast_exp=True)
    if what == 'loglike':
        d = gm.get_loglike(o, more=True)
        d['single'] = gm.get_loglike(o)
        return d
    if what == 'fdiff':
        f = np.zeros(o.image.size + 2) - 9
        gm.fill_fdiff(o, f, start=2)
        return f
    if what == 's2n':
        return gm.get_model_s2n_sum(o), gm.get_model_s2n(o)
    if what == 'wsums':
        return (gm.get_weighted_sums(o), gm.get_weighted_sums(o, maxrad=1.3))
    if what == 'wsumsh':
        return (gm.get_weighted_sums(o, with_higher_order=True),
                gm.get_weighted_sums(o, maxrad=1.3, with_higher_order=True))
    if what == 'norms':
        return gm.set_norms()


def fr(a, b, rtol, atol, what, bad):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        bad.append('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    elif not np.allclose(a, b, rtol=rtol, atol=atol):
        bad.append('%s: %s, expected %s' % (what, a.ravel()[:12].tolist(), b.ravel()[:12].tolist()))


def compare_eval(gm, m, what, bad):
    """the evaluation of `what` against the model"""
    isbad = R.bad(m)
    if R.marginal(m):
        return 'marginal'
    try:
        with np.errstate(all='ignore'):
            r = evaluate(gm, what)
    except GMixRangeError:
        if not isbad:
            bad.append('%s raised GMixRangeError' % what)
        return 'raise'
    if isbad:
        bad.append('%s of a mixture with an invalid component did not raise' % what)
        return 'noraise'
    if what == 'norms':
        return 'ok'
    o = obs()
    v, u, area = grid(o.jacobian, o.image.shape)
    fscale = np.abs(m[:, 0] / np.sqrt(R.det(m))).sum() * area / (2 * np.pi)
    if what == 'render':
        im, _ = R.evaluate(m, v, u, area)
        fr(r, im, 1e-10, 1e-12 * fscale, what, bad)
        return 'ok'
    im, edge = R.evaluate(m, v, u, area, fast=True)
    at = 1e-4 * fscale
    if edge.any():
        return 'edge'
    if what == 'fast':
        fr(r, im, 0, at, what, bad)
        return 'ok'
    k = o.weight > 0
    iv, val, mod = o.weight[k], o.image[k], im[k]
    df = (mod - val) * np.sqrt(iv)
    if what == 'loglike':
        ll = -0.5 * (df ** 2).sum()
        tol = (np.abs(df) * np.sqrt(iv)).sum() * at + 1e-12
        fr(r['loglike'], ll, 0, tol, what, bad)
        fr(r['single'], r['loglike'], 1e-14, 0, 'loglike single', bad)
        fr(r['s2n_numer'], (mod * val * iv).sum(), 0, (np.abs(val) * iv).sum() * at, 's2n_numer', bad)
        fr(r['s2n_denom'], (mod * mod * iv).sum(), 0, 2 * (np.abs(mod) * iv).sum() * at + iv.sum() * at ** 2,
           's2n_denom', bad)
        if r['npix'] != k.sum():
            bad.append('npix %s, expected %d' % (r['npix'], k.sum()))
    elif what == 'fdiff':
        n = k.sum()
        fr(r[2:2 + n], df, 0, np.sqrt(iv).max() * at + 1e-12, what, bad)
        if not (r[:2] == -9).all() or not (r[2 + n:] == -9).all():
            bad.append('fdiff wrote outside its range')
    elif what == 's2n':
        s = (mod * mod * iv).sum()
        fr(r[0], s, 0, 2 * (np.abs(mod) * iv).sum() * at + iv.sum() * at ** 2, what, bad)
        fr(r[1] ** 2, r[0], 1e-12, 1e-300, 'sqrt of s2n sum', bad)
    elif what in ('wsums', 'wsumsh'):
        T = R.e1e2T(m)[2]
        for res, mr in zip(r, (100 * np.sqrt(T / 2), 1.3)):
            if not mr > 0:
                continue
            sums, cov, wsum, npix = R.wsums(m, v[k], u[k], area, val, iv, mr, what == 'wsumsh')
            s = np.abs(sums).max() + np.abs(val).max() * fscale
            fr(res['sums'], sums, 1e-9, 1e-11 * s, what + ' sums', bad)
            fr(res['sums_cov'], cov, 1e-9, 1e-11 * np.abs(cov).max(), what + ' cov', bad)
            fr(res['wsum'], wsum, 1e-10, 1e-13 * fscale, 'wsum', bad)
            if res['npix'] != npix:
                bad.append('npix of sums %s, expected %d' % (res['npix'], npix))
    return 'ok'


OPS = [['cen', 1.25, -0.5], ['flux', 3.5], ['fill', 1], ['fill', 'T'], ['fill', 'g'],
       ['render'], ['loglike'], ['shear', 0.2, -0.1], ['round', False], ['round', True],
       ['copy'], ['conv', 'psf2'], ['wsums']]
OPS_MORE = [['cen', 0.0, 0.0], ['flux', -1.0], ['fill', 0], ['fill', 'T0'], ['fill', 'len'],
            ['fast'], ['fdiff'], ['s2n'], ['norms'], ['wsumsh'], ['normsif'], ['shears', -0.3, 0.4],
            ['deepcopy'], ['conv', 'psf1'], ['concat'], ['concat2'], ['gapflux'], ['reset'],
            ['galsim']]


def apply(b, op):
    name = op[0]
    gm, m = b.gm, b.m
    before = m.copy()
    isbad, marg = R.bad(m), R.marginal(m)
    expect = None if marg else isbad
    new = None
    if name == 'cen':
        gm.set_cen(op[1], op[2])
        b.m = R.set_cen(m, op[1], op[2])
    elif name == 'flux':
        gm.set_flux(op[1])
        b.m = R.set_flux(m, op[1])
    elif name == 'fill':
        if b.kind == 'new':
            return
        pars = fillpars(b.kind, op[1])
        try:
            fresh = mixof(construct(b.kind, pars)) if op[1] != 'len' else None
        except GMixRangeError:
            fresh = None
        try:
            gm.fill(pars)
        except (GMixRangeError, ValueError):
            if fresh is not None:
                b.errs.append('fill with %s raised' % pars)
        else:
            if fresh is None:
                b.errs.append('fill with %s did not raise' % pars)
            else:
                b.m = fresh.copy()
    elif name in EVAL:
        compare_eval(gm, m, name, b.errs)
    elif name == 'normsif':
        b.both(name, gm.set_norms_if_needed, expect)
    elif name in ('shear', 'shears'):
        if isbad or marg:
            # no meaningful answer
            return
        if name == 'shears':
            new = gm.get_sheared(ngmix.Shape(op[1], op[2]))
        else:
            new = gm.get_sheared(op[1], op[2])
        b.m = R.shear(m, op[1], op[2])
    elif name == 'round':
        e1, e2, T = R.e1e2T(m)
        e = np.hypot(e1, e2)
        out = m.copy()
        t = m[:, 3] + m[:, 5]
        if op[1]:
            f = (1 + e)  # largest eigenvalue over T/2
            f = 1 + e * np.sign(T) if T != 0 else f
            ok = True
        else:
            ok = e < 1
            if ok:
                g = np.hypot(*R.e2g(e1, e2))
                f = (1 - g ** 2) / (1 + g ** 2)
        if ok and abs(e - 1) > 1e-8:
            new = b.both(op, lambda: gm.make_round(preserve_size=op[1]), None if op[1] else False)
            if new is not None:
                out[:, 3] = out[:, 5] = 0.5 * t * f
                out[:, 4] = 0
                b.m = out
        elif e > 1 + 1e-8:
            b.both(op, lambda: gm.make_round(), True)
        else:
            return
    elif name == 'copy':
        new = gm.copy()
    elif name == 'deepcopy':
        new = copy.deepcopy(gm)
    elif name == 'conv':
        p = psf(op[1])
        if len(m) > 40:
            return
        new = gm.convolve(p)
        b.m = R.convolve(m, np.array(PSF[op[1]]))
        if not np.array_equal(mixof(p), np.array(PSF[op[1]])):
            b.errs.append('convolve changed the psf')
        b.kind = 'new'
    elif name in ('concat', 'concat2'):
        p = psf('psf1')
        if len(m) > 40:
            return
        lst = [gm, p] if name == 'concat' else (p, gm, gm)
        new = gmix_concat(lst)
        pm = np.array(PSF['psf1'])
        b.m = np.concatenate([m, pm] if name == 'concat' else [pm, m, m])
        b.kind = 'new'
    elif name == 'gapflux':
        gm.get_gaussap_flux(fwhm=2.0)
    elif name == 'reset':
        return
    elif name == 'galsim':
        if not isbad and not marg:
            g = gm.make_galsim_object()
            if abs(g.flux - R.flux(m)) > 1e-9 * max(1, np.abs(m[:, 0]).sum()):
                b.errs.append('galsim object has flux %s' % g.flux)
    if new is not None:
        # the operand must be as before
        if not np.allclose(mixof(gm), before, rtol=1e-9, atol=1e-12):
            b.errs.append('%s changed its input: %s to %s' % (
                op, before.tolist(), mixof(gm).tolist()))
        if name not in ('copy', 'deepcopy') or True:
            # and the two must be independent
            old = mixof(gm).copy()
            keep = mixof(new).copy()
            if name not in ('conv', 'concat', 'concat2'):
                gm.set_cen(55.0, 66.0)
                gm.set_flux(77.0)
                if not np.array_equal(mixof(new), keep):
                    b.errs.append('%s: the new mixture follows changes of the old' % op)
            del old
        b.gm = new


def build(case, trace):
    b = Box(case['kind'], case['which'])
    for op in trace:
        apply(b, op)
    return b


def compare(b, rec):
    gm, m = b.gm, b.m
    bad = list(b.errs)
    if bad:
        return bad
    scale = np.abs(m).max() + 1
    with np.errstate(all='ignore'):
        fr(mixof(gm), m, 1e-9, 1e-11 * scale, 'full pars', bad)
        if len(gm) != len(m):
            bad.append('len %d, expected %d' % (len(gm), len(m)))
        if bad:
            return bad
        ps = np.abs(m[:, 0]).sum() / abs(R.flux(m))
        at = 1e-10 * ps * scale
        fr(gm.get_flux(), R.flux(m), 1e-10, at, 'flux', bad)
        fr(gm.get_psum(), R.flux(m), 1e-10, at, 'psum', bad)
        fr(gm.get_cen(), R.cen(m), 1e-10, at, 'cen', bad)
        e1, e2, T = R.e1e2T(m)
        fr(gm.get_T(), T, 1e-9, at, 'T', bad)
        if abs(T) > 1e-3 * scale:
            fr(gm.get_e1e2T(), (e1, e2, T), 1e-8, 1e-8 * ps, 'e1e2T', bad)
            if T > 0:
                fr(gm.get_sigma(), np.sqrt(T / 2), 1e-9, 0, 'sigma', bad)
                fr(gm.get_e1e2sigma(), (e1, e2, np.sqrt(T / 2)), 1e-8, 1e-8 * ps, 'e1e2sigma', bad)
                e = np.hypot(e1, e2)
                if e < 1 - 1e-6:
                    g1, g2 = R.e2g(e1, e2)
                    fr(gm.get_g1g2T(), (g1, g2, T), 1e-7, 1e-7 * ps, 'g1g2T', bad)
                    fr(gm.get_g1g2sigma(), (g1, g2, np.sqrt(T / 2)), 1e-7, 1e-7 * ps,
                       'g1g2sigma', bad)
                elif e > 1 + 1e-6:
                    try:
                        gm.get_g1g2T()
                        bad.append('get_g1g2T did not raise for |e|=%g' % e)
                    except GMixRangeError:
                        pass
        if not R.bad(m) and not R.marginal(m):
            for kw in ({'sigma': 1.1}, {'fwhm': 1.1 * 2.3548200450309493}, {'T': 2 * 1.1 ** 2}):
                fr(gm.get_gaussap_flux(**kw), R.apflux(m, 1.1), 1e-8, at, 'gaussap flux', bad)
        for twice in (0, 1):
            for what in EVAL:
                rec.outcome(compare_eval(gm, m, what, bad))
        # copies evaluate the same
        for c in (gm.copy(), copy.copy(gm)):
            fr(mixof(c), m, 1e-9, 1e-11 * scale, 'full pars of copy', bad)
            compare_eval(c, m, 'render', bad)
            compare_eval(c, m, 'loglike', bad)
        fr(mixof(gm), m, 1e-9, 1e-11 * scale, 'full pars after evaluation', bad)
    rec.eval(25)
    return bad


def k_explore(case, rec):
    ops = OPS + (OPS_MORE if case['more'] else [])

    def check(b, hist):
        bad = compare(b, rec)
        if bad:
            rec.fail(bad[0].split(':')[0][:60], '; '.join(bad)[:900] + ' after %s' % (hist,),
                     kind='trace', case=dict(case, trace=hist))
        return not bad

    def key(b):
        return fp(vars(b.gm), b.m, b.kind)

    # canon is taken after check: it must not include what check set, so
    # take it while building
    def build_(t):
        b = build(case, t)
        b.key = key(b)
        return b

    bfs(ops, case['depth'], build_, rec, lambda b: b.key, check, prefix=case['prefix'])
    rec.sample(dict(kind=case['kind'], which=str(case['which'])[:60], depth=case['depth']))


def k_trace(case, rec):
    bad = compare(build(case, case['trace']), rec)
    rec.trace()
    rec.trans(len(case['trace']) or 1)
    rec.state(fp(case))
    if bad:
        rec.fail(bad[0].split(':')[0][:60], '; '.join(bad)[:900])


KINDS = {'explore': k_explore, 'trace': k_trace}
CHUNK = 1


def warmup():
    import mc.core
    rec = mc.core.Rec()
    for k in list(SIMPLE) + ['full1']:
        k_trace(dict(kind=k, which=0, trace=[['shear', 0.1, 0.1], ['conv', 'psf1']]), rec)


def roots(tier):
    for k in ('full1', 'full2', 'full3') + tuple(SIMPLE):
        yield k, 0
        yield k, 'T'
    yield 'exp', 'T0'
    yield 'full2', 'g'
    for n in (1, 2, 3):
        for pos in range(n):
            for b in BADCOMP:
                m = [list(x) for x in GOOD[:n]]
                m[pos] = BADCOMP[b]
                yield 'full%d' % n, m


def cases(tier):
    thorough = tier == 'thorough'
    for kind, which in roots(tier):
        if which == 0 and (thorough or kind in ('full2', 'exp', 'cm', 'coellip2')):
            for op in OPS:
                yield 'explore', dict(kind=kind, which=which, more=False, prefix=[op],
                                      depth=4 if thorough else 3)
        yield 'explore', dict(kind=kind, which=which, more=True, prefix=[],
                              depth=3 if thorough else 2)
