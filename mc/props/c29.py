"""
C29  bounds of priors hold for the parameter they belong to, in every evaluation of a fit

The components of a joint prior carry bounds; the joint prior collects them, the fit
model hands them to the minimizer, which changes variables.  Every fitter is run for
every assignment of kinds of bounds to the components, with a monitor on each
evaluation of the prior (and so of the model).
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix import priors as P, joint_prior as J
from ngmix.fitting import (Fitter, CoellipFitter, GalsimFitter, GalsimSpergelFitter, GalsimMoffatFitter)
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'Fitters and joint priors x bands x assignments of kinds of bounds (none, LMBounds, a Normal '
    'with two-sided, lower, upper bounds, a bound at zero, bounds that exclude the true value) to the components: '
    'every single component x kind, every pair of components x pairs of kinds, all components '
    '(thorough: all assignments for up to four components).  Each is fit with the real '
    'minimizer; the bounds collected are compared with a table of the order of parameters, and '
    'every parameter vector evaluated, and the result, with the bounds.'
)
ASSUMPTIONS = ['the guess lies strictly within the bounds']
CASE_TIMEOUT = 120
CHUNK = 4

KINDSB = ['lm', 'n2', 'lo', 'hi', 'ex', 'pos']

# parameters after the center and shape: (name, truth) of the components without fluxes
CFG = {
    'gauss': [('T', .6)], 'exp': [('T', .6)], 'turb': [('T', .6)],
    'bd': [('T', .6), ('logTratio', .1), ('fracdev', .4)],
    'bdf': [('T', .6), ('fracdev', .4)],
    'coellip2': [('T', None)], 'coellip3': [('T', None)],
    'gs-exp': [('r50', .7)], 'gs-spergel': [('r50', .7), ('nu', .4)], 'gs-moffat': [('r50', .7), ('nu', 2.5)],
}
FLUX = [3.0, 5.5, 1.4]
CT = {2: [.3, .9], 3: [.3, .9, 2.0]}
CF = {2: [2.0, 1.0], 3: [2.0, 1.0, .5]}
# distances from the truth to the bounds, different for each component
HALF = [.11, .13, .17, .19, .23, .29]


def ncomp(cfg, nband):
    return len(CFG[cfg]) + nband


def truth(cfg, nband):
    base = [.05, -.03, .1, -.05]
    if cfg.startswith('coellip'):
        n = int(cfg[-1])
        return np.array(base + CT[n] + CF[n])
    return np.array(base + [t for _, t in CFG[cfg]] + FLUX[:nband])


def values(cfg, nband):
    """truths of each component: lists, more than one value where a component is used repeatedly"""
    if cfg.startswith('coellip'):
        n = int(cfg[-1])
        return [CT[n], CF[n]]
    return [[t] for _, t in CFG[cfg]] + [[f] for f in FLUX[:nband]]


def interval(cfg, nband, i, kind):
    v = values(cfg, nband)[i]
    lo, hi = min(v), max(v)
    h = HALF[i]
    if kind in ('lm', 'n2'):
        return (lo - h, hi + 1.3 * h)
    if kind == 'lo':
        return (lo - h, None)
    if kind == 'pos':
        return (0.0, None)
    if kind == 'hi':
        return (None, hi + 1.3 * h)
    if kind == 'ex':
        return (hi + h, hi + 2.1 * h)
    return None


def component(cfg, nband, i, kind, rng):
    v = values(cfg, nband)[i]
    b = interval(cfg, nband, i, kind)
    if kind == 'lm':
        return P.LMBounds(b[0], b[1], rng)
    return P.Normal(float(np.mean(v)), 2.0, rng, bounds=b)


class Recorder:
    pass


def mkprior(cfg, nband, kinds, seen, rng):
    c = [component(cfg, nband, i, k, rng) for i, k in enumerate(kinds)]
    cen = P.CenPrior(0.0, 0.0, 1.0, 1.0, rng=rng)
    g = P.GPriorBA(.3, rng=rng)
    n = len(CFG[cfg])
    F = c[n:]
    if nband == 1 and len(cfg) % 2:
        F = F[0]
    if cfg == 'bd':
        cls, a = J.PriorBDSep, (cen, g, c[0], c[1], c[2], F)
    elif cfg == 'bdf':
        cls, a = J.PriorBDFSep, (cen, g, c[0], c[1], F)
    elif cfg.startswith('coellip'):
        cls, a = J.PriorCoellipSame, (int(cfg[-1]), cen, g, c[0], F)
    elif cfg in ('gs-spergel', 'gs-moffat'):
        cls, a = J.PriorSpergelSep, (cen, g, c[0], c[1], F)
    elif cfg == 'gs-exp':
        cls, a = J.PriorGalsimSimpleSep, (cen, g, c[0], F)
    else:
        cls, a = J.PriorSimpleSep, (cen, g, c[0], F)

    class Monitored(cls):
        def fill_fdiff(self, pars, fdiff):
            seen.append(np.array(pars, dtype='f8'))
            return super().fill_fdiff(pars, fdiff)

    return Monitored(*a)


_OBS = {}


def mkobs(cfg, nband):
    k = (cfg, nband)
    if k in _OBS:
        return _OBS[k]
    t = truth(cfg, nband)
    mb = MultiBandObsList()
    nex = len(t) - nband
    gs = cfg.startswith('gs')
    for b in range(nband):
        ol = ObsList()
        dims = (17, 17) if gs else (13, 12)
        j = ngmix.DiagonalJacobian(row=dims[0] / 2 - .4, col=dims[1] / 2 - .6, scale=.3)
        p = list(t) if cfg.startswith('coellip') else list(t[:nex]) + [t[nex + b]]
        ol.append(Observation(image_of(cfg, p, dims, j), weight=np.full(dims, 1e6), jacobian=j, psf=psfob(j, gs)))
        mb.append(ol)
    _OBS[k] = mb
    return mb


def psfob(j, gs):
    if not gs:
        return None
    import galsim
    pj = ngmix.DiagonalJacobian(row=8, col=8, scale=.3)
    im = galsim.Gaussian(fwhm=.8).drawImage(nx=17, ny=17, scale=.3).array.astype('f8')
    return Observation(im, weight=np.full(im.shape, 1e6), jacobian=pj)


def image_of(cfg, p, dims, j):
    if not cfg.startswith('gs'):
        model = 'coellip' if cfg.startswith('coellip') else cfg
        return ngmix.gmix.make_gmix_model(np.array(p), model).make_image(dims, jacobian=j)
    import galsim
    if cfg == 'gs-exp':
        o = galsim.Exponential(half_light_radius=p[4], flux=p[-1])
    elif cfg == 'gs-spergel':
        o = galsim.Spergel(nu=p[5], half_light_radius=p[4], flux=p[-1])
    else:
        o = galsim.Moffat(beta=p[5], half_light_radius=p[4], flux=p[-1])
    o = o.shear(g1=p[2], g2=p[3]).shift(p[1], p[0])
    row, col = j.get_cen()
    o = galsim.Convolve(o, galsim.Gaussian(fwhm=.8))
    off = (col - (dims[1] - 1) / 2, row - (dims[0] - 1) / 2)
    return o.drawImage(nx=dims[1], ny=dims[0], scale=.3, offset=off).array.astype('f8')


def mkfitter(cfg, prior):
    fp_ = {'maxfev': 300, 'ftol': 1e-6, 'xtol': 1e-6}
    if cfg.startswith('coellip'):
        return CoellipFitter(ngauss=int(cfg[-1]), prior=prior, fit_pars=fp_)
    if cfg == 'gs-spergel':
        return GalsimSpergelFitter(prior=prior, fit_pars=fp_)
    if cfg == 'gs-moffat':
        return GalsimMoffatFitter(prior=prior, fit_pars=fp_)
    if cfg == 'gs-exp':
        return GalsimFitter('exp', prior=prior, fit_pars=fp_)
    return Fitter(cfg, prior=prior, fit_pars=fp_)


def expected(cfg, nband, kinds):
    out = [(None, None)] * 4
    rep = [1] * len(kinds)
    if cfg.startswith('coellip'):
        rep = [int(cfg[-1])] * 2
    for i, k in enumerate(kinds):
        out += [interval(cfg, nband, i, k) or (None, None)] * rep[i]
    return out


def start(cfg, nband, bounds):
    """near the truth, in the part of the interval nearest to it"""
    t = truth(cfg, nband)
    g = t * 1.03 + np.array([.02, .01, .01, .02] + [0.0] * (len(t) - 4))
    for i, (lo, hi) in enumerate(bounds):
        if lo is not None and hi is not None:
            m = .1 * (hi - lo)
            g[i] = min(max(g[i], lo + m), hi - m)
        elif lo is not None:
            g[i] = max(g[i], lo + .02)
        elif hi is not None:
            g[i] = min(g[i], hi - .02)
    return g


def norm(b, n):
    if b is None:
        return [(None, None)] * n
    return [tuple(x) if x is not None else None for x in b]


def viol(p, bounds):
    for i, (v, (lo, hi)) in enumerate(zip(p, bounds)):
        if lo is not None and not v >= lo - 1e-9:
            return i, v
        if hi is not None and not v <= hi + 1e-9:
            return i, v
    return None


# with more parameters than the data can tell apart; the minimizer may run out of evaluations
HARD = ('bd', 'coellip3')


def logp(res, pars):
    with np.errstate(all='ignore'):
        f = res.calc_fdiff(np.array(pars))
    return -.5 * (f * f).sum()


def k_fit(case, rec):
    cfg, nb, kinds = case['cfg'], case['nband'], case['kinds']
    seen = []
    rng = np.random.RandomState(3)
    prior = mkprior(cfg, nb, kinds, seen, rng)
    want = expected(cfg, nb, kinds)
    n = len(want)
    mb = mkobs(cfg, nb)
    ctx = '%s %d bands %s' % (cfg, nb, kinds)
    if norm(prior.bounds, n) != want:
        rec.fail('order', '%s: bounds %r, expected %r' % (ctx, prior.bounds, want))
        return
    guess = start(cfg, nb, want)
    fitter = mkfitter(cfg, prior)
    first = None
    for rep in range(case.get('reps', 1)):
        del seen[:]
        try:
            with np.errstate(all='ignore'):
                res = fitter.go(mb, guess.copy())
        except AttributeError as err:
            rec.fail('unusable', '%s: %r' % (ctx, err))
            return
        pars = np.array(res['pars'])
        rec.trace()
        rec.trans(len(seen))
        rec.eval(len(seen) + 2)
        rec.state(fp(cfg, nb, kinds))
        rec.outcome('flags %d' % res['flags'])
        if len(seen) < n:
            rec.fail('not-evaluated', '%s: prior evaluated %d times' % (ctx, len(seen)))
            return
        for p in seen:
            v = viol(p, want)
            if v:
                rec.fail('bound-violated', '%s: parameter %d evaluated at %r, bounds %r' % ((ctx,) + v + (want[v[0]],)))
                return
        v = viol(pars, want)
        if v and res['flags'] == 0:
            rec.fail('result-outside', '%s: parameter %d is %r, bounds %r' % ((ctx,) + v + (want[v[0]],)))
            return
        if norm(res.bounds, n) != want:
            rec.fail('model-bounds', '%s: bounds of the fit model %r, expected %r' % (ctx, res.bounds, want))
        if norm(prior.bounds, n) != want:
            rec.fail('changed', '%s: bounds of the prior became %r' % (ctx, prior.bounds))
        # what is handed out is a copy
        got = res.bounds
        if isinstance(got, list) and got:
            got[-1] = (5.0, 6.0)
            got.append(None)
            if norm(res.bounds, n) != want or norm(prior.bounds, n) != want:
                rec.fail('handed-out', '%s: changing the bounds of the result changes those of the model or the prior' % ctx)
                return
        # parameters that are free move, whatever the others may do
        if res['flags'] & 0x7 or np.all(pars == pars[0]):
            # the minimizer gave up
            if 'ex' not in kinds and cfg not in HARD:
                rec.fail('not-found', '%s: flags %s' % (ctx, res['flags']))
        elif np.all(np.isfinite(pars)) and 'ex' not in kinds:
            lt, lr = logp(res, truth(cfg, nb)), logp(res, pars)
            if not lr > lt - .5:
                rec.fail('not-found', '%s: minimum within the bounds but ln prob %r at %s, %r at the truth; flags %s'
                         % (ctx, lr, pars, lt, res['flags']))
        elif np.all(np.isfinite(pars)):
            lg, lr = logp(res, guess), logp(res, pars)
            if not lr >= lg - 1e-6 * abs(lg):
                rec.fail('worse', '%s: ln prob %r at %s, %r at the guess' % (ctx, lr, pars, lg))
        if first is None:
            first = pars
        elif not np.array_equal(first, pars, equal_nan=True):
            rec.fail('repeat', '%s: second fit gives %s, first %s' % (ctx, pars, first))


class PlainPrior(object):
    """a prior without bounds"""

    def __init__(self, p, seen):
        self.p = p
        self.seen = seen

    def fill_fdiff(self, pars, fdiff):
        return self.p.fill_fdiff(pars, fdiff)

    def get_lnprob_scalar(self, pars):
        return self.p.get_lnprob_scalar(pars)


def k_plain(case, rec):
    """priors that define no bounds leave every parameter free"""
    cfg, nb = case['cfg'], case['nband']
    seen = []
    p = mkprior(cfg, nb, ['ex'] + [None] * (ncomp(cfg, nb) - 1), seen, np.random.RandomState(3))
    mb = mkobs(cfg, nb)
    guess = start(cfg, nb, norm(None, len(truth(cfg, nb))))
    res = mkfitter(cfg, PlainPrior(p, seen)).go(mb, guess)
    rec.trace()
    rec.trans(len(seen))
    rec.eval(2)
    rec.state(fp(cfg, nb, 'plain'))
    if res.bounds is not None and any(x != (None, None) for x in res.bounds):
        rec.fail('plain', '%s: bounds %r from a prior without' % (case, res.bounds))
    if not logp(res, res['pars']) > logp(res, truth(cfg, nb)) - .5:
        rec.fail('plain', '%s: minimum not found: %s flags %s' % (case, res['pars'], res['flags']))


def k_guess(case, rec):
    """guesses drawn from a bounded prior start every attempt within the bounds"""
    from ngmix.guessers import PriorGuesser
    from ngmix.runners import Runner
    cfg, nb = case['cfg'], case['nband']
    seen = []
    kinds = ['lm'] * ncomp(cfg, nb)
    prior = mkprior(cfg, nb, kinds, seen, np.random.RandomState(case['seed']))
    want = expected(cfg, nb, kinds)
    guesser = PriorGuesser(prior)
    for i in range(20):
        v = viol(guesser(), want)
        rec.eval()
        if v:
            rec.fail('guess', '%s: guess for parameter %d is %r, bounds %r' % ((case,) + v + (want[v[0]],)))
            return
    for v in guesser(nrand=5):
        if viol(v, want):
            rec.fail('guess', '%s: guess %s outside' % (case, v))
    with np.errstate(all='ignore'):
        res = Runner(mkfitter(cfg, prior), guesser=guesser, ntry=2).go(mkobs(cfg, nb))
    rec.trace()
    rec.trans(len(seen))
    rec.state(fp(cfg, nb, 'guess', case['seed']))
    for p in seen:
        v = viol(p, want)
        if v:
            rec.fail('bound-violated', '%s: parameter %d evaluated at %r, bounds %r' % ((case,) + v + (want[v[0]],)))
            return


def k_component(case, rec):
    """has_bounds and bounds of the components"""
    rng = np.random.RandomState(1)
    e = []
    ends = [None, -1.5, 0.0, 0, .25]
    for b in [None, [0.25, .5]] + [x for x in itertools.product(ends, ends) if None in x or x[0] < x[1]]:
        p = P.Normal(.3, .1, rng, bounds=b)
        if p.has_bounds() != (b is not None):
            e.append('Normal with bounds %r: has_bounds() is %r' % (b, p.has_bounds()))
        if b is not None and tuple(p.bounds) != tuple(b):
            e.append('Normal with bounds %r has %r' % (b, p.bounds))
        rec.eval(2)
    for lo, hi in ((0.0, 1.0), (-2.0, -1.5), (3, 7)):
        p = P.LMBounds(lo, hi, rng)
        if not p.has_bounds() or tuple(p.bounds) != (lo, hi):
            e.append('LMBounds(%r, %r): bounds %r' % (lo, hi, p.bounds))
        s = p.sample(50)
        if not ((s >= lo) & (s <= hi)).all():
            e.append('LMBounds(%r, %r): samples outside' % (lo, hi))
        if p.get_fdiff(lo + .3) != 0 or (p.get_fdiff(np.array([lo, hi])) != 0).any():
            e.append('LMBounds: residual is not zero')
        rec.eval(4)
    for cls, a in ((P.FlatPrior, (0.0, 1.0)), (P.TwoSidedErf, (0.0, .1, 5.0, .1)), (P.LogNormal, (1.0, .3))):
        if cls(*a, rng=rng).has_bounds():
            e.append('%s has bounds' % cls.__name__)
        rec.eval()
    rec.trace()
    rec.state(fp('component'))
    if e:
        rec.fail('component', '; '.join(e))


KINDS = {'fit': k_fit, 'plain': k_plain, 'guess': k_guess, 'component': k_component}


def warmup():
    class N:
        def __getattr__(self, k):
            return lambda *a, **k: None
    for cfg, nb in (('exp', 1), ('coellip2', 1), ('gs-exp', 1)):
        k_fit({'cfg': cfg, 'nband': nb, 'kinds': [None] * ncomp(cfg, nb)}, N())


def cases(tier):
    full = tier == 'thorough'
    yield 'component', {}
    cfgs = [('gauss', 1), ('exp', 2), ('turb', 3), ('bd', 1), ('bdf', 1), ('bdf', 2), ('coellip2', 1), ('coellip3', 1),
            ('gs-exp', 1), ('gs-exp', 2), ('gs-spergel', 1), ('gs-moffat', 1)]
    if full:
        cfgs += [('exp', 1), ('gauss', 3), ('bd', 2), ('bd', 3), ('bdf', 3), ('gs-exp', 3), ('gs-spergel', 2),
                 ('gs-moffat', 2), ('gs-moffat', 3)]
    for cfg, nb in cfgs:
        n = ncomp(cfg, nb)
        yield 'plain', {'cfg': cfg, 'nband': nb}
        for seed in range(8 if full else 2):
            yield 'guess', {'cfg': cfg, 'nband': nb, 'seed': seed}
        done = set()

        def emit(k, reps=1):
            k = tuple(k)
            if k in done:
                return
            done.add(k)
            yield 'fit', {'cfg': cfg, 'nband': nb, 'kinds': list(k), 'reps': reps}
        yield from emit([None] * n)
        for k in KINDSB:
            yield from emit([k] * n, reps=2)
        for i in range(n):
            for k in KINDSB:
                yield from emit([k if x == i else None for x in range(n)], reps=2 if k == 'n2' else 1)
        gs = cfg.startswith('gs')
        pk = KINDSB if full else (['n2', 'ex'] if gs else ['lm', 'lo', 'ex'])
        for i, j in itertools.combinations(range(n), 2):
            for a, b in itertools.product(pk, pk):
                yield from emit([a if x == i else b if x == j else None for x in range(n)])
        if full and n <= 4:
            for k in itertools.product([None] + KINDSB, repeat=n):
                yield from emit(k)
