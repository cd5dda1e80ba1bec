"""
C14  measurements are pure
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.observation import KObservation, KObsList, KMultiBandObsList, make_kobs
from ngmix import guessers as G
from mc.core import fp
from mc import data as D
from mc.props.c09 import image
from mc.props.c10 import same

LEVEL = 'model_checking'
RULE = (
    'Every fitter, runner, guesser and simulation is put in one registry with small alphabets '
    'of inputs (normal, other size and jacobian, unusable data, lists).  Enumerated on the '
    'real code: every entry x input under different states of the global generator, run '
    'twice; all histories of inputs and in-place changes of an input on one object to the '
    'stated depth; all ordered pairs of entries on the same observation.  Each result is '
    'compared with that of a fresh object on fresh inputs, all inputs and all earlier results '
    'are compared with what they were before, and the global generator with its state.'
)
ASSUMPTIONS = ['objects are given a random state', 'single threaded process']
CASE_TIMEOUT = 300
CHUNK = 4


# ---------------------------------------------------------------------------
# inputs

def mkobs(kind, band=0):
    if kind == 'B':
        n, j = 13, ngmix.Jacobian(row=6.3, col=5.8, dvdrow=0.28, dvdcol=0.02, dudrow=0.01, dudcol=0.31)
    else:
        n, j = 11, ngmix.Jacobian(row=5.1, col=4.9, dvdrow=0.26, dvdcol=-0.01, dudrow=0.02, dudcol=0.27)
    pn = 15 if kind == 'B' else 11
    pj = j.copy()
    pj.set_cen(row=(pn - 1) / 2, col=(pn - 1) / 2)
    pg = ngmix.GMixModel([0.0, 0.0, 0.02, -0.01, 0.25, 1.0], 'gauss')
    pim = pg.make_image((pn, pn), jacobian=pj) + 1e-5 * D.noise((pn, pn), 1)
    psf = Observation(pim, weight=np.full((pn, pn), 1e9), jacobian=pj, gmix=pg, meta={'p': [1, 2]})
    gm = ngmix.GMixModel([0.03, -0.02, 0.05, 0.02, 0.5, 3.0 + band], 'exp').convolve(pg)
    im = gm.make_image((n, n), jacobian=j) + 0.002 * D.noise((n, n), 5 + band)
    if kind == 'C':
        im = np.zeros((n, n))
    if kind == 'N':
        im = np.full((n, n), np.nan)
    w = np.full((n, n), 2.0e5)
    w[0, 0] = 0.0
    return Observation(im, weight=w, jacobian=j, psf=psf, noise=0.002 * D.noise((n, n), 9),
                       meta={'name': kind, 'n': [band]})


class Inputs(object):
    """the observations of one history; A is shared by the containers"""

    def __init__(self, mult=1.0):
        self.o = {}
        self.mult = 1.0
        if mult != 1.0:
            self.scale(mult)

    def scale(self, f):
        a = self.get('A')
        with a.writeable():
            a.image[:, :] = a.image * f
        self.mult *= f

    def get(self, k):
        if k not in self.o:
            if k == 'L':
                ol = ObsList(meta={'l': 1})
                ol.append(self.get('A'))
                ol.append(mkobs('B'))
                self.o[k] = ol
            elif k == 'M':
                mb = MultiBandObsList(meta={'m': 1})
                for b, kk in enumerate('AB'):
                    ol = ObsList()
                    ol.append(self.get('A') if kk == 'A' else mkobs('B', 1))
                    mb.append(ol)
                self.o[k] = mb
            elif k[0] == 'K':
                self.o[k] = make_kobs(Inputs(self.mult).get(k[1]))
            else:
                self.o[k] = mkobs(k)
        return self.o[k]


# ---------------------------------------------------------------------------
# snapshots of inputs and reductions of results

def snapk(x):
    if isinstance(x, (KObsList, KMultiBandObsList)):
        return dict(meta=sorted(x.meta), items=[snapk(y) for y in x])
    r = dict(kimage=x.kimage.array.copy(), weight=x.weight.array.copy(), meta=sorted(map(str, x.meta)))
    r['psf'] = snapk(x.psf) if x.has_psf() else None
    return r


def snap(x):
    if isinstance(x, (KObservation, KObsList, KMultiBandObsList)):
        return snapk(x)
    if isinstance(x, (Observation, ObsList, MultiBandObsList)):
        return D.snap(x)
    if isinstance(x, ngmix.GMix):
        return D.snap_gmix(x)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {str(k): snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    if isinstance(x, (np.generic, int, float, str, bool)) or x is None:
        return x
    return type(x).__name__


def reduce(res):
    if isinstance(res, (KObservation, KObsList, KMultiBandObsList)):
        return snapk(res)
    if isinstance(res, (Observation, ObsList, MultiBandObsList)):
        return D.snap(res)
    if isinstance(res, ngmix.GMix):
        return {'gmix': res.get_full_pars()}
    if isinstance(res, dict):
        out = {str(k): reduce(v) for k, v in res.items() if not str(k).startswith('_')}
        if res.get('flags', 1) == 0:
            for f in ('get_gmix', 'get_convolved_gmix', 'make_image'):
                if hasattr(res, f):
                    try:
                        out['()' + f] = reduce(getattr(res, f)())
                    except (NotImplementedError, AttributeError, TypeError):
                        pass
                    except RuntimeError:
                        out['()' + f] = 'RuntimeError'
            if hasattr(res, 'calc_fdiff') and 'pars' in res:
                out['()fdiff'] = np.array(res.calc_fdiff(res['pars']))
        return out
    if isinstance(res, (list, tuple)):
        return [reduce(r) for r in res]
    if isinstance(res, np.ndarray):
        return res.copy()
    if isinstance(res, (np.generic, int, float, bool)):
        return float(res) if not isinstance(res, np.complexfloating) else complex(res)
    if isinstance(res, str) or res is None:
        return res
    return type(res).__name__


# ---------------------------------------------------------------------------
# registry


class Entry(object):
    def __init__(self, make, run, inputs, args=None, family='', effects=False):
        self.make, self.run, self.inputs = make, run, inputs
        self.args = args or (lambda k: {})
        self.family, self.effects = family, effects


REG = {}


def nb(k):
    return 2 if k in ('M', 'KM') else 1


def guess6(k, n=6):
    return np.array([0.01, -0.01, 0.02, 0.01, 0.6] + [2.5] * nb(k))


def mkprior(rng, nband=1, kind='simple'):
    P = ngmix.priors
    cen = P.CenPrior(0.0, 0.0, 0.3, 0.3, rng=rng)
    g = P.GPriorBA(0.3, rng=rng)
    T = P.FlatPrior(0.001, 50.0, rng=rng)
    Fs = [P.FlatPrior(-10.0, 1e4, rng=rng) for i in range(nband)]
    F1 = Fs if nband > 1 else Fs[0]
    J = ngmix.joint_prior
    if kind == 'simple':
        return J.PriorSimpleSep(cen, g, T, F1)
    fd = P.TruncatedGaussian(0.5, 0.1, 0.0, 1.0, rng=rng)
    if kind == 'bdf':
        return J.PriorBDFSep(cen, g, T, fd, F1)
    if kind == 'bd':
        return J.PriorBDSep(cen, g, T, P.Normal(0.0, 0.2, rng=rng), fd, F1)
    if kind == 'spergel':
        return J.PriorSpergelSep(cen, g, T, P.FlatPrior(-0.8, 3.0, rng=rng), F1)
    if kind == 'coellip':
        return J.PriorCoellipSame(2, cen, g, T, F1)


def reg(name, *a, **k):
    REG[name] = Entry(*a, **k)


def gofit(o, obs, guess):
    return o.go(obs=obs, guess=guess)


FP = dict(maxfev=40, ftol=1e-4, xtol=1e-4)


class G3(object):
    """a guess of one vector for a prior guesser"""

    def __init__(self, rng):
        self.g = G.TPSFFluxGuesser(rng=rng, T=0.5)

    def __call__(self, obs):
        return self.g(obs=obs)


def register():
    F = ngmix.fitting
    for m in ('gauss', 'exp'):
        reg('fit-%s' % m, lambda rng, m=m: F.Fitter(model=m, fit_pars=FP), gofit, 'ABCL', lambda k: dict(guess=guess6(k)))
    reg('fit-gauss-mb', lambda rng: F.Fitter(model='gauss', fit_pars=FP), gofit, ['A', 'M', 'C'],
        lambda k: dict(guess=guess6(k)))
    reg('fit-dev-prior', lambda rng: F.Fitter(model='dev', prior=mkprior(rng), fit_pars=FP), gofit, 'ABCL',
        lambda k: dict(guess=guess6(k)))
    reg('fit-bdf', lambda rng: F.Fitter(model='bdf', prior=mkprior(rng, 1, 'bdf'), fit_pars=FP), gofit, 'ABC',
        lambda k: dict(guess=np.array([0.01, -0.01, 0.02, 0.01, 0.6, 0.5, 2.5])))
    reg('fit-bd', lambda rng: F.Fitter(model='bd', prior=mkprior(rng, 1, 'bd'), fit_pars=FP), gofit, 'ABC',
        lambda k: dict(guess=np.array([0.01, -0.01, 0.02, 0.01, 0.6, 0.1, 0.5, 2.5])))
    reg('fit-coellip', lambda rng: F.CoellipFitter(ngauss=2, fit_pars=FP), gofit, 'ABC',
        lambda k: dict(guess=np.array([0.01, -0.01, 0.02, 0.01, 0.4, 0.8, 1.0, 1.5])))
    reg('psfflux', lambda rng: F.PSFFluxFitter(), lambda o, obs: o.go(obs=obs), 'ABCL')
    reg('tflux', lambda rng: F.PSFFluxFitter(do_psf=False, normalize_psf=False), lambda o, obs: o.go(obs=with_gmix(obs)), 'AB')
    reg('galsim-exp', lambda rng: F.GalsimFitter(model='exp', fit_pars=FP), gofit, 'ABCL',
        lambda k: dict(guess=guess6(k)), family='g')
    reg('galsim-kobs', lambda rng: F.GalsimFitter(model='gauss', prior=mkprior(rng), fit_pars=FP), gofit,
        ['KA', 'KB', 'KL'], lambda k: dict(guess=guess6(k)), family='g')
    reg('galsim-mb', lambda rng: F.GalsimFitter(model='gauss', fit_pars=FP), gofit, ['A', 'M'],
        lambda k: dict(guess=guess6(k)), family='g')
    reg('galsim-spergel', lambda rng: F.GalsimSpergelFitter(prior=mkprior(rng, 1, 'spergel'), fit_pars=FP), gofit,
        'AB', lambda k: dict(guess=np.array([0.01, -0.01, 0.02, 0.01, 0.5, 0.6, 2.5])), family='g')
    reg('galsim-moffat', lambda rng: F.GalsimMoffatFitter(fit_pars=FP), gofit, 'AB',
        lambda k: dict(guess=np.array([0.01, -0.01, 0.02, 0.01, 0.5, 2.6, 2.5])), family='g')
    reg('galsim-psfflux', lambda rng: F.GalsimPSFFluxFitter(), lambda o, obs: o.go(obs=obs), 'ABCL', family='g')

    def emguess(k):
        return dict(guess=ngmix.GMix(pars=[1.0, 0.02, 0.01, 0.2, 0.01, 0.25, 1.5, -0.02, 0.03, 0.4, 0.0, 0.35]))
    for nm, cls in (('em', 'EMFitter'), ('em-fixcen', 'EMFitterFixCen'), ('em-fixcov', 'EMFitterFixCov'), ('em-fluxonly', 'EMFitterFluxOnly')):
        reg(nm, lambda rng, cls=cls: getattr(ngmix.em.em, cls)(miniter=10, maxiter=60, tol=1e-3), gofit, 'ABC', emguess)
    reg('em-sky', lambda rng: ngmix.em.EMFitter(miniter=10, maxiter=60, tol=1e-3, vary_sky=True), gofit, 'AB', emguess)
    reg('run_em', lambda rng: None, lambda o, obs, guess: ngmix.em.run_em(obs=obs, guess=guess, maxiter=50), 'AB', emguess)

    def amguess(k):
        return dict(guess=ngmix.GMixModel([0.02, 0.01, 0.03, 0.01, 0.6, 1.0], 'gauss'))
    reg('admom', lambda rng: ngmix.admom.AdmomFitter(), gofit, 'ABCN', amguess)
    reg('admom-T', lambda rng: ngmix.admom.AdmomFitter(rng=rng), lambda o, obs: o.go(obs=obs, guess=0.6), 'ABC')
    reg('run_admom', lambda rng: rng, lambda o, obs, guess: ngmix.admom.run_admom(obs=obs, guess=guess), 'AB', amguess)
    reg('find_cen', lambda rng: rng, lambda o, obs, guess: ngmix.admom.find_cen_admom(
        obs=obs, gmix=guess, ntry=3, rng=o), 'ABC', amguess)
    reg('gaussmom', lambda rng: ngmix.gaussmom.GaussMom(fwhm=1.2), lambda o, obs: o.go(obs=obs), 'ABCN')
    reg('pgauss', lambda rng: ngmix.prepsfmom.PGaussMom(fwhm=2.0), lambda o, obs: o.go(obs=obs), 'ABC')
    reg('ksigma', lambda rng: ngmix.prepsfmom.KSigmaMom(fwhm=2.0), lambda o, obs: o.go(obs=obs), 'ABC')
    reg('wmom', lambda rng: ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, 0.6, 1.0], 'gauss'),
        lambda o, obs: o.get_weighted_moments(obs=obs, maxrad=2.0), 'ABC')

    # guessers
    def gmk(cls, **kw):
        def f(rng):
            k = dict(kw)
            if k.get('prior'):
                k['prior'] = mkprior(rng, 1, k['prior'])
            if cls not in ('BDFPSFFluxGuesser', 'BDFGuesser', 'BDGuesser', 'PriorGuesser'):
                k['rng'] = rng
            return getattr(G, cls)(**k)
        return f

    def gcall(o, obs):
        return [o(obs=obs), o(obs=obs, nrand=3)]
    reg('g-tflux', gmk('TFluxGuesser', T=0.5, flux=2.0, prior='simple'), gcall, 'AB')
    reg('g-tpsfflux', gmk('TPSFFluxGuesser', T=0.5), gcall, 'ABL')
    reg('g-tpsffluxprior', gmk('TPSFFluxAndPriorGuesser', T=0.5, prior='simple'), lambda o, obs: o(obs=obs, nrand=3), 'ABL')
    reg('g-tfluxprior', gmk('TFluxAndPriorGuesser', T=0.5, flux=2.0, prior='simple'), lambda o, obs: o(obs=obs, nrand=3), 'AB')
    reg('g-bdfpsfflux', gmk('BDFPSFFluxGuesser', T=0.5, prior='bdf'), lambda o, obs: o(obs=obs, nrand=2), 'ABL')
    reg('g-bdf', gmk('BDFGuesser', T=0.5, flux=2.0, prior='bdf'), lambda o, obs: o(obs=obs, nrand=2), 'AB')
    reg('g-bd', gmk('BDGuesser', T=0.5, flux=2.0, prior='bd'), lambda o, obs: o(obs=obs, nrand=2), 'AB')
    reg('g-pars', gmk('ParsGuesser', pars=np.array([0.1, 0.1, 0.1, -0.1, 0.5, 2.0])), gcall, 'AB')
    reg('g-r50', gmk('R50FluxGuesser', r50=0.5, flux=2.0), gcall, 'AB')
    reg('g-r50nu', gmk('R50NuFluxGuesser', r50=0.5, nu=0.6, flux=2.0), gcall, 'AB')
    reg('g-prior', gmk('PriorGuesser', prior='simple'), gcall, 'AB')
    for n in (1, 2, 3):
        for fm in (False, True):
            reg('g-gmixpsf%d%d' % (n, fm), gmk('GMixPSFGuesser', ngauss=n, guess_from_moms=fm), lambda o, obs: o(obs=obs), 'AB')
    reg('g-simplepsf', gmk('SimplePSFGuesser', guess_from_moms=True), lambda o, obs: o(obs=obs), 'AB')
    reg('g-coellippsf', gmk('CoellipPSFGuesser', ngauss=3), lambda o, obs: o(obs=obs), 'AB')

    # runners
    def runner(rng):
        p = mkprior(rng)
        return ngmix.runners.Runner(
            fitter=F.Fitter(model='gauss', prior=p, fit_pars=FP),
            guesser=G.TPSFFluxAndPriorGuesser(rng=rng, T=0.5, prior=p), ntry=2)

    def runner2(rng):
        return ngmix.runners.Runner(fitter=F.Fitter(model='gauss', fit_pars=FP), guesser=G3(rng), ntry=2)
    reg('runner', runner2, lambda o, obs: o.go(obs=obs), 'ABL')

    def booter(rng):
        return ngmix.bootstrap.Bootstrapper(
            runner=runner2(rng),
            psf_runner=ngmix.runners.PSFRunner(
                fitter=F.CoellipFitter(ngauss=1), guesser=G.CoellipPSFGuesser(rng=rng, ngauss=1), ntry=2))
    reg('boot', booter, lambda o, obs: o.go(obs=obs), 'ABL', effects=True)

    # simulation
    def sim(o, obs, gm):
        return ngmix.simobs.simulate_obs(gmix=gm, obs=obs, rng=o)
    reg('sim', lambda rng: rng, sim, 'ABL',
        lambda k: dict(gm=ngmix.GMixModel([0.1, 0.2, 0.1, 0.0, 0.8, 2.0], 'exp')))
    reg('make_kobs', lambda rng: None, lambda o, obs: make_kobs(obs), 'ABLM', family='g')
    reg('metacal', lambda rng: rng, lambda o, obs: ngmix.metacal.get_all_metacal(
        obs, rng=o, types=['noshear', '1p', '2m']), 'AB')
    reg('metacal-noise', lambda rng: rng, lambda o, obs: ngmix.metacal.get_all_metacal(
        obs, rng=o, types=['noshear', '1p'], use_noise_image=True, psf='fitgauss'), 'AB')

    def apf(o, obs, pars, mask):
        return ngmix.gaussap.get_gaussap_flux(pars, 'exp', 1.5, mask=mask, verbose=False)
    reg('gaussap', lambda rng: None, apf, 'AB', lambda k: dict(
        pars=np.array([[0.1, 0.1, 0.1, 0.0, 0.5, 1.0], [0.0, 0.0, 0.0, 0.2, 0.9, 3.0 if k == 'A' else 2.0]]),
        mask=np.array([True, k == 'A'])))


def with_gmix(obs):
    o = obs.copy()
    o.set_gmix(ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, 0.5, 2.0], 'gauss'))
    return o


def priors_of(o, depth=0):
    out = []
    for nm in ('prior', 'fitter', 'guesser', 'runner', 'psf_runner', 'g'):
        x = getattr(o, nm, None)
        if x is None or depth > 3:
            continue
        if nm == 'prior':
            out.append(x)
        else:
            out += priors_of(x, depth + 1)
    return out


def prior_probe(ps):
    out = []
    for p in ps:
        for s in (0.4, 0.5):
            n = 6
            for n in (6, 7, 8):
                v = np.array([0.01, 0.02, 0.1, -0.05, s, 0.3, 0.45, 2.0])[:n]
                try:
                    out.append(float(p.get_lnprob_scalar(v)))
                    break
                except (IndexError, ValueError):
                    out.append('size')
                except ngmix.GMixRangeError:
                    out.append('range')
                    break
        b = getattr(p, 'bounds', None)
        out.append(repr(b))
    return out


def fresh(name, k, mult=1.0):
    """reference: fresh object, fresh inputs"""
    e = REG[name]
    rng = np.random.RandomState(3)
    o = e.make(rng)
    inp = Inputs(mult)
    args = e.args(k)
    obs = inp.get(k)
    rng.seed(11)
    return call(e, o, obs, args)


def call(e, o, obs, args):
    try:
        res = e.run(o, obs, **args)
    except Exception as err:
        return None, ('raised', type(err).__name__)
    return res, reduce(res)


def eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None if a == b else '%r and %r' % (a if isinstance(a, tuple) else 'result',
                                                  b if isinstance(b, tuple) else 'result')
    return same(a, b)


REF = {}


def reference(name, k, mult=1.0):
    key = (name, k, mult)
    if key not in REF:
        REF[key] = fresh(name, k, mult)[1]
    return REF[key]


# ---------------------------------------------------------------------------

def gstate():
    s = np.random.get_state()
    return s[0], s[1].copy(), s[2], s[3], s[4]


def sameg(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and a[2:] == b[2:]


def k_pure(case, rec):
    name, k = case['entry'], case['input']
    e = REG[name]
    ref = None
    for gseed in (1, 98765):
        rng = np.random.RandomState(3)
        o = e.make(rng)
        inp = Inputs()
        obs = inp.get(k)
        args = e.args(k)
        ps = priors_of(o)
        before = snap(dict(obs=obs, args=args))
        pb = prior_probe(ps)
        firsts = []
        for rep in range(2):
            rng.seed(11)
            np.random.seed(gseed + rep)
            g0 = gstate()
            res, red = call(e, o, obs, args)
            g1 = gstate()
            rec.trans()
            if not sameg(g0, g1):
                rec.fail('global-rng:%s' % name, '%s on %s advances the global generator' % (name, k))
            firsts.append(red)
            after = snap(dict(obs=obs, args=args))
            if e.effects:
                from mc.props.c12 import strip
                before2, after = strip(before), strip(after)
            else:
                before2 = before
            d = D.diff(after, before2)
            if d:
                rec.fail('input-modified:%s' % name, '%s on %s modified its input %s' % (name, k, d))
                return
            if prior_probe(ps) != pb:
                rec.fail('prior-modified:%s' % name, '%s on %s changed the prior' % (name, k))
            if ref is None:
                ref = red
                rec.state(fp(name, k, repr(red)[:4000]))
                rec.outcome('%s:%s' % (name, red[1] if isinstance(red, tuple) else
                                       (red.get('flags') if isinstance(red, dict) else 'value')))
            else:
                d = eq(red, ref)
                if d:
                    rec.fail('not-reproducible:%s' % name, '%s on %s call %d, global seed %d: %s' % (
                        name, k, rep, gseed, d))
                    return
    rec.trace()


def k_history(case, rec):
    name, hist = case['entry'], case['hist']
    e = REG[name]
    rng = np.random.RandomState(3)
    o = e.make(rng)
    inp = Inputs()
    argc = {}
    done = []
    for i, k in enumerate(hist):
        if k == 'm':
            inp.scale(4.0 if inp.mult == 1.0 else 0.25)
            done = [d for d in done if d[3] not in ('A', 'L', 'M')]
            continue
        if case['new']:
            # new observation every time, the old one is gone
            m = inp.mult
            inp = Inputs(m)
            argc = {}
            done = []
        obs = inp.get(k)
        args = argc.setdefault(k, e.args(k))
        rng.seed(11)
        res, red = call(e, o, obs, args)
        rec.trans()
        ref = reference(name, k, inp.mult if k in ('A', 'L', 'M') else 1.0)
        d = eq(red, ref)
        if d:
            rec.fail('history:%s' % name, '%s after %s on %s: %s' % (name, hist[:i], k, d))
            return
        for j, r0, red0, k0 in done:
            d = eq(reduce(r0), red0)
            if d:
                rec.fail('earlier-result:%s' % name, 'result %d (%s) of %s changed by %s: %s' % (j, k0, name, k, d))
                return
        if res is not None:
            done.append((i, res, red, k))
        rec.state(fp(name, hist[:i + 1], case['new']))
    rec.trace()


def k_cross(case, rec):
    (n1, k1), (n2, k2) = case['first'], case['second']
    e1, e2 = REG[n1], REG[n2]
    inp = Inputs()
    o1, o2 = inp.get(k1), inp.get(k2)
    r1, r2 = np.random.RandomState(3), np.random.RandomState(3)
    ob1, ob2 = e1.make(r1), e2.make(r2)
    r1.seed(11)
    res1, red1 = call(e1, ob1, o1, e1.args(k1))
    r2.seed(11)
    res2, red2 = call(e2, ob2, o2, e2.args(k2))
    rec.trans(2)
    rec.trace()
    rec.state(fp(n1, k1, n2, k2))
    d = eq(red2, reference(n2, k2))
    if d:
        rec.fail('cross:%s' % n2, '%s on %s differs after %s on %s: %s' % (n2, k2, n1, k1, d))
        return
    if res1 is not None:
        d = eq(reduce(res1), red1)
        if d:
            rec.fail('cross-earlier:%s' % n1, 'result of %s on %s changed by %s on %s: %s' % (n1, k1, n2, k2, d))


KINDS = dict(pure=k_pure, history=k_history, cross=k_cross)
register()


def warmup():
    for n, e in REG.items():
        for k in e.inputs[:1]:
            fresh(n, k)


SLOW = {'metacal', 'metacal-noise', 'galsim-spergel', 'galsim-moffat', 'galsim-mb', 'galsim-kobs', 'boot', 'galsim-exp'}


def cases(tier):
    thorough = tier == 'thorough'
    for n, e in REG.items():
        for k in e.inputs:
            yield 'pure', dict(entry=n, input=k)
    for n, e in REG.items():
        depth = (3 if n in SLOW else 4) if thorough else (2 if n in SLOW else 3)
        al = list(e.inputs)
        if 'A' in al and n != 'gaussap':
            al.append('m')
        for d in range(1, depth + 1):
            for h in itertools.product(al, repeat=d):
                if h[-1] == 'm':
                    continue
                yield 'history', dict(entry=n, hist=list(h), new=False)
                if d == 2 or d == 3 and thorough and n.startswith('g-'):
                    yield 'history', dict(entry=n, hist=list(h), new=True)
    names = [n for n in REG if n != 'gaussap']
    for a in names:
        if REG[a].effects:
            continue
        for b in names:
            if REG[b].effects:
                continue
            ins = []
            for k1 in REG[a].inputs:
                for k2 in REG[b].inputs:
                    if k1 not in 'ALM' and k1 not in ('KA',) or k2 not in 'ALM' and k2 not in ('KA',):
                        continue
                    full = thorough or a == b or (REG[a].family and REG[a].family == REG[b].family)
                    if full or (k1 == 'A' and k2 == 'A' and not (a.startswith('g-') and b.startswith('g-'))
                                and not (a in SLOW and b in SLOW)):
                        ins.append((k1, k2))
            for k1, k2 in ins:
                yield 'cross', dict(first=[a, k1], second=[b, k2])
