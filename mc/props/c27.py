"""
C27  compiled code stays inside its arrays

This check runs with NUMBA_BOUNDSCHECK=1 (set by ./check): compiled functions
raise IndexError where they would read or write outside an array.
"""
import itertools
import os
import numpy as np
import ngmix
from ngmix import Observation, ObsList
from mc.core import fp
from mc import data as D
from mc.props import c14
from mc.props.c09 import JACS, jacobian
from mc.props.c14 import REG, Inputs

LEVEL = 'model_checking'
RULE = (
    'All compiled functions are built with bounds checking on and reached through the public '
    'interface: all array lengths up to a bound for everything that takes an array, all image '
    'shapes up to a bound (with psf, padding, apodization, aperture, centre and mask '
    'combinations), all mixtures of a grid with extreme and non-finite values, and every '
    'measurement of the registry of C14 on all its inputs.  An access out of bounds is a '
    'violation, any other exception is an answer.'
)
ASSUMPTIONS = ['private functions are reached through the public interface only']
CHUNK = 2
CASE_TIMEOUT = 600


class OOB(Exception):
    pass


def is_oob(err):
    """an out of bounds access of compiled code, not of numpy or a list"""
    while err is not None:
        if isinstance(err, IndexError) and str(err) == 'index is out of bounds':
            return True
        err = err.__cause__ or err.__context__
    return False


def attempt(f, rec, sig, msg, *st):
    rec.trans()
    rec.eval()
    rec.state(fp(sig, msg, *st))
    try:
        f()
    except Exception as err:
        if is_oob(err):
            rec.fail(sig, '%s: access out of bounds' % msg)
            return 'oob'
        rec.outcome('%s:%s' % (sig, type(err).__name__))
        return type(err).__name__
    rec.outcome('%s:ok' % sig)
    return 'ok'


# ---------------------------------------------------------------------------

MODELS = ['gauss', 'exp', 'dev', 'turb', 'bd', 'bdf', 'full', 'coellip', 'cm']
NPARS = dict(gauss=6, exp=6, dev=6, turb=6, cm=6, bd=8, bdf=7, full=6, coellip=6)


def mkgm(model, pars):
    if model == 'full':
        return ngmix.GMix(pars=pars)
    if model == 'coellip':
        return ngmix.gmix.GMixCoellip(pars)
    if model == 'cm':
        return ngmix.gmix.GMixCM(0.4, 1.2, pars)
    return ngmix.GMixModel(pars, model)


def base(model, n):
    p = [0.01, -0.02, 0.05, 0.02, 0.6, 0.5, 0.4, 0.8, 0.3, 1.2, 0.2, 0.5, 0.1]
    if model == 'full':
        p = [1.0, 0.1, 0.1, 0.6, 0.01, 0.5] * 4
    return np.array((p + [0.5] * 30)[:n])


def k_lengths(case, rec):
    what = case['what']
    if what == 'gmix':
        m = case['model']
        for n in range(0, 16):
            for typ in (list, np.array, lambda x: np.array(x)[::-1][::-1]):
                p = base(m, n)
                attempt(lambda: mkgm(m, typ(list(p))).make_image((3, 4)), rec, 'pars:%s' % m, '%s made of %d parameters' % (m, n))
            for n0 in (6, 7, 8, 12):
                def f():
                    g = mkgm(m, base(m, n0))
                    g.fill(base(m, n))
                    g.get_e1e2T()
                    g.make_image((2, 3))
                try:
                    mkgm(m, base(m, n0))
                except Exception:
                    continue
                attempt(f, rec, 'fill:%s' % m, '%s of %d filled with %d parameters' % (m, n0, n))
    elif what == 'emptygm':
        for ng in (0, 1, 2, 3):
            for ng2 in (0, 1, 2):
                try:
                    a, b = ngmix.GMix(ngauss=ng), ngmix.GMix(ngauss=ng2)
                except ValueError:
                    rec.outcome('empty:refused')
                    continue
                obs1 = Observation(np.ones((2, 3)))
                for fn in ('get_loglike', 'get_model_s2n', 'get_weighted_moments', 'get_weighted_sums'):
                    attempt(lambda: getattr(a, fn)(obs1), rec, 'empty', 'mixture of %d empty gaussians: %s' % (ng, fn))
                attempt(lambda: a.fill_fdiff(obs1, np.zeros(6)), rec, 'empty', 'mixture of %d empty gaussians: fill_fdiff' % ng)
                for fn in ('get_cen', 'get_T', 'get_flux', 'get_e1e2T', 'get_g1g2T', 'get_e1e2sigma', 'copy', 'set_norms', 'get_full_pars', 'make_round', 'make_galsim_object'):
                    attempt(lambda: getattr(a, fn)(), rec, 'empty', 'mixture of %d empty gaussians: %s' % (ng, fn))
                for fn, args in (('set_cen', (1, 2)), ('set_flux', (2.0,)), ('get_sheared', (0.1, 0.0)), ('convolve', (b,)), ('make_image', ((3, 3),))):
                    attempt(lambda: getattr(a, fn)(*args), rec, 'empty', 'mixture of %d empty gaussians: %s, %d' % (ng, fn, ng2))
    elif what == 'fdiff':
        for shape in ((1, 1), (2, 3), (3, 2)):
            for z in (0, 1):
                wt = np.ones(shape)
                if z and wt.size > 1:
                    wt[0, 0] = 0
                for ig in (True, False):
                    obs = Observation(np.ones(shape), weight=wt, ignore_zero_weight=ig)
                    gm = mkgm('exp', base('exp', 6))
                    for size in range(0, 3 * wt.size):
                        for start in range(-3, 2 * wt.size + 2):
                            fd = np.zeros(size)
                            attempt(lambda: gm.fill_fdiff(obs, fd, start=start), rec, 'fdiff',
                                    'fdiff of %s pixels (%d zero, ignored %s) into %d from %d' % (shape, z, ig, size, start))
    elif what == 'nd':
        for nd in (1, 2, 3):
            for ng in (1, 2, 3):
                means = np.arange(ng * nd, dtype=float).reshape(ng, nd)
                covs = np.array([np.eye(nd)] * ng)
                g = ngmix.gmix_ndim.GMixND(weights=np.ones(ng), means=means, covars=covs)
                for n in range(0, 5):
                    for fn in ('get_lnprob_scalar', 'get_prob_scalar', 'get_lnprob_array', 'get_prob_array'):
                        x = np.zeros(n) if 'scalar' in fn else np.zeros((2, n))
                        attempt(lambda: getattr(g, fn)(x), rec, 'nd', 'GMixND of %d dimensions: %s of %d' % (nd, fn, n))
                        if 'array' in fn:
                            attempt(lambda: getattr(g, fn)(np.zeros(n)), rec, 'nd', 'GMixND of %d dimensions: %s of 1-d %d' % (nd, fn, n))
                    for comp in range(-1, ng + 2):
                        attempt(lambda: g.get_prob_scalar_component(np.zeros(n), comp) if hasattr(g, 'get_prob_scalar_component')
                                else g.get_prob_scalar(np.zeros(n), component=comp), rec, 'nd', 'GMixND %d, component %d of %d' % (nd, comp, ng))
                        attempt(lambda: g.get_lnprob_scalar(np.zeros(n), component=comp), rec, 'nd', 'GMixND %d, component %d of %d, %d' % (nd, comp, ng, n))
    elif what == 'guess':
        obs = Inputs().get('A')
        for name, e in REG.items():
            if not name.startswith(('fit', 'galsim', 'em', 'admom', 'run_')):
                continue
            for k in [x for x in e.inputs if x in ('A', 'L', 'M', 'KA')]:
                o = e.make(np.random.RandomState(3))
                inp = Inputs().get(k)
                for n in range(0, 11):
                    g = base('x', n)
                    if name.startswith(('em', 'run_em')):
                        if n > 4 or n == 0:
                            continue
                        g = ngmix.GMix(pars=base('full', 6 * n))
                    if name in ('admom', 'run_admom'):
                        if n > 4:
                            continue
                        g = ngmix.GMix(pars=base('full', 6 * n)) if n else None
                    if name == 'admom-T':
                        continue
                    attempt(lambda: e.run(o, inp, guess=g), rec, 'guess:%s' % name, '%s on %s with a guess of %d' % (name, k, n))
    elif what == 'prior':
        for kind in ('simple', 'bdf', 'bd', 'spergel', 'coellip'):
            for nb in (1, 2):
                rng = np.random.RandomState(2)
                if kind == 'coellip' and nb > 1:
                    continue
                p = c14.mkprior(rng, nb, kind)
                for n in range(0, 11):
                    for fn in ('get_lnprob_scalar', 'get_prob_scalar', 'get_lnprob_array', 'fill_fdiff'):
                        def f():
                            if fn == 'fill_fdiff':
                                p.fill_fdiff(base('x', n), np.zeros(20))
                            else:
                                getattr(p, fn)(base('x', n) if 'scalar' in fn else np.array([base('x', n)] * 2))
                        attempt(f, rec, 'prior:%s' % kind, '%s prior %s of %d' % (kind, fn, n))
    elif what == 'gap':
        for model in ('gauss', 'exp', 'dev', 'turb', 'cm', 'bd', 'bdf', 'coellip'):
            for n in range(0, 12):
                for nobj in (0, 1, 2):
                    for nm in (None, 1, 2, 3):
                        kw = {}
                        if nm is not None:
                            kw['mask'] = np.ones(nm, dtype=bool)
                        if model == 'cm':
                            kw.update(fracdev=np.full(nobj, 0.3), TdByTe=np.full(nobj, 1.0))
                        p = np.array([base(model, n)] * nobj).reshape(nobj, n)
                        attempt(lambda: ngmix.gaussap.get_gaussap_flux(p, model, 1.5, verbose=False, **kw), rec,
                                'gaussap:%s' % model, 'aperture flux of %d x %d parameters, mask %s' % (nobj, n, nm))
    rec.trace()


def k_shapes(case, rec):
    """everything on images of every small shape"""
    nr, nc = case['shape']
    j = case['jac']
    gms = [mkgm('gauss', base('gauss', 6)), mkgm('dev', base('dev', 6)), mkgm('full', base('full', 18))]
    for cen in ([0.0, 0.0], [(nr - 1) / 2, (nc - 1) / 2], [-50.0, 3.0], [1e6, -1e6]):
        jac = jacobian(j, cen[0], cen[1])
        for wk in ('ones', 'zeros', 'half'):
            wt = np.ones((nr, nc))
            if wk == 'zeros':
                wt[:] = 0
            elif wk == 'half':
                wt.ravel()[::2] = 0
            im = 1.0 + D.noise((nr, nc), 3)
            for ig in (True, False):
                w = '%dx%d %s centre %s weights %s ignore %s' % (nr, nc, j, cen, wk, ig)
                try:
                    obs = Observation(im, weight=wt, jacobian=jac, ignore_zero_weight=ig)
                except Exception as err:
                    if is_oob(err):
                        rec.fail('pixels', '%s: access out of bounds' % w)
                    continue
                for ig_, gm in enumerate(gms):
                    for fe in (False, True):
                        attempt(lambda: gm.make_image((nr, nc), jacobian=jac, fast_exp=fe), rec, 'render', w, ig_, fe)
                    attempt(lambda: gm.get_loglike(obs), rec, 'loglike', w, ig_)
                    attempt(lambda: gm.get_loglike(obs, more=True), rec, 'loglike-more', w, ig_)
                    attempt(lambda: gm.get_model_s2n(obs), rec, 's2n', w, ig_)
                    attempt(lambda: gm.fill_fdiff(obs, np.zeros(nr * nc)), rec, 'fdiff', w, ig_)
                    for ho in (False, True):
                        for mr in (None, 0.0, 1.0, -1.0, 1e10, np.nan):
                            attempt(lambda: gm.get_weighted_moments(obs, maxrad=mr, with_higher_order=ho), rec, 'wmom', w, ig_, ho, str(mr))
                if not case['fits']:
                    continue
                for cls in ('EMFitter', 'EMFitterFixCen', 'EMFitterFixCov', 'EMFitterFluxOnly'):
                    for ng in (1, 3):
                        for psf in (0, 1, 3):
                            def f():
                                o = obs
                                if psf:
                                    o = obs.copy()
                                    o.set_psf(Observation(np.ones((3, 3)), gmix=ngmix.GMix(pars=base('full', 6 * psf))))
                                getattr(ngmix.em.em, cls)(miniter=2, maxiter=4, tol=1e-3).go(obs=o, guess=ngmix.GMix(pars=base('full', 6 * ng)))
                            attempt(f, rec, cls, w, ng, psf)
                attempt(lambda: ngmix.admom.AdmomFitter(maxiter=5).go(obs=obs, guess=gms[0]), rec, 'admom', w)
    rec.trace()


def k_prepsf(case, rec):
    from ngmix.prepsfmom import PGaussMom, KSigmaMom
    n = case['n']
    for npsf in case['npsf']:
        for cen in ([(n - 1) / 2, (n - 1) / 2], [0.0, 0.0], [-20.0, 500.0]):
            jac = jacobian(case['jac'], cen[0], cen[1])
            pj = jacobian(case['jac'], (npsf - 1) / 2, (npsf - 1) / 2)
            sc = jac.scale
            kw = dict(psf=Observation(np.outer(np.hanning(npsf + 2)[1:-1], np.hanning(npsf + 2)[1:-1]), jacobian=pj)) if npsf else {}
            obs = Observation(1.0 + D.noise((n, n), 3), weight=np.ones((n, n)), jacobian=jac, **kw)
            for kern, pad, ap, fw, sm in itertools.product((PGaussMom, KSigmaMom), (1, 1.5, 4), (0, 0.3, 1.5, 20.0), (0.5, 3.0, 50.0), (0.0, 1.0)):
                f = lambda: kern(fwhm=fw * sc, pad_factor=pad, ap_rad=ap, fwhm_smooth=sm * sc).go(obs, no_psf=not npsf)
                attempt(f, rec, 'prepsf', 'n %d npsf %d cen %s pad %s ap %s fwhm %s smooth %s %s' % (n, npsf, cen, pad, ap, fw, sm, kern.__name__))
    rec.trace()


VALS = [0.0, 1.0, -1.0, 1e-30, 1e30, -1e30, 1e308, np.nan, np.inf, -np.inf]


def k_values(case, rec):
    """mixtures, weights and pixels with extreme values in one or two places"""
    m = case['model']
    p0 = base(m, NPARS[m])
    jac = jacobian('sheared' if 'sheared' in JACS else 'unit', 1.3, 0.8)
    good = Observation(1.0 + D.noise((4, 3), 3), weight=np.ones((4, 3)), jacobian=jac)
    i = case['i']
    for j in range(i, len(p0)):
        for a, b in itertools.product(VALS, VALS if j != i else [None]):
            p = p0.copy()
            p[i] = a
            if b is not None:
                p[j] = b
            w = '%s %s' % (m, p.tolist())
            try:
                with np.errstate(all='ignore'):
                    gm = mkgm(m, p)
            except Exception as err:
                if is_oob(err):
                    rec.fail('make', w)
                continue
            with np.errstate(all='ignore'):
                for fe in (False, True):
                    attempt(lambda: gm.make_image((4, 3), jacobian=jac, fast_exp=fe), rec, 'render', w, fe)
                attempt(lambda: gm.get_loglike(good), rec, 'loglike', w)
                attempt(lambda: gm.fill_fdiff(good, np.zeros(12)), rec, 'fdiff', w)
                attempt(lambda: gm.get_model_s2n(good), rec, 's2n', w)
                attempt(lambda: gm.get_weighted_moments(good, maxrad=2.0, with_higher_order=True), rec, 'wmom', w)
                attempt(lambda: gm.get_gaussap_flux(fwhm=1.2), rec, 'gapflux', w)
                if len(gm) == 1:
                    attempt(lambda: ngmix.admom.AdmomFitter(maxiter=5).go(obs=good, guess=gm), rec, 'admom', w)
                for cls in ('EMFitter', 'EMFitterFixCen', 'EMFitterFixCov', 'EMFitterFluxOnly'):
                    attempt(lambda: getattr(ngmix.em.em, cls)(miniter=2, maxiter=4, tol=1e-3).go(obs=good, guess=gm), rec, cls, w)
    rec.trace()


def k_pixels(case, rec):
    """non-finite and extreme pixels, weights and jacobians"""
    p0 = base('exp', 6)
    gm = mkgm('exp', p0)
    g1 = mkgm('gauss', p0)
    for where in ('image', 'weight', 'jac'):
        for v in VALS:
            for at in range(6):
                im, wt = 1.0 + D.noise((2, 3), 3), np.ones((2, 3))
                pars = [0.5, 1.0, 1.0, 0.1, -0.1, 1.0]
                if where == 'image':
                    im.ravel()[at] = v
                elif where == 'weight':
                    wt.ravel()[at] = v
                else:
                    pars[at] = v
                w = '%s %d %s' % (where, at, v)
                for ig in (True, False):
                    def mk():
                        r, c, a, b, cc, d = pars
                        return Observation(im, weight=wt, ignore_zero_weight=ig, jacobian=ngmix.Jacobian(
                            row=r, col=c, dvdrow=a, dvdcol=b, dudrow=cc, dudcol=d))
                    with np.errstate(all='ignore'):
                        if attempt(mk, rec, 'pixels', w) != 'ok':
                            continue
                        obs = mk()
                        attempt(lambda: gm.make_image((2, 3), jacobian=obs.jacobian, fast_exp=True), rec, 'render', w)
                        attempt(lambda: gm.get_loglike(obs), rec, 'loglike', w)
                        attempt(lambda: gm.fill_fdiff(obs, np.zeros(6)), rec, 'fdiff', w)
                        attempt(lambda: gm.get_weighted_moments(obs, maxrad=2.0, with_higher_order=True), rec, 'wmom', w)
                        attempt(lambda: ngmix.admom.AdmomFitter(maxiter=5).go(obs=obs, guess=g1), rec, 'admom', w)
                        for cls in ('EMFitter', 'EMFitterFixCen', 'EMFitterFixCov', 'EMFitterFluxOnly'):
                            attempt(lambda: getattr(ngmix.em.em, cls)(miniter=2, maxiter=4, tol=1e-3).go(obs=obs, guess=gm.copy()), rec, cls, w)
    rec.trace()


def k_registry(case, rec):
    e = REG[case['entry']]
    for k in e.inputs:
        rng = np.random.RandomState(3)
        o = e.make(rng)
        obs, args = Inputs().get(k), e.args(k)
        for rep in range(2):
            attempt(lambda: e.run(o, obs, **args), rec, 'measure:%s' % case['entry'], '%s on %s' % (case['entry'], k), rep)
    rec.trace()


def k_monitor(case, rec):
    """the monitor works: an access that is out of bounds is seen"""
    from numba import njit

    @njit
    def f(x, i):
        return x[i]

    try:
        f(np.zeros(2), 50)
    except IndexError as err:
        assert is_oob(err), err
    else:
        raise RuntimeError('bounds checking is off, run through ./check')
    rec.trace()


KINDS = dict(monitor=k_monitor, lengths=k_lengths, shapes=k_shapes, prepsf=k_prepsf, values=k_values, pixels=k_pixels, registry=k_registry)


def warmup():
    for n, e in REG.items():
        c14.fresh(n, list(e.inputs)[0])


def cases(tier):
    th = tier == 'thorough'
    yield 'monitor', {}
    for m in MODELS:
        yield 'lengths', dict(what='gmix', model=m)
    for w in ('emptygm', 'fdiff', 'nd', 'guess', 'prior', 'gap'):
        yield 'lengths', dict(what=w)
    top = 6 if th else 4
    for nr in range(1, top):
        for nc in range(1, top):
            for j in JACS if th else ('unit', list(JACS)[-1]):
                yield 'shapes', dict(shape=[nr, nc], jac=j, fits=th or (nr + nc) % 2 == 0)
    for n in list(range(1, 14 if th else 9)):
        for j in JACS if th else ('unit', list(JACS)[-1]):
            yield 'prepsf', dict(n=n, npsf=[0, 1, 2, 5, 9] if not th else list(range(0, 12)), jac=j)
    for m in MODELS:
        for i in range(NPARS[m]):
            yield 'values', dict(model=m, i=i)
    yield 'pixels', {}
    for n in REG:
        yield 'registry', dict(entry=n)
