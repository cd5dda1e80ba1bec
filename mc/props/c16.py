"""
C16  guessers: well formed guesses the prior accepts
"""
import itertools
import numpy as np
import ngmix
from ngmix import guessers as GU
from ngmix import priors as PR
from ngmix import joint_prior as JP
from ngmix.defaults import LOWVAL
from ngmix.gexceptions import GMixRangeError, PSFFluxFailure
from ngmix.moments import fwhm_to_T
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'The random state given to a guesser (and to its prior) is a scripted environment: '
    'all words over {low, middle, high end of the range} for its first draws are '
    'enumerated, further draws are pseudo-random so that rejection loops end. For every '
    'guesser x bands x nrand x prior class x word the guess is executed and compared '
    'with the documented ranges, the support of the prior and the same script without '
    'prior. Psf-flux guessers: all good/bad band patterns x epochs and histories over '
    'two observations. Mixture guessers: pixel scale x image x number of gaussians x '
    'words over the ends of each draw.'
)
ASSUMPTIONS = [
    'the prior accepts its own samples (decided by C18)',
    'a band is bad when all its weights are zero',
    'the scatter of a guess around the request is the documented one, plus rounding',
]
CHUNK = 4
CASE_TIMEOUT = 300

FR = {'l': 0.0, 'm': 0.5, 'h': 1.0 - 1e-9}


class Script(np.random.RandomState):
    """the first draws are given by a word, one letter per draw or per call"""
    def __init__(self, word, per='draw', seed=1):
        super().__init__(seed)
        self.word, self.per, self.i = word, per, 0

    def _fr(self, n):
        out = np.empty(n)
        for k in range(n):
            j = self.i + (k if self.per == 'draw' else 0)
            out[k] = FR[self.word[j]] if j < len(self.word) else super().random_sample()
        self.i += n if self.per == 'draw' else 1
        return out

    def _n(self, size):
        return 1 if size is None else int(np.prod(size))

    def _ret(self, r, size):
        return float(r[0]) if size is None else r.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._ret(low + (high - low) * self._fr(self._n(size)), size)

    def random_sample(self, size=None):
        return self.uniform(size=size)

    def rand(self, *size):
        return self.uniform(size=size or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        f = self._fr(self._n(size))
        z = np.where(f == FR['l'], -5.0, np.where(f == FR['h'], 5.0, (f - 0.5) * 4))
        return self._ret(loc + scale * z, size)


# ---------------------------------------------------------------------------
# priors

def mkprior(model, nband, kind, word='', per='draw', seed=3):
    """
    kind 'wide' accepts all guesses around the request, 'tight' accepts part of them,
    'away' does not accept the requested size and fluxes
    """
    rng = Script(word, per, seed)
    cen = PR.CenPrior(0.0, 0.0, 0.3, 0.2, rng=rng)
    g = PR.GPriorBA(0.2, rng=rng)
    T0, F0 = REQ['T'], REQ['F']
    if kind == 'wide':
        T = PR.FlatPrior(-10.0, 1e4, rng=rng)
        F = [PR.FlatPrior(-1e5, 1e5, rng=rng) for b in range(nband)]
    elif kind == 'tight':
        T = PR.FlatPrior(T0 * 0.97, T0 * 1.4, rng=rng)
        F = [PR.FlatPrior(f * 0.5, f * 1.02, rng=rng) for f in F0[:nband]]
    elif kind == 'away':
        T = PR.FlatPrior(3 * T0, 4 * T0, rng=rng)
        F = [PR.FlatPrior(10.0 * f, 11.0 * f, rng=rng) for f in F0[:nband]]
    elif kind == 'erf':
        T = PR.TwoSidedErf(T0, 0.01 * T0, 2 * T0, 0.01 * T0, rng=rng)
        F = [PR.TwoSidedErf(0.5 * f, 0.01 * f, 1.02 * f, 1e-4 * f, rng=rng) for f in F0[:nband]]
    elif kind == 'soft':
        T = PR.LogNormal(T0, 0.5 * T0, rng=rng)
        F = [PR.Normal(f, 0.5 * f, rng=rng) for f in F0[:nband]]
    frac = PR.Normal(0.5, 0.1, rng=rng) if kind != 'away' else PR.FlatPrior(0.7, 0.9, rng=rng)
    if model == 'bdf':
        return JP.PriorBDFSep(cen, g, T, frac, F)
    if model == 'bd':
        return JP.PriorBDSep(cen, g, T, PR.FlatPrior(-1.5, -0.5, rng=rng), frac, F)
    if model == 'spergel':
        return JP.PriorSpergelSep(cen, g, T, PR.FlatPrior(-0.8, 3.4, rng=rng), F)
    return JP.PriorSimpleSep(cen, g, T, F)


REQ = dict(T=0.6, F=[3.0, 50.0, 7.0])
OFF = dict(simple=5, bdf=6, bd=7, spergel=6)


def accepted(prior, row):
    try:
        return prior.get_lnprob_scalar(row) > LOWVAL
    except GMixRangeError:
        return False


def within(x, cen, frac):
    w = np.abs(cen) * frac
    return np.all(np.abs(x - cen) <= w * (1 + 1e-9) + 1e-13)


def check_row(row, npars):
    if row.shape != (npars,):
        return 'has shape %s, expected (%d,)' % (row.shape, npars)
    if not np.all(np.isfinite(row)):
        return 'not finite: %s' % row
    if np.hypot(row[2], row[3]) >= 1:
        return 'shape out of range: %s' % row
    return None


def rows_of(guess, nrand, npars, scalar):
    guess = np.asarray(guess)
    if scalar:
        if guess.shape != (npars,):
            return None, 'guess of shape %s, expected (%d,)' % (guess.shape, npars)
        return guess[None, :], None
    if guess.shape != (nrand, npars):
        return None, 'guess of shape %s, expected (%d, %d)' % (guess.shape, nrand, npars)
    return guess, None


# ---------------------------------------------------------------------------
# guessers around a request

NARROW = ('TFlux', 'R50Flux', 'R50NuFlux')
FROMPRIOR = ('TFluxAndPrior', 'BDF', 'BD')


def build(name, nband, rng, prior, case):
    T, F = REQ['T'] * case.get('Tsign', 1), [f * case.get('Fsign', 1) for f in REQ['F'][:nband]]
    if nband == 1 and case.get('scalarF'):
        F = F[0]
    if name == 'TFlux':
        return GU.TFluxGuesser(rng=rng, T=T, flux=F, prior=prior)
    if name == 'R50Flux':
        return GU.R50FluxGuesser(rng=rng, r50=T, flux=F, prior=prior)
    if name == 'R50NuFlux':
        return GU.R50NuFluxGuesser(rng=rng, r50=T, nu=case.get('nu', 1.2), flux=F, prior=prior)
    if name == 'TFluxAndPrior':
        return GU.TFluxAndPriorGuesser(rng=rng, T=T, flux=F, prior=prior)
    if name == 'BDF':
        return GU.BDFGuesser(T=T, flux=F, prior=prior)
    if name == 'BD':
        return GU.BDGuesser(T=T, flux=F, prior=prior)
    raise ValueError(name)


MODEL = dict(TFlux='simple', R50Flux='simple', R50NuFlux='spergel', TFluxAndPrior='simple',
             BDF='bdf', BD='bd')


def check_request(name, row, case, nband):
    """the ranges documented for a guess the prior does not change"""
    model = MODEL[name]
    off = OFF[model]
    T, F = REQ['T'] * case.get('Tsign', 1), np.array(REQ['F'][:nband]) * case.get('Fsign', 1)
    if not within(row[4], T, 0.1):
        return 'size %s around %s' % (row[4], T)
    if not within(row[off:], F, 0.1):
        return 'fluxes %s around %s' % (row[off:], F)
    if name in NARROW:
        if np.abs(row[:2]).max() > 0.01 * (1 + 1e-9) or np.abs(row[2:4]).max() > 0.02 * (1 + 1e-9):
            return 'center and shape %s' % row[:4]
    if name == 'R50NuFlux':
        nu = min(max(case.get('nu', 1.2), -0.99), 3.5)
        if not within(row[5], nu, 0.1) or not -0.99 < row[5] < 3.5:
            return 'nu %s around %s' % (row[5], nu)
    if name == 'BDF' and not 0.4 <= row[5] <= 0.6:
        return 'fracdev %s' % row[5]
    if name == 'BD' and not 0.4 <= row[6] <= 0.6:
        return 'fracdev %s' % row[6]
    if name == 'BD' and not -1.5 <= row[5] <= -0.5:
        return 'logTratio %s is not from its prior' % row[5]
    return None


def k_request(case, rec):
    name, nband, nrand, kind = case['g'], case['nband'], case['nrand'], case['prior']
    model = MODEL[name]
    npars = OFF[model] + nband
    L = case['len']
    for word in itertools.product('lmh', repeat=L):
        word = case.get('prefix', '') + ''.join(word)
        if case['who'] == 'guesser':
            w1, w2 = word, ''
        else:
            w1, w2 = '', word
        prior = mkprior(model, nband, kind, w2, case['per']) if kind else None
        gs = build(name, nband, Script(w1, case['per']), prior, case)
        guess = gs(nrand=nrand)
        rec.trans()
        rec.trace()
        rec.state(fp(case, word))
        rows, err = rows_of(guess, nrand, npars, nrand == 1)
        if err:
            rec.fail('shape', '%s: %s' % (name, err))
            return
        ref = None
        if kind and name in NARROW:
            ref = np.atleast_2d(build(name, nband, Script(w1, case['per']), None, case)(nrand=nrand))
            rec.trans()
        changed = 0
        for i, row in enumerate(rows):
            rec.eval()
            err = check_row(row, npars)
            if err is None and prior is not None and not accepted(prior, row):
                err = 'guess not accepted by the prior: %s' % row
            if err is None and ref is not None:
                if accepted(prior, ref[i]):
                    if not np.array_equal(row, ref[i]):
                        err = 'the prior accepts %s but the guess is %s' % (ref[i], row)
                else:
                    changed += 1
            if err is None and ref is None and kind in (None, 'wide', 'soft'):
                err = check_request(name, row, case, nband)
            if err is None and ref is not None:
                err = check_request(name, ref[i], case, nband)
            if err is None and kind == 'away' and name == 'TFluxAndPrior':
                changed += 1
            if err:
                rec.fail('request', '%s %s word %s: %s' % (name, case, word, err))
                return
        rec.outcome('%s changed' % ('some' if changed else 'none'))
        # the generator of the guesser and that of the prior decide, nothing else
    rec.sample(dict(case=case, guess=np.asarray(guess).tolist()))


# ---------------------------------------------------------------------------

def k_pars(case, rec):
    """guesses around parameters, the shape sheared by the offsets"""
    pars = np.array(case['pars'], dtype=case.get('dtype', 'f8'))
    widths = case['widths']
    npars = pars.size
    nrand = case['nrand']
    kind = case['prior']
    if widths is None:
        w = np.full(npars, 0.1)
        w[:2] = 0.02
    else:
        w = np.array(widths)
    for word in itertools.product('lmh', repeat=case['len']):
        word = ''.join(word)
        prior = mkprior('simple', npars - 5, kind) if kind else None
        p0 = pars.copy()
        gs = GU.ParsGuesser(rng=Script(word, case['per']), pars=p0, prior=prior,
                            widths=None if widths is None else list(widths))
        guess = gs(nrand=nrand)
        rec.trans()
        rec.trace()
        rec.state(fp(case, word))
        n = 1 if nrand is None else nrand
        rows, err = rows_of(guess, n, npars, nrand is None)
        if err:
            rec.fail('shape', 'ParsGuesser %s: %s' % (case, err))
            return
        if not np.array_equal(p0, pars):
            rec.fail('pars-changed', str(case))
        ref = rows
        if prior is not None:
            ref = np.atleast_2d(GU.ParsGuesser(rng=Script(word, case['per']), pars=p0, widths=widths)(nrand=nrand))
        g = complex(pars[2], pars[3])
        if abs(g) > 0.8:
            g = g * 0.8 / abs(g)
        for row, r in zip(rows, ref):
            rec.eval()
            err = check_row(row, npars)
            if err is None and prior is not None:
                if not accepted(prior, row):
                    err = 'not accepted: %s' % row
                elif accepted(prior, r) and not np.array_equal(r, row):
                    err = 'the prior accepts %s but the guess is %s' % (r, row)
            if err is None:
                if np.any(np.abs(r[:2] - pars[:2]) > w[:2] * (1 + 1e-9) + 1e-13):
                    err = 'center %s' % r[:2]
                elif np.any(np.abs(r[4:] - pars[4:]) > np.abs(w[4:] * pars[4:]) * (1 + 1e-9)):
                    err = 'size and fluxes %s' % r[4:]
                # r = (s + g) / (1 + conj(s) g)  ->  s - conj(s) g r = r - g
                gr = complex(r[2], r[3])
                k, d = g * gr, gr - g
                s = (d + k * d.conjugate()) / (1 - abs(k) ** 2)
                if err is None and (abs(s.real) > w[2] * (1 + 1e-6) + 1e-9 or abs(s.imag) > w[3] * (1 + 1e-6) + 1e-9):
                    err = 'shape %s is %s sheared by %s' % (gr, g, s)
            if err:
                rec.fail('pars', '%s word %s: %s' % (case, word, err))
                return
    rec.outcome('pars %s' % kind)


def k_prior(case, rec):
    """guesses that are samples of the prior"""
    for word in itertools.product('lmh', repeat=case['len']):
        word = ''.join(word)
        a = mkprior(case['model'], case['nband'], case['prior'], word, case['per'])
        b = mkprior(case['model'], case['nband'], case['prior'], word, case['per'])
        g = GU.PriorGuesser(a)(nrand=case['nrand'])
        s = b.sample(case['nrand'])
        rec.trans()
        rec.trace()
        rec.state(fp(case, word))
        npars = OFF[case['model']] + case['nband']
        rows, err = rows_of(g, case['nrand'], npars, case['nrand'] is None)
        if err:
            rec.fail('shape', err)
            return
        for row in rows:
            rec.eval()
            err = check_row(row, npars)
            if err is None and not accepted(a, row):
                err = 'not accepted: %s' % row
            if err:
                rec.fail('prior-guess', '%s word %s: %s' % (case, word, err))
                return
        if not np.array_equal(np.asarray(g), np.asarray(s)):
            rec.fail('prior-guess', '%s: %s is not the sample %s' % (case, g, s))
            return
    rec.outcome('prior')


# ---------------------------------------------------------------------------
# psf fluxes

def mkobs(flux, bad, seed=0, dims=(9, 9), psf=True, off=0.0):
    jac = ngmix.DiagonalJacobian(row=4.0 + off, col=4.0, scale=0.3)
    gm = ngmix.GMixModel([0, 0, 0.1, 0.0, 0.5, 1.0], 'gauss')
    im = gm.make_image(dims, jacobian=jac) * flux + 1e-4 * flux * D.noise(dims, seed)
    wt = np.full(dims, 0.0 if bad else 25.0 + seed)
    ps = None
    if psf:
        ps = ngmix.Observation(gm.make_image(dims, jacobian=jac), jacobian=jac,
                               gmix=ngmix.GMixModel([0, 0, 0, 0, 0.3, 1.0], 'gauss'))
    return ngmix.Observation(im, weight=wt, jacobian=jac, psf=ps, ignore_zero_weight=not bad)


def mkmb(pattern, epochs, fac=1.0):
    """pattern: per band 'g' or 'b'; a band of two epochs is bad when both are"""
    mb = ngmix.MultiBandObsList()
    for b, k in enumerate(pattern):
        ol = ngmix.ObsList()
        for e in range(epochs):
            ol.append(mkobs(REQ['F'][b] * fac * (1 + 0.1 * e), k == 'b', seed=7 * b + e, off=0.1 * e))
        mb.append(ol)
    return mb


def psf_flux_ref(mb):
    """linear least squares with the psf model at unit flux"""
    out = []
    for ol in mb:
        num = den = 0.0
        for obs in ol:
            m = obs.psf.gmix.copy()
            m.set_flux(1.0)
            im = m.make_image(obs.image.shape, jacobian=obs.jacobian, fast_exp=True)
            num += (obs.weight * im * obs.image).sum()
            den += (obs.weight * im * im).sum()
        out.append(num / den if den > 0 else None)
    return out


def build_psf(name, prior, rng):
    if name == 'TPSFFlux':
        return GU.TPSFFluxGuesser(rng=rng, T=REQ['T'], prior=prior)
    if name == 'TPSFFluxAndPrior':
        return GU.TPSFFluxAndPriorGuesser(rng=rng, T=REQ['T'], prior=prior)
    return GU.BDFPSFFluxGuesser(T=REQ['T'], prior=prior)


def k_psf(case, rec):
    name, kind = case['g'], case['prior']
    model = 'bdf' if name == 'BDFPSFFlux' else 'simple'
    off = OFF[model]
    objs = {}
    for key, (pattern, epochs, fac) in case['obs'].items():
        mb = mkmb(pattern, epochs, fac)
        form = case['form']
        objs[key] = (mb[0][0] if form == 'obs' else mb[0] if form == 'list' else mb, mb)
    for word in itertools.product('lmh', repeat=case['len']):
        word = ''.join(word)
        nb = max(len(v[1]) for v in objs.values())
        prior = mkprior(model, nb, kind, word if case['who'] == 'prior' else '', 'draw') if kind else None
        gs = build_psf(name, prior, Script(word if case['who'] == 'guesser' else ''))
        for key in case['history']:
            obs, mb = objs[key]
            if case['form'] != 'mb':
                mb = [mb[0]] if case['form'] == 'list' else [[mb[0][0]]]
            before = D.snap(obs)
            want = psf_flux_ref(mb)
            rec.trans()
            rec.trace()
            rec.eval()
            rec.state(fp(case, word, key))
            good = [w for w in want if w is not None]
            try:
                g = gs(obs=obs, nrand=case['nrand'])
            except PSFFluxFailure:
                if good:
                    rec.fail('psf-failure', '%s: bands %s are good' % (case, want))
                    return
                rec.outcome('no good band')
                continue
            d = D.diff(before, D.snap(obs))
            if d:
                rec.fail('psf-modifies', '%s: %s' % (case, d))
            if not good:
                rec.fail('psf-failure', '%s: no good band, guess %s' % (case, g))
                return
            npars = off + len(want)
            rows, err = rows_of(g, case['nrand'], npars, case['nrand'] == 1)
            if err:
                rec.fail('shape', '%s: %s' % (case, err))
                return
            for row in rows:
                err = check_row(row, npars)
                if err is None and prior is not None and not accepted(prior, row):
                    err = 'not accepted: %s' % row
                if err is None and kind in (None, 'wide'):
                    if not within(row[4], REQ['T'], 0.1):
                        err = 'T %s' % row[4]
                    for b, w in enumerate(want):
                        lo, hi = (0.9, 1.1) if w is not None else (0.81, 1.21)
                        c = w if w is not None else np.mean(good)
                        r = row[off + b] / c
                        if err is None and not lo - 1e-4 <= r <= hi + 1e-4:
                            err = 'flux of band %d is %s, expected about %s' % (b, row[off + b], c)
                if err:
                    rec.fail('psf-guess', '%s word %s obs %s: %s' % (case, word, key, err))
                    return
            rec.outcome('%d of %d bands good' % (len(good), len(want)))


# ---------------------------------------------------------------------------
# mixtures and psf parameters from the image

def psf_image(kind, dims, jac, scale, flux):
    T = fwhm_to_T(scale * {'small': 1.5, 'ref': 3.5, 'big': 6.0}.get(kind, 3.0))
    if kind == 'noise':
        return D.noise(dims, 5)
    if kind == 'neg':
        return -ngmix.GMixModel([0, 0, 0, 0, T, flux], 'gauss').make_image(dims, jacobian=jac)
    if kind == 'flat':
        return np.full(dims, flux / dims[0] / dims[1])
    g = [0.2, -0.1] if kind == 'ell' else [0, 0]
    return ngmix.GMixModel([0, 0] + g + [T, flux], 'gauss').make_image(dims, jacobian=jac, fast_exp=False)


def k_mix(case, rec):
    scale, ng, moms = case['scale'], case['ngauss'], case['moms']
    dims = (case['n'], case['n'])
    c = (case['n'] - 1) / 2
    if case['jac'] == 'diag':
        jac = ngmix.DiagonalJacobian(row=c, col=c, scale=scale)
    else:
        th = 0.4
        jac = ngmix.Jacobian(row=c, col=c, dvdrow=scale * np.cos(th), dvdcol=-scale * np.sin(th),
                             dudrow=scale * np.sin(th), dudcol=scale * np.cos(th))
    flux = case['flux']
    im = psf_image(case['im'], dims, jac, scale, flux)
    obs = ngmix.Observation(im, weight=np.full(dims, 2.0), jacobian=jac)
    before = D.snap(obs)
    Tdef = fwhm_to_T(3.5 * scale)
    # deweighting assumes a round gaussian
    smooth = case['im'] in ('small', 'ref', 'big')
    Ttrue = fwhm_to_T(scale * {'small': 1.5, 'ref': 3.5, 'big': 6.0}.get(case['im'], 3.0))
    if not moms:
        wantT, wantF = Tdef, im.sum()
    elif smooth:
        wantT, wantF = Ttrue, flux
    else:
        wantT = wantF = None
    ndraw = {'GMix': 6 * ng, 'Simple': 6, 'Coellip': 4 + 2 * ng}[case['g']]
    words = ['l' * ndraw, 'm' * ndraw, 'h' * ndraw]
    # one or two draws at an end, the others in the middle
    for i in range(ndraw):
        for e in 'lh':
            words.append('m' * i + e + 'm' * (ndraw - i - 1))
    # each gaussian: all words of its own draws
    if case['full']:
        per = 6 if case['g'] == 'GMix' else ndraw
        for k in range(0, ndraw, per):
            for w in itertools.product('lh', repeat=min(per, ndraw - k, 8)):
                w = ''.join(w)
                words.append('m' * k + w + 'm' * (ndraw - k - len(w)))
                words.append('h' * k + w + 'l' * (ndraw - k - len(w)))
    for word in words:
        rng = Script(word)
        if case['g'] == 'GMix':
            gs = GU.GMixPSFGuesser(rng=rng, ngauss=ng, guess_from_moms=moms)
        elif case['g'] == 'Simple':
            gs = GU.SimplePSFGuesser(rng=rng, guess_from_moms=moms)
        else:
            gs = GU.CoellipPSFGuesser(rng=rng, ngauss=ng, guess_from_moms=moms)
        guess = gs(obs=obs)
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case, word))
        what = '%s word %s' % (case, word)
        if case['g'] == 'GMix':
            if type(guess) is not ngmix.GMix or len(guess) != ng:
                rec.fail('mix-size', '%s: %s' % (what, guess))
                return
            gm = guess
        else:
            npars = 6 if case['g'] == 'Simple' else 4 + 2 * ng
            err = check_row(guess, npars)
            if err:
                rec.fail('mix-pars', '%s: %s' % (what, err))
                return
            if np.abs(guess[:2]).max() > 0.0101 or np.abs(guess[2:4]).max() > 0.0501:
                rec.fail('mix-pars', '%s: center, shape %s' % (what, guess[:4]))
                return
            try:
                gm = ngmix.GMixModel(guess, 'gauss') if case['g'] == 'Simple' else ngmix.gmix.GMixCoellip(guess)
            except GMixRangeError as err:
                rec.fail('mix-invalid', '%s: %s' % (what, err))
                return
            if len(gm) != (1 if case['g'] == 'Simple' else ng):
                rec.fail('mix-size', what)
                return
        full = gm.get_full_pars().reshape(-1, 6)
        det = full[:, 3] * full[:, 5] - full[:, 4] ** 2
        if not np.all(np.isfinite(full)) or det.min() <= 0 or (full[:, 3] + full[:, 5]).min() <= 0:
            rec.fail('mix-invalid', '%s: determinants %s of %s' % (what, det, full.tolist()))
            return
        try:
            val = gm.make_image(dims, jacobian=jac)
        except GMixRangeError as err:
            rec.fail('mix-invalid', '%s: %s' % (what, err))
            return
        if not np.all(np.isfinite(val)):
            rec.fail('mix-invalid', '%s: image not finite' % what)
            return
        if case['g'] == 'GMix' and np.abs(full[:, 1:3]).max() > 0.1001:
            rec.fail('mix-center', '%s: %s' % (what, full[:, 1:3].tolist()))
            return
        p = full[:, 0]
        if wantF is not None:
            F, T = p.sum(), (p * (full[:, 3] + full[:, 5])).sum() / p.sum()
            ftol = 0.102 if case['g'] != 'Coellip' or ng == 1 else 0.025
            if case['g'] == 'GMix' and ng == 5:
                ftol = 0.17   # the smaller gaussians are repeated
            if not abs(F / wantF - 1) < ftol + (0.04 if moms else 0):
                rec.fail('mix-flux', '%s: flux %s, expected about %s' % (what, F, wantF))
                return
            tol = 0.102 if (ng == 1 or case['g'] == 'Simple') else 0.30
            if not abs(T / wantT - 1) < tol + (0.06 if moms else 0):
                rec.fail('mix-T', '%s: size %s, expected about %s' % (what, T, wantT))
                return
    d = D.diff(before, D.snap(obs))
    if d:
        rec.fail('mix-modifies', '%s: %s' % (case, d))
    rec.outcome('%s %d' % (case['g'], ng))


# ---------------------------------------------------------------------------

def k_bad(case, rec):
    """requests outside of the domain are refused"""
    rec.trans()
    rec.eval()
    rec.state(fp(case))
    rng = np.random.RandomState(1)
    try:
        if case['what'] == 'r50':
            GU.R50FluxGuesser(rng=rng, r50=-0.1, flux=1.0)
        else:
            GU.GMixPSFGuesser(rng=rng, ngauss=case['n'])
    except (GMixRangeError, ValueError) as err:
        rec.outcome(type(err).__name__)
        return
    rec.fail('accepted', str(case))


KINDS = dict(request=k_request, pars=k_pars, prior=k_prior, psf=k_psf, mix=k_mix, bad=k_bad)


def cases(tier):
    th = tier == 'thorough'
    for name in NARROW + FROMPRIOR:
        kinds = ('wide', 'tight', 'away', 'soft', 'erf')
        if name in NARROW:
            kinds = (None,) + kinds
        for nband in (1, 2, 3):
            for nrand in (1, 2, 3):
                for kind in kinds:
                    L = 5 if nrand == 1 else 4
                    if th:
                        L += 2
                    elif nband == 3 or nrand == 3 or kind in ('soft', 'erf'):
                        L -= 1
                    for who in ('guesser', 'prior'):
                        if who == 'prior' and kind is None or who == 'guesser' and name in FROMPRIOR:
                            continue
                        for per in ('draw', 'call'):
                            if per == 'call' and nrand == 1:
                                continue
                            c = dict(g=name, nband=nband, nrand=nrand, prior=kind, who=who, per=per,
                                     len=L if who == 'guesser' else L - 1)
                            yield 'request', c
        # unusual requests
        for extra in (dict(Fsign=-1), dict(Tsign=-1), dict(Fsign=0), dict(scalarF=1), dict(nu=-2.0), dict(nu=9.0),
                      dict(nu=0.0), dict(nu=3.5), dict(nu=-0.99)):
            if 'nu' in extra and name != 'R50NuFlux':
                continue
            if 'Tsign' in extra and name in ('R50Flux', 'R50NuFlux'):
                continue
            for nrand in (1, 2):
                yield 'request', dict(g=name, nband=1, nrand=nrand, prior=None if name in NARROW else 'wide',
                                      who='guesser' if name in NARROW else 'prior', per='draw', len=5, **extra)
    # each of several guesses keeps to the range of the index
    for nu in (3.5, -0.99, 3.2, -0.92, 9.0):
        for nrand in (2, 3):
            yield 'request', dict(g='R50NuFlux', nband=1, nrand=nrand, prior=None, who='guesser', per='call', len=6,
                                  prefix='mmmmm', nu=nu)
    for pars in ([0.3, -0.2, 0.1, 0.05, 0.6, 3.0], [0.0, 0.0, 0.0, 0.0, 0.6, 3.0, 50.0],
                 [0.1, 0.1, 0.79, 0.1, 0.6, 3.0], [0.0, 0.0, -0.95, 0.28, 0.6, 3.0],
                 [0.0, 0.0, 0.6, -0.6, -0.6, -3.0], [1.0, 2.0, 0.0, 0.0, 2.0, 5.0]):
        for widths in (None, 'half', 'big'):
            for nrand in (None, 1, 2):
                for kind in (None, 'wide', 'tight', 'away'):
                    if len(pars) == 7 and widths == 'big':
                        continue
                    w = None if widths is None else [0.05] * 2 + [0.2, 0.1] + [0.3, 0.2, 0.4][:len(pars) - 4]
                    if widths == 'big':
                        w = [0.5, 0.2, 0.9, 0.9, 0.6, 0.7]
                    c = dict(pars=pars, widths=w, nrand=nrand, prior=kind, per='draw',
                             len=(7 if th else 5 if nrand != 2 else 4))
                    yield 'pars', c
    yield 'pars', dict(pars=[1, 2, 0, 0, 4, 5], widths=None, nrand=None, prior=None, per='draw', len=6, dtype='i8')
    for model in ('simple', 'bdf', 'bd', 'spergel'):
        for nband in (1, 2, 3):
            for nrand in (None, 1, 2):
                for kind in ('wide', 'tight', 'away', 'soft', 'erf'):
                    yield 'prior', dict(model=model, nband=nband, nrand=nrand, prior=kind, per='draw', len=5 if th else 3)
    # psf fluxes
    for name in ('TPSFFlux', 'TPSFFluxAndPrior', 'BDFPSFFlux'):
        for nb in (1, 2, 3):
            for pattern in itertools.product('gb', repeat=nb):
                pattern = ''.join(pattern)
                for epochs in (1, 2):
                    for kind in ((None,) if name == 'TPSFFlux' else ()) + ('wide', 'tight', 'away'):
                        for nrand in (1, 2):
                            for who in ('guesser', 'prior'):
                                if who == 'prior' and name == 'TPSFFlux':
                                    continue
                                if nrand == 2 and who == 'prior' and epochs == 2:
                                    continue
                                yield 'psf', dict(g=name, obs={'a': [pattern, epochs, 1.0]}, history='a', form='mb',
                                                  prior=kind, nrand=nrand, who=who, len=4 if th else 2)
        for pa, pb in itertools.product(('g', 'b', 'gg', 'gb', 'bb', 'bg'), repeat=2):
            if len(pa) != len(pb):
                continue
            for hist in ('aba', 'abab'):
                yield 'psf', dict(g=name, obs={'a': [pa, 1, 1.0], 'b': [pb, 2, 2.0]}, history=hist, form='mb',
                                  prior='wide', nrand=1, who='guesser', len=1)
        for form in ('obs', 'list'):
            for pattern in ('g', 'b'):
                for epochs in (1, 2):
                    yield 'psf', dict(g=name, obs={'a': [pattern, epochs, 1.0]}, history='aa', form=form,
                                      prior='wide', nrand=1, who='guesser', len=2)
    # mixtures
    for scale in (0.01, 0.05, 0.1, 0.263, 1.0, 5.0):
        for im in ('small', 'ref', 'big', 'ell', 'noise', 'neg', 'flat'):
            for moms in (False, True):
                for g, ngs in (('GMix', (1, 2, 3, 4, 5)), ('Simple', (1,)), ('Coellip', (1, 2, 3, 4, 5))):
                    for ng in ngs:
                        for jac in (('diag', 'rot') if th or im in ('ref', 'ell') else ('diag',)):
                            for n in ((25, 26) if th else (25,)):
                                yield 'mix', dict(g=g, ngauss=ng, scale=scale, im=im, moms=moms, jac=jac, n=n,
                                                  flux=17.0, full=th or (im == 'ref' and not moms and jac == 'diag'))
    for n in (0, 6, -1):
        yield 'bad', dict(what='ngauss', n=n)
    yield 'bad', dict(what='r50')
