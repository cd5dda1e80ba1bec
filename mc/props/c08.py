"""
C08  likelihood, residuals and fit models agree, whatever was evaluated before
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList, GMix, GMixModel
from ngmix.gmix import GMixCoellip
from ngmix.fitting.results import FitModel, CoellipFitModel
from ngmix.gexceptions import GMixRangeError
from ngmix import priors as P, joint_prior as J
from mc.core import fp, sequences
from mc import gmref as R, data as D

LEVEL = 'model_checking'
RULE = (
    'Every fit model (gauss, exp, dev, turb, bd, bdf, coellip 1-3) x bands 1-3 x epoch '
    'layouts x {all, no, only the first, all but the first observation with a psf mixture} x prior/no prior x zero weight handling; on each, all sequences up '
    'to depth 2 (depth 3 for selected models, 4 thorough) of {log probability, detailed log '
    'probability, residuals} x parameter vectors (valid and out of range in every slot), '
    'every value compared with that of a fresh model; every first value compared with an '
    'independent evaluation of model x psf on the positive weight pixels.  Mixture level: '
    'library of mixtures x observation variants.'
)
ASSUMPTIONS = ['fast exponential accuracy 5e-5 and cutoff chi2=25 as in C05']


def mkobs(k, psf=True, dims=(6, 7), zero=True, ignore=True):
    j = D.jac(row=2.3 + .2 * k, col=3.1 - .1 * k)
    w = 1.0 + 0.5 * np.abs(D.noise(dims, 50 + k))
    if zero:
        w[1, 2] = 0.0
        w[4, :3] = 0.0
        w[2, 2] = -1.0
    im = .3 * D.noise(dims, k) + .5
    p = None
    if psf:
        pg = [GMixModel([0.01, -.02, .05, -.03, .2 + .03 * k, 1.3], 'gauss'),
              GMixModel([0, 0, 0.02, .1, .25, 1.0], 'turb'),
              GMix(pars=[.6, .02, 0, .1, .01, .12, .5, 0, -.02, .3, 0, .2])][k % 3]
        p = Observation(np.ones((3, 3)), gmix=pg, jacobian=D.jac(1, 1))
    return Observation(im, weight=w, jacobian=j, psf=p, ignore_zero_weight=ignore)


LAYOUTS = {'1': [1], '2': [2], '1+1': [1, 1], '2+1': [2, 1], '1+2+1': [1, 2, 1]}


def mkmb(layout, psf, ignore=True):
    mb = MultiBandObsList()
    k = 0
    for n in LAYOUTS[layout]:
        ol = ObsList()
        for i in range(n):
            has = {'first': k == 0, 'later': k > 0}.get(psf, psf)
            ol.append(mkobs(k, has, dims=(6, 7) if k % 2 == 0 else (5, 4), ignore=ignore))
            k += 1
        mb.append(ol)
    return mb


def mkprior(model, nband, ng=1):
    rng = np.random.RandomState(8)
    cen = P.CenPrior(0.05, -0.02, 0.3, 0.25, rng=rng)
    g = P.GPriorBA(0.3, rng=rng)
    T = P.TwoSidedErf(-.05, .01, 50.0, 1.0, rng=rng) if nband == 2 else P.FlatPrior(0.01, 60.0, rng=rng)
    F = [P.FlatPrior(-10.0 - b, 1e3, rng=rng) if b else P.Normal(3.0, 2.0, rng=rng) for b in range(nband)]
    if model == 'bd':
        return J.PriorBDSep(cen, g, P.Normal(.5, .3, rng=rng), P.Normal(0.0, .4, rng=rng),
                            P.Normal(.5, .1, rng=rng), F if nband > 1 else [P.Normal(3.0, 2.0, rng=rng)])
    if model == 'bdf':
        return J.PriorBDFSep(cen, g, P.Normal(.5, .3, rng=rng), P.Normal(.5, .1, rng=rng),
                             [P.Normal(3.0, 2.0 + b, rng=rng) for b in range(nband)])
    if model == 'coellip':
        return J.PriorCoellipSame(ng, cen, g, T, F[0])
    return J.PriorSimpleSep(cen, g, T, F)


def vectors(model, nband, ng=1):
    """valid and invalid parameter vectors, one per way of being invalid"""
    F = [3.0, 5.5, 1.25][:nband]
    if model == 'bd':
        v = [[.1, -.05, .1, .05, .6, .2, .4] + F, [-.2, .1, -.3, .2, 1.5, -.3, .7] + F[::-1]]
        n0 = 7
    elif model == 'bdf':
        v = [[.1, -.05, .1, .05, .6, .4] + F, [-.2, .1, -.3, .2, 1.5, .7] + F[::-1]]
        n0 = 6
    elif model == 'coellip':
        v = [[.1, -.05, .1, .05] + [.3, .9, 2.0][:ng] + [2.0, 1.0, .5][:ng],
             [-.2, .1, -.3, .2] + [.6, .1, 1.2][:ng] + [1.0, 3.0, .25][:ng]]
        n0 = 4
    else:
        v = [[.1, -.05, .1, .05, .6] + F, [-.2, .1, -.3, .2, 1.5] + F[::-1]]
        n0 = 5
    bad = []
    b = list(v[0])
    b[2] = 1.2
    bad.append(b)
    b = list(v[1])
    b[2], b[3] = .8, -.8
    bad.append(b)
    b = list(v[0])
    b[4] = -5.0
    bad.append(b)
    return v, bad, n0


def make(case):
    m, lay, psf = case['model'], case['layout'], case['psf']
    nb = len(LAYOUTS[lay])
    ng = case.get('ng', 1)
    mb = mkmb(lay, psf, case.get('ignore', True))
    prior = mkprior(m, nb, ng) if case['prior'] else None
    v, bad, n0 = vectors(m, nb, ng)
    if m == 'coellip':
        return CoellipFitModel(mb, ng, np.array(v[0]), prior=prior), mb, prior, v, bad, n0
    return FitModel(mb, m, np.array(v[0]), prior=prior), mb, prior, v, bad, n0


def call(fm, op, pars):
    p = np.array(pars)
    k = p.copy()
    if op == 'ln':
        r = fm.calc_lnprob(p)
    elif op == 'more':
        r = fm.calc_lnprob(p, more=True)
        r = np.array([r['lnprob'], r['s2n_numer'], r['s2n_denom'], r['npix']], dtype='f8')
    elif op == 'fd':
        r = fm.calc_fdiff(p)
    if not np.array_equal(p, k):
        raise RuntimeError('parameters were modified')
    return np.array(r, dtype='f8', ndmin=1)


def bandpars(pars, b, n0):
    return list(pars[:n0]) + [pars[n0 + b]]


def reference(case, mb, pars, n0):
    """expected residuals with a bound on their error, independent of FitModel"""
    tot = dict(ll=0.0, num=0.0, den=0.0, npix=0, err=0.0, nerr=0.0, derr=0.0)
    res, tol = [], []
    for b, ol in enumerate(mb):
        if case['model'] == 'coellip':
            gm = GMixCoellip(np.array(pars))
        else:
            gm = GMixModel(bandpars(pars, b, n0), case['model'])
        m0 = gm.get_full_pars().reshape(-1, 6)
        for obs in ol:
            m = R.convolve(m0, obs.psf.gmix.get_full_pars().reshape(-1, 6)) if obs.has_psf_gmix() else m0
            im, wt, j = obs.image, obs.weight, obs.jacobian
            r, c = np.mgrid[:im.shape[0], :im.shape[1]].astype('f8')
            v = j.dvdrow * (r - j.row0) + j.dvdcol * (c - j.col0)
            u = j.dudrow * (r - j.row0) + j.dudcol * (c - j.col0)
            keep = (wt > 0) if case.get('ignore', True) else np.ones(wt.shape, bool)
            area = abs(j.dvdrow * j.dudcol - j.dvdcol * j.dudrow)
            mod, edge = R.evaluate(m, v[keep], u[keep], area, fast=True)
            full, _ = R.evaluate(m, v[keep], u[keep], area, fast=False)
            w = wt[keep].clip(min=0.0)
            d = mod - im[keep]
            t = 5e-5 * np.abs(mod) + np.where(edge, np.abs(full - mod) + 1e-5 * np.abs(full), 0) + 1e-14
            tot['ll'] -= 0.5 * (d * d * w).sum()
            tot['num'] += (mod * im[keep] * w).sum()
            tot['den'] += (mod * mod * w).sum()
            tot['npix'] += int(keep.sum())
            tot['err'] += (np.abs(d) * t * w + t * t * w).sum()
            tot['nerr'] += (t * np.abs(im[keep]) * w).sum()
            tot['derr'] += (2 * np.abs(mod) * t * w + t * t * w).sum()
            res.append(d * np.sqrt(w))
            tol.append(t * np.sqrt(w) + 1e-13)
    return tot, np.concatenate(res), np.concatenate(tol)


def k_value(case, rec):
    fm, mb, prior, v, bad, n0 = make(case)
    nprior = fm.n_prior_pars
    before = D.snap(mb)
    for pars in v:
        lnp = prior.get_lnprob_scalar(np.array(pars)) if prior is not None else 0.0
        tot, res, tol = reference(case, mb, pars, n0)
        a, m, f = [call(fm, o, pars) for o in ('ln', 'more', 'fd')]
        rec.trans(3)
        rec.eval(6)
        rec.trace()
        rec.state(fp(case, pars))
        e = []
        if abs(a[0] - m[0]) > 1e-12 * abs(a[0]):
            e.append('lnprob %r, detailed %r' % (a[0], m[0]))
        if abs(a[0] - lnp - tot['ll']) > tot['err'] + 1e-9 * abs(tot['ll']):
            e.append('lnprob %r - prior %r, expected %r' % (a[0], lnp, tot['ll']))
        if m[3] != tot['npix']:
            e.append('npix %r, expected %r' % (m[3], tot['npix']))
        if abs(m[1] - tot['num']) > tot['nerr'] + 1e-12 * abs(tot['num']):
            e.append('s2n_numer %r, expected %r' % (m[1], tot['num']))
        if abs(m[2] - tot['den']) > tot['derr'] + 1e-12 * abs(tot['den']):
            e.append('s2n_denom %r, expected %r' % (m[2], tot['den']))
        if f.size != nprior + res.size or fm.fdiff_size != f.size:
            e.append('%d residuals, expected %d+%d' % (f.size, nprior, res.size))
        else:
            if abs(-0.5 * (f[nprior:] ** 2).sum() - (a[0] - lnp)) > 1e-10 * (abs(a[0]) + abs(lnp)):
                e.append('residuals give %r, likelihood %r' % (-0.5 * (f[nprior:] ** 2).sum(), a[0] - lnp))
            if nprior and abs(-0.5 * (f[:nprior] ** 2).sum() - lnp) > 1e-9 * abs(lnp) + 1e-12:
                e.append('prior residuals give %r, prior %r' % (-0.5 * (f[:nprior] ** 2).sum(), lnp))
            if (np.abs(f[nprior:] - res) > tol).any():
                e.append('residuals differ by up to %g' % np.abs(f[nprior:] - res).max())
        # sum over epochs and bands of single observation fits
        if case['model'] != 'coellip':
            s = np.zeros(4)
            for b, ol in enumerate(mb):
                for o in ol:
                    bp = bandpars(pars, b, n0)
                    s += call(FitModel(o, case['model'], bp), 'more', bp)
            s[0] += lnp
            if not np.allclose(s, m, rtol=1e-11, atol=1e-13):
                e.append('sum over single observations %r, all %r' % (s.tolist(), m.tolist()))
        if e:
            rec.fail('fit-value', '%s at %s: %s' % (case, pars, '; '.join(e)))
        rec.outcome('valid')
        rec.sample(dict(case=case, pars=pars, lnprob=float(a[0])))
    for pars in bad:
        a, m, f = [call(fm, o, pars) for o in ('ln', 'more', 'fd')]
        rec.trans(3)
        rec.eval()
        rec.state(fp(case, pars))
        rec.outcome('out of range')
        if not (np.isneginf(a[0]) and np.isneginf(m[0]) and m[3] == 0):
            rec.fail('fit-range', '%s at %s: lnprob %r %r' % (case, pars, a, m))
        if f.size != fm.fdiff_size or not np.isinf(f).all():
            rec.fail('fit-range', '%s at %s: residuals %r' % (case, pars, f[:8]))
    # outside the support of one component of the prior
    if prior is not None and case['model'] in ('exp', 'gauss', 'dev', 'turb') and fm.nband != 2:
        for slot, val in ((4, .001), (4, 61.0)) + (((6, -11.5), (7, 2e3)) if fm.nband == 3 else ()):
            p = list(v[0])
            p[slot] = val
            if not (np.isneginf(call(fm, 'ln', p)[0]) and np.isinf(call(fm, 'fd', p)).all()):
                rec.fail('fit-range', '%s with slot %d at %g' % (case, slot, val))
            rec.trans(2)
            rec.eval()
            rec.state(fp(case, p))
    d = D.diff(before, D.snap(mb))
    if d:
        rec.fail('fit-input', d)
    # a guess out of range or of the wrong size is refused
    for b in (bad[0], v[0][:-1], v[0] + [1.0]):
        try:
            if case['model'] == 'coellip':
                CoellipFitModel(mb, case['ng'], np.array(b), prior=prior)
            else:
                FitModel(mb, case['model'], np.array(b), prior=prior)
            rec.fail('guess', '%s accepted guess %s' % (case, b))
        except (GMixRangeError, AssertionError, ValueError):
            pass


def k_hist(case, rec):
    """all sequences of evaluations; the last value equals that of a fresh model"""
    fm0, mb, prior, v, bad, n0 = make(case)
    vecs = v + bad
    alphabet = [[o, i] for o in ('ln', 'more', 'fd') for i in range(len(vecs))]
    fresh = {}
    for o, i in alphabet:
        fresh[o, i] = call(make(case)[0], o, vecs[i])
    seqs = [case['trace']] if 'trace' in case else (
        [[case['first']] + s for s in sequences(alphabet, case['depth'] - 1, 0)])
    for s in seqs:
        fm = make(case)[0] if 'trace' in case else fm0
        # fm0 keeps everything evaluated before, which only lengthens the history
        for o, i in s:
            got = call(fm, o, vecs[i])
            rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case['model'], case['layout'], case['psf'], case['prior'], s))
        if not np.array_equal(got, fresh[o, i]):
            if not np.allclose(got, fresh[o, i], rtol=1e-12, atol=1e-14):
                rec.fail('history', '%s of vector %d after %s: %r, fresh %r' % (
                    o, i, s[:-1], got[:6].tolist(), fresh[o, i][:6].tolist()),
                    case=dict(case, trace=s))
                return
    rec.outcome('same')


def k_result(case, rec):
    """statistics, mixtures and images reported for a result"""
    fm, mb, prior, v, bad, n0 = make(case)
    for pars in v:
        p = np.array(pars)
        n = p.size
        A = D.noise((n, n), 3)
        cov = A.dot(A.T) * .01 + np.diag(np.arange(1, n + 1) * .01)
        fm, mb, prior, _, _, _ = make(case)
        fm.set_fit_result(dict(flags=0, pars=p.copy(), pars_cov=cov.copy(),
                               pars_err=np.sqrt(np.diag(cov))))
        m = call(make(case)[0], 'more', pars)
        rec.trans(2)
        rec.trace()
        rec.eval(5)
        rec.state(fp(case, pars))
        e = []

        def chk(key, want):
            if key not in fm or not np.allclose(fm[key], want, rtol=1e-10, atol=0):
                e.append('%s is %r, expected %r' % (key, fm.get(key), want))
        chk('lnprob', m[0])
        chk('npix', m[3])
        chk('dof', m[3] - n)
        chk('chi2per', -2 * m[0] / (m[3] - n))
        chk('s2n', m[1] / np.sqrt(m[2]))
        chk('s2n_w', m[1] / np.sqrt(m[2]))
        chk('g', p[2:4])
        chk('g_cov', cov[2:4, 2:4])
        chk('g_err', np.sqrt(np.diag(cov))[2:4])
        chk('T', p[4])
        chk('T_err', np.sqrt(cov[4, 4]))
        if case['model'] != 'coellip':
            if fm.nband == 1:
                chk('flux', p[n0])
                chk('flux_err', np.sqrt(cov[n0, n0]))
            else:
                chk('flux', p[n0:])
                chk('flux_err', np.sqrt(np.diag(cov))[n0:])
                chk('flux_cov', cov[n0:, n0:])
        for b in range(fm.nband):
            if case['model'] == 'coellip':
                m0 = GMixCoellip(p).get_full_pars()
                gm = fm.get_gmix()
                if not np.allclose(gm.get_full_pars(), m0, rtol=1e-12):
                    e.append('mixture')
            else:
                m0 = GMixModel(bandpars(pars, b, n0), case['model']).get_full_pars()
                gm = fm.get_gmix(band=b)
                if not np.allclose(gm.get_full_pars(), m0, rtol=1e-12):
                    e.append('mixture of band %d' % b)
                if not np.allclose(fm.get_band_pars(p, b), bandpars(pars, b, n0)):
                    e.append('pars of band %d' % b)
            m0 = m0.reshape(-1, 6)
            for i, obs in enumerate(mb[b]):
                m1 = m0
                if obs.has_psf_gmix():
                    m1 = R.convolve(m0, obs.psf.gmix.get_full_pars().reshape(-1, 6))
                got = fm.get_convolved_gmix(band=b, obsnum=i).get_full_pars().reshape(-1, 6)
                if not np.allclose(got, m1, rtol=1e-10, atol=1e-12):
                    e.append('convolved mixture of band %d epoch %d' % (b, i))
                im = fm.make_image(band=b, obsnum=i)
                j = obs.jacobian
                r, c = np.mgrid[:obs.image.shape[0], :obs.image.shape[1]].astype('f8')
                want, _ = R.evaluate(m1, j.dvdrow * (r - j.row0) + j.dvdcol * (c - j.col0),
                                     j.dudrow * (r - j.row0) + j.dudcol * (c - j.col0), j.area)
                if im.shape != want.shape or not np.allclose(im, want, rtol=1e-8, atol=1e-14):
                    e.append('image of band %d epoch %d' % (b, i))
                rec.eval(2)
        # what is handed out is not what the model works with
        bn = fm.bounds
        if bn is not None:
            keep = [tuple(x) for x in bn]
            bn[0] = (5.0, 6.0)
            bn.append(None)
            if [tuple(x) for x in fm.bounds] != keep:
                e.append('bounds can be changed from outside')
        if np.shares_memory(fm['g'], fm['pars']) or np.shares_memory(fm['g_cov'], fm['pars_cov']):
            e.append('g shares memory with the parameters')
        # a failed result gets no statistics
        fm2 = make(case)[0]
        fm2.set_fit_result(dict(flags=4, pars=p.copy(), pars_cov=cov.copy(), pars_err=p.copy()))
        if fm2['flags'] != 4 or 'chi2per' in fm2:
            e.append('statistics for a failed result')
        if e:
            rec.fail('fit-result', '%s at %s: %s' % (case, pars, '; '.join(e)))


# mixture level

def gms():
    return [GMixModel([.1, -.05, .1, .05, .6, 3.0], 'gauss'), GMixModel([.1, -.05, .1, .05, .6, 3.0], 'exp'),
            GMixModel([.1, -.05, -.4, .05, 1.6, -3.0], 'dev'), GMixCoellip([.2, .1, .1, .6, 1.0, .4, 3.0, 1.0]),
            GMix(pars=[1.0, .5, -.5, 1.0, .2, .5, -.3, -.5, .3, .4, -.1, .3]),
            GMixModel([5.0, 5.0, .1, .05, .01, 3.0], 'gauss'),
            GMixModel([.1, -.05, .1, .05, .6, .3, .4, 3.0], 'bd').convolve(GMixModel([0, 0, 0, 0, .2, 2.0], 'turb'))]


def k_gmix(case, rec):
    g = gms()[case['i']]
    for k, zero, ignore, dims in itertools.product(range(3), (False, True), (False, True), ((6, 7), (1, 3), (9, 4))):
        if zero and dims == (1, 3):
            continue
        obs = mkobs(k, psf=False, dims=dims, zero=zero, ignore=ignore)
        snap = D.snap(obs)
        c = dict(model='x', psf=False, ignore=ignore)
        m = g.get_full_pars().reshape(-1, 6)
        im, wt, j = obs.image, obs.weight, obs.jacobian
        keep = (wt > 0) if ignore else np.ones(wt.shape, bool)
        r, cc = np.mgrid[:dims[0], :dims[1]].astype('f8')
        v = (j.dvdrow * (r - j.row0) + j.dvdcol * (cc - j.col0))[keep]
        u = (j.dudrow * (r - j.row0) + j.dudcol * (cc - j.col0))[keep]
        mod, edge = R.evaluate(m, v, u, j.area, fast=True)
        ma = m.copy()
        ma[:, 0] = np.abs(ma[:, 0])
        sc, _ = R.evaluate(ma, v, u, j.area, fast=True)
        full, _ = R.evaluate(ma, v, u, j.area)
        t = 5e-5 * sc + np.where(edge, full, 0) + 1e-14
        w = wt[keep].clip(min=0)
        d = mod - im[keep]
        ll = g.get_loglike(obs)
        more = g.get_loglike(obs, more=True)
        s2 = g.get_model_s2n_sum(obs)
        s2n = g.get_model_s2n(obs)
        rec.trans(4)
        rec.eval(6)
        rec.trace()
        rec.state(fp(case, k, zero, ignore, dims))
        e = []
        if ll != more['loglike']:
            e.append('%r vs %r' % (ll, more['loglike']))
        if abs(ll + .5 * (d * d * w).sum()) > ((np.abs(d) * t + t * t) * w).sum() + 1e-12 * abs(ll):
            e.append('loglike %r, expected %r' % (ll, -.5 * (d * d * w).sum()))
        if more['npix'] != keep.sum():
            e.append('npix %r' % more['npix'])
        if abs(more['s2n_numer'] - (mod * im[keep] * w).sum()) > (t * np.abs(im[keep]) * w).sum() + 1e-14:
            e.append('numer')
        den = (mod * mod * w).sum()
        dt = ((2 * np.abs(mod) * t + t * t) * w).sum() + 1e-14
        if abs(more['s2n_denom'] - den) > dt or abs(s2 - den) > dt or abs(s2n ** 2 - s2) > 1e-12 * s2:
            e.append('denom %r %r %r, expected %r' % (more['s2n_denom'], s2, s2n, den))
        if abs(more['s2n_denom'] - s2) > 1e-12 * s2:
            e.append('denom %r s2n sum %r' % (more['s2n_denom'], s2))
        n = im.size
        for start, extra in ((0, 0), (3, 0), (2, 5)):
            f = np.full(start + n + extra, 77.0)
            g.fill_fdiff(obs, f, start=start)
            rec.trans()
            q = int(keep.sum())
            if (f[:start] != 77).any() or (f[start + q:] != 77).any():
                e.append('residuals written outside')
            if (np.abs(f[start:start + q] - d * np.sqrt(w)) > t * np.sqrt(w) + 1e-13).any():
                e.append('residuals')
            if abs(-.5 * (f[start:start + q] ** 2).sum() - ll) > 1e-11 * abs(ll):
                e.append('residuals give %r, loglike %r' % (-.5 * (f[start:start + q] ** 2).sum(), ll))
            try:
                g.fill_fdiff(obs, np.zeros(start + n - 1), start=start)
                e.append('short array accepted')
            except ValueError:
                pass
        dd = D.diff(snap, D.snap(obs))
        if dd:
            e.append('observation changed: %s' % dd)
        if e:
            rec.fail('loglike', 'mixture %d obs %s: %s' % (case['i'], (k, zero, ignore, dims), '; '.join(e)))


def gs_obs(k):
    import galsim
    j = ngmix.DiagonalJacobian(scale=.25, row=12 + .1 * k, col=12 - .2 * k)
    psf = galsim.Gaussian(fwhm=.8 + .1 * k)
    gal = galsim.Exponential(half_light_radius=.6, flux=5.0 + k).shear(g1=.1, g2=-.05)
    pim = psf.drawImage(nx=25, ny=25, scale=.25).array.astype('f8')
    im = galsim.Convolve(gal, psf).drawImage(nx=25, ny=25, scale=.25).array.astype('f8')
    im = im + .01 * D.noise(im.shape, k)
    p = Observation(pim, weight=np.full(pim.shape, 1e6), jacobian=ngmix.DiagonalJacobian(scale=.25, row=12, col=12))
    return Observation(im, weight=np.full(im.shape, 1e3 + k), jacobian=j, psf=p)


GSM = {'gauss': [], 'exp': [], 'dev': [], 'spergel': [.4], 'moffat': [2.5]}


def gs_make(case):
    from ngmix.fitting import galsim_results as G
    mb = MultiBandObsList()
    k = 0
    for n in LAYOUTS[case['layout']]:
        ol = ObsList()
        for i in range(n):
            ol.append(gs_obs(k))
            k += 1
        mb.append(ol)
    nb = len(mb)
    ex = GSM[case['model']]
    v = [[.05, -.1, .1, -.05, .6] + ex + [5.0, 6.0, 4.0][:nb],
         [-.1, .03, -.3, .2, .9] + [e * 1.2 for e in ex] + [3.0, 8.0, 1.0][:nb]]
    bad = [list(v[0]), list(v[1]), list(v[0])]
    bad[0][2] = 1.3
    bad[1][4] = -1.0
    bad[2][2], bad[2][3] = .8, .8
    prior = None
    if case['prior']:
        rng = np.random.RandomState(4)
        a = (P.CenPrior(0, 0, .3, .3, rng=rng), P.GPriorBA(.3, rng=rng), P.FlatPrior(.01, 50, rng=rng))
        F = [P.Normal(4.0, 3.0, rng=rng) for _ in range(nb)]
        if ex:
            prior = J.PriorSpergelSep(*a, P.Normal(ex[0], 1.0, rng=rng), F)
        else:
            prior = J.PriorGalsimSimpleSep(*a, F)
    if case['model'] == 'spergel':
        fm = G.GalsimSpergelFitModel(mb, np.array(v[0]), prior=prior)
    elif case['model'] == 'moffat':
        fm = G.GalsimMoffatFitModel(mb, np.array(v[0]), prior=prior)
    else:
        fm = G.GalsimFitModel(mb, case['model'], np.array(v[0]), prior=prior)
    return fm, mb, prior, v, bad


def gs_call(fm, op, pars):
    p = np.array(pars)
    r = fm.calc_fdiff(p) if op == 'fd' else fm.calc_s2n_r(p)
    if not np.array_equal(p, np.array(pars)):
        raise RuntimeError('parameters were modified')
    return np.array(r, dtype='f8', ndmin=1)


def k_galsim(case, rec):
    import galsim
    fm, mb, prior, v, bad = gs_make(case)
    nb = len(mb)
    ncom = 5 + len(GSM[case['model']])
    fresh = {}
    for i, pars in enumerate(v):
        fresh['fd', i] = gs_call(gs_make(case)[0], 'fd', pars)
        fresh['s2', i] = gs_call(gs_make(case)[0], 's2', pars)
        # independent: draw the model in k space on the grid of the observations
        kmb = ngmix.observation.make_kobs(mb)
        ll, s2 = 0.0, 0.0
        for b, kl in enumerate(kmb):
            r50, F = pars[4], pars[ncom + b]
            ex = pars[5:ncom]
            m = {'gauss': lambda: galsim.Gaussian(half_light_radius=r50, flux=F),
                 'exp': lambda: galsim.Exponential(half_light_radius=r50, flux=F),
                 'dev': lambda: galsim.DeVaucouleurs(half_light_radius=r50, flux=F),
                 'spergel': lambda: galsim.Spergel(ex[0], half_light_radius=r50, flux=F),
                 'moffat': lambda: galsim.Moffat(ex[0], half_light_radius=r50, flux=F)}[case['model']]()
            for ko in kl:
                km = m.shear(g1=pars[2], g2=pars[3]).shift(pars[0], pars[1]).drawKImage(
                    image=ko.kimage.copy()).array * ko.psf.kimage.array
                d = km - ko.kimage.array
                ll -= 0.5 * ((d.real ** 2 + d.imag ** 2) * ko.weight.array).sum()
                kr = m.shift(pars[0], pars[1]).drawKImage(image=ko.kimage.copy()).array * ko.psf.kimage.array
                s2 += ((kr.real ** 2 + kr.imag ** 2) * ko.weight.array).sum()
        n = fm.n_prior_pars
        f = fresh['fd', i]
        got = -.5 * (f[n:] ** 2).sum()
        rec.trans(4)
        rec.eval(3)
        if f.size != n + 2 * sum(ko.kimage.array.size for kl in kmb for ko in kl):
            rec.fail('galsim-size', '%s: %d residuals' % (case, f.size))
        if abs(got - ll) > 1e-6 * abs(ll) + 1e-9:
            rec.fail('galsim-value', '%s at %s: likelihood %r, expected %r' % (case, pars, got, ll))
        if abs(fresh['s2', i][0] - np.sqrt(s2)) > 1e-6 * np.sqrt(s2):
            rec.fail('galsim-s2n', '%s at %s: %r, expected %r' % (case, pars, fresh['s2', i], np.sqrt(s2)))
        if n:
            lnp = prior.get_lnprob_scalar(np.array(pars))
            if abs(-.5 * (f[:n] ** 2).sum() - lnp) > 1e-9 * abs(lnp) + 1e-12:
                rec.fail('galsim-prior', '%s at %s: %r, expected %r' % (case, pars, -.5 * (f[:n] ** 2).sum(), lnp))
    vecs = v + bad
    for i in range(2, 5):
        f = gs_call(fm, 'fd', vecs[i])
        if not np.isinf(f).all():
            rec.fail('galsim-range', '%s at %s' % (case, vecs[i]))
    alphabet = [('fd', i) for i in range(5)] + [('s2', 0), ('s2', 1)]
    for s in sequences(alphabet, case['depth']):
        o, i = s[-1]
        for q in s:
            got = gs_call(fm, *(q[0], vecs[q[1]]))
            rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case['model'], case['layout'], case['prior'], s))
        want = fresh.get((o, i))
        if want is not None and not np.allclose(got, want, rtol=1e-12, atol=1e-13):
            rec.fail('galsim-history', '%s: %s of vector %d after %s' % (case, o, i, s[:-1]))
            return
    rec.outcome('galsim')


KINDS = {'galsim': k_galsim, 'value': k_value, 'hist': k_hist, 'result': k_result, 'gmix': k_gmix}
CHUNK = 3


def warmup():
    for m in ('exp', 'bdf', 'bd', 'gauss', 'dev', 'turb'):
        c = dict(model=m, layout='1', psf=True, prior=True)
        fm, mb, prior, v, bad, n0 = make(c)
        for o in ('ln', 'fd'):
            call(fm, o, v[0])
    gms()[0].get_model_s2n_sum(mkobs(0))


def cases(tier):
    th = tier == 'thorough'
    for i in range(7):
        yield 'gmix', dict(i=i)
    for m in GSM:
        for lay in ('1', '1+1') + (('2+1',) if th else ()):
            for pr in (False, True):
                yield 'galsim', dict(model=m, layout=lay, prior=pr, depth=3 if th else 2)
    cfgs = []
    for m in ('gauss', 'exp', 'dev', 'turb', 'bd', 'bdf'):
        for lay in LAYOUTS:
            for psf in (False, True):
                for pr in (False, True):
                    cfgs.append(dict(model=m, layout=lay, psf=psf, prior=pr))
            if lay != '1':
                for psf in ('first', 'later'):
                    cfgs.append(dict(model=m, layout=lay, psf=psf, prior=True))
    for ng in (1, 2, 3):
        for lay in ('1', '2'):
            for psf in (False, True):
                for pr in (False, True):
                    cfgs.append(dict(model='coellip', ng=ng, layout=lay, psf=psf, prior=pr))
            if lay == '2':
                for psf in ('first', 'later'):
                    cfgs.append(dict(model='coellip', ng=ng, layout=lay, psf=psf, prior=False))
    for c in cfgs:
        yield 'value', c
        yield 'value', dict(c, ignore=False)
        yield 'result', c
    for c in cfgs:
        deep = c['model'] in ('exp', 'bdf', 'coellip') and c['layout'] in ('2', '2+1') and c['psf'] is True and c['prior']
        for o in ('ln', 'more', 'fd'):
            for i in range(5):
                yield 'hist', dict(c, first=[o, i], depth=(4 if deep else 3) if th else (3 if deep else 2))
