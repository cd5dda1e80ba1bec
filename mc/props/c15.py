"""
C15  adaptive moments and EM: status, trajectories, conservation and options
"""
import itertools
import numpy as np
import ngmix
from ngmix import flags as FL
from ngmix.admom import AdmomFitter, find_cen_admom
from ngmix.em import em as EMM
from ngmix.gexceptions import GMixRangeError
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'Adaptive moments: a reference state machine (weight gaussian -> weight gaussian, '
    'or stop with a cause) explored over image class x jacobian x weight map x guess x '
    'tolerances x shift limit x centre-only; every prefix of the trace is replayed '
    'against the implementation by limiting it to k=1,2,... iterations. EM: a reference '
    'step (mixture, sky) -> (mixture, sky) for the four fitters over image x mixture '
    'size x psf x sky handling x zero weight pixels; the state after each k steps is '
    'compared, and converged runs by iteration count and conservation of flux.'
)
ASSUMPTIONS = [
    'one-gaussian guesses for adaptive moments, psf gaussians share a centre for EM',
    'the sky passed to EM makes all pixels positive; the image passed without sky has '
    'no zero weight pixels',
    'a run that converges on exactly the last allowed iteration may report either '
    'success or the iteration limit',
    'runs of which a decision lies within rounding, or whose end changes visibly when '
    'the guess changes by 1e-7, are executed but not compared (counted in the outcomes)',
]
CHUNK = 1
CASE_TIMEOUT = 300

JACS = {
    'unit': (1.0, 0.0, 0.0, 1.0), 'small': (0.263, 0.0, 0.0, 0.263),
    'shear': (0.25, 0.04, -0.03, 0.28), 'flip': (0.0, 0.3, 0.3, 0.02),
}


def jacobian(name, row, col):
    a, b, c, d = JACS[name]
    return ngmix.Jacobian(row=row, col=col, dvdrow=a, dvdcol=b, dudrow=c, dudcol=d)


def grid(dims, jac):
    r, c = np.mgrid[0:dims[0], 0:dims[1]].astype(float)
    v = jac.dvdrow * (r - jac.row0) + jac.dvdcol * (c - jac.col0)
    u = jac.dudrow * (r - jac.row0) + jac.dudcol * (c - jac.col0)
    return v, u


def area_of(jac):
    return abs(jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow)


def gm1(p, v, u, irr, irc, icc):
    return ngmix.GMix(pars=[p, v, u, irr, irc, icc])


def gim(g, dims, jac):
    """one gaussian (p,v,u,irr,irc,icc) times area on the stamp, fast exponential"""
    return gm1(*g).make_image(dims, jacobian=jac, fast_exp=True)


def image(kind, dims, jac):
    v, u = grid(dims, jac)
    a = area_of(jac)
    sc = np.sqrt(a)

    def ga(T, e1=0.0, e2=0.0, dv=0.0, du=0.0, F=1.0):
        irr, icc, irc = 0.5 * T * (1 - e1) * a, 0.5 * T * (1 + e1) * a, 0.5 * T * e2 * a
        return gm1(F, dv * sc, du * sc, irr, irc, icc).make_image(dims, jacobian=jac, fast_exp=False)
    n = D.noise(dims, 3)
    if kind == 'gauss':
        return ga(5.0)
    if kind == 'ell':
        return ga(6.0, 0.3, -0.25, 0.3, -0.4, 12.0)
    if kind == 'thin':
        return ga(9.0, -0.2, 0.75)
    if kind == 'small':
        return ga(0.5)
    if kind == 'big':
        return ga(60.0, 0.1, 0.1)
    if kind == 'exp':
        return ga(2.0, 0.1, 0.0) + ga(9.0, 0.1, 0.0) + 0.3 * ga(30.0, 0.1, 0.0)
    if kind == 'noisy':
        return ga(6.0, 0.2, 0.1) + 0.003 * n
    if kind == 'lown':
        return ga(6.0, 0.2, 0.1) + 0.03 * n
    if kind == 'noise':
        return n
    if kind == 'offset':
        return ga(5.0, 0, 0, 2.6, -2.2)
    if kind == 'two':
        return ga(4.0, 0, 0, 1.5, -2.5) + 0.8 * ga(4.0, 0, 0, -1.5, 2.5)
    if kind == 'neg':
        return -ga(5.0)
    if kind == 'hollow':
        return ga(1.5) - 0.6 * ga(6.0)
    if kind == 'ring':
        return 1.3 * ga(12.0) - ga(3.0)
    if kind == 'zero':
        return np.zeros(dims)
    if kind == 'flat':
        return np.full(dims, 0.7)
    if kind == 'pixel':
        im = np.zeros(dims)
        im[dims[0] // 2, dims[1] // 2] = 1.0
        return im
    if kind == 'line':
        im = np.zeros(dims)
        im[dims[0] // 2, :] = 1.0
        return im
    if kind == 'nan':
        im = ga(5.0)
        im[dims[0] // 2, dims[1] // 2] = np.nan
        return im
    raise ValueError(kind)


def weight(kind, dims):
    w = np.full(dims, 4.0)
    if kind == 'varied':
        w = 1.0 + np.arange(dims[0] * dims[1]).reshape(dims) % 5
    if kind == 'holes':
        w[0, :] = 0
        w[dims[0] // 2, dims[1] // 2 - 1] = 0
    return w


# ---------------------------------------------------------------------------
# adaptive moments

LOW = 1e-200


def admom_ref(im, wt, jac, guess, conf):
    """
    states of the algorithm, one dict per iteration.  The last one holds the cause of
    stopping: converged, a flag, or None when the limit is reached
    """
    dims = im.shape
    v, u = grid(dims, jac)
    use = wt > 0
    v, u, val, var = v[use], u[use], im[use], 1.0 / wt[use]
    p, row, col, irr, irc, icc = guess
    row0, col0 = row, col
    old = (np.nan,) * 3
    out = []
    for it in range(conf['maxiter']):
        st = dict(stop=None, margin=False, sums=None)
        out.append(st)

        def near(x, lim, scale):
            if abs(x - lim) <= 1e-7 * scale:
                st['margin'] = True
        det = irr * icc - irc * irc
        if det < LOW:
            st['stop'] = FL.LOW_DET
            return out
        if not irr + icc > LOW:
            st['stop'] = FL.GMIX_RANGE_ERROR
            return out
        w = gim((p, row, col, irr, irc, icc), dims, jac)[use]
        F = (w * val).sum()
        near(F, 0.0, np.abs(w * val).sum())
        if np.abs(w * val).sum() == 0:
            st['margin'] = False
        if F <= 0:
            st['stop'] = FL.NONPOS_FLUX
            return out
        row, col = (w * val * v).sum() / F, (w * val * u).sum() / F
        sh = conf['shiftmax']
        near(abs(row - row0), sh, sh)
        near(abs(col - col0), sh, sh)
        if abs(row - row0) > sh or abs(col - col0) > sh:
            st['stop'] = FL.CEN_SHIFT
            return out
        w = gim((p, row, col, irr, irc, icc), dims, jac)[use]
        dv, du = v - row, u - col
        chi2 = (icc * dv * dv + irr * du * du - 2 * irc * dv * du) / det
        Fs = np.array([v, u, du * du - dv * dv, 2 * dv * du, du * du + dv * dv, np.ones_like(v), chi2 ** 2])
        wd = w * val
        s = (Fs * wd).sum(1)
        sabs = np.abs(Fs * wd).sum(1)
        st['sums'], st['sabs'] = s, sabs
        st['cov'] = (Fs[:, None] * Fs[None] * (w * w * var)).sum(-1)
        st['wsum'] = w.sum()
        st['wt'] = (row, col, irr, irc, icc)
        st['npix'] = use.sum()
        near(s[5], 0.0, sabs[5])
        if s[5] <= 0:
            st['stop'] = FL.NONPOS_FLUX
            return out
        M1, M2, T = s[2] / s[5], s[3] / s[5], s[4] / s[5]
        near(T, 0.0, sabs[4] / s[5])
        if T <= 0:
            st['stop'] = FL.NONPOS_SIZE
            return out
        e1, e2 = M1 / T, M2 / T
        d = (abs(e1 - old[0]), abs(e2 - old[1]), abs(T / old[2] - 1))
        for x, lim in zip(d, (conf['etol'], conf['etol'], conf['Ttol'])):
            near(x, lim, 1e4 * lim if lim < 1e-8 else lim)
        if d[0] < conf['etol'] and d[1] < conf['etol'] and d[2] < conf['Ttol']:
            st['stop'] = 'converged'
            return out
        if not conf['cenonly']:
            mrr, mcc, mrc = 0.5 * (T - M1), 0.5 * (T + M1), 0.5 * M2
            detm = mrr * mcc - mrc * mrc
            near(detm, 0.0, abs(mrr * mcc))
            if detm <= LOW or det <= LOW:
                st['stop'] = FL.LOW_DET
                return out
            nrr, ncc, nrc = mcc / detm - icc / det, mrr / detm - irr / det, -mrc / detm + irc / det
            detn = nrr * ncc - nrc * nrc
            near(detn, 0.0, abs(mcc / detm * mrr / detm) + abs(icc / det * irr / det))
            if detn <= LOW:
                st['stop'] = FL.LOW_DET
                return out
            irr, icc, irc = ncc / detn, nrr / detn, -nrc / detn
        old = (e1, e2, T)
    return out


CAUSES = {FL.LOW_DET, FL.NONPOS_FLUX, FL.CEN_SHIFT, FL.NONPOS_SIZE}


def e2g(e1, e2):
    e = np.hypot(e1, e2)
    if e == 0:
        return 0.0, 0.0
    g = np.tanh(0.5 * np.arctanh(e))
    return e1 * g / e, e2 * g / e


def check_admom_ok(res, st, jac, rec, what):
    """everything reported by a good run"""
    row, col, irr, irc, icc = st['wt']
    T = irr + icc
    F = st['sums'][5]
    norm = 1 / (2 * np.pi * np.sqrt(irr * icc - irc ** 2))
    want = dict(T=T, e1=(icc - irr) / T, e2=2 * irc / T, flux_mean=F / st['wsum'],
                flux=F / (area_of(jac) * norm * st['wsum']), rho4=st['sums'][6] / F)

    def ratio(a, b):
        s, c = st['sums'], st['cov']
        r = s[a] / s[b]
        x = (c[a, a] + r * r * c[b, b] - 2 * r * c[a, b]) / s[b] ** 2
        return np.sqrt(max(x, 0)), 1e-12 * (c[a, a] + r * r * c[b, b]) / s[b] ** 2
    for k in want:
        rec.eval()
        if not np.isclose(res[k], want[k], rtol=2e-5, atol=2e-6 * (T if k == 'T' else 1)):
            rec.fail('admom-value:%s' % k, '%s: %s=%s, expected %s' % (what, k, res[k], want[k]))
    for k, fac, (w, tol) in (('T_err', 4, ratio(4, 5)), ('rho4_err', 4, ratio(6, 5)),
                             ('e1err', 2, ratio(2, 4)), ('e2err', 2, ratio(3, 4))):
        if not abs((res[k] / fac) ** 2 - w ** 2) <= tol + 1e-4 * w ** 2:
            rec.fail('admom-value:%s' % k, '%s: %s=%s, expected %s' % (what, k, res[k], fac * w))
    ferr = np.sqrt(st['cov'][5, 5]) / (area_of(jac) * norm * st['wsum'])
    for k, w in (('flux_err', ferr), ('s2n', want['flux'] / ferr)):
        if not np.isclose(res[k], w, rtol=5e-5):
            rec.fail('admom-value:%s' % k, '%s: %s=%s, expected %s' % (what, k, res[k], w))
    if not (np.allclose(res['e'], [res['e1'], res['e2']], rtol=0, atol=0)
            and np.array_equal(res['e_err'], [res['e1err'], res['e2err']])
            and np.allclose(res['e_cov'], np.diag(np.square(res['e_err'])), rtol=1e-12, atol=0)):
        rec.fail('admom-shape-fields', '%s: e %s e_err %s' % (what, res['e'], res['e_err']))
    # the mixture says the same
    g = res.get_gmix()
    gp = g.get_full_pars()
    wantg = [1.0, row, col, irr, irc, icc]
    if len(gp) != 6 or not np.allclose(gp, wantg, rtol=2e-5, atol=2e-6 * max(T, np.sqrt(T))):
        rec.fail('admom-gmix', '%s: mixture %s, expected %s' % (what, gp.tolist(), wantg))
    if not np.allclose(g.get_e1e2T(), [res['e1'], res['e2'], res['T']], rtol=1e-7, atol=1e-9):
        rec.fail('admom-gmix-agree', '%s: %s' % (what, g.get_e1e2T()))
    if not (T > 0 and irr * icc > irc * irc and np.all(np.isfinite(gp))):
        rec.fail('admom-gmix-size', '%s: %s' % (what, gp))
    p = res['pars']
    if not np.allclose(p[:5], [gp[1], gp[2], res['e1'] * T, res['e2'] * T, res['T']], rtol=1e-4, atol=1e-5 * T):
        rec.fail('admom-pars', '%s: pars %s' % (what, p))
    for f in ('flux_flags', 'T_flags', 'rho4_flags'):
        if res[f]:
            rec.fail('admom-part-flags', '%s: %s=%s' % (what, f, res[f]))


def check_admom(res, out, conf, jac, im, rec, what, strict=True):
    """one run against the reference trace cut at maxiter"""
    k = conf['maxiter']
    st = out[-1]
    stop = st['stop']
    n = len(out)
    rec.eval()
    rec.trace()
    full = n == k
    rec.outcome('%s%s' % (stop, '/last' if full and stop else ''))
    if res['numiter'] != n and stop != FL.GMIX_RANGE_ERROR:
        rec.fail('admom-numiter', '%s: %s iterations, expected %s (%s)' % (what, res['numiter'], n, stop))
        return
    fl = res['flags']
    if stop == 'converged' and not full:
        if fl != 0:
            rec.fail('admom-flags', '%s: flags %s (%s), expected convergence' % (what, fl, res['flagstr']))
            return
    elif stop == 'converged':
        if fl not in (0, FL.MAXITER):
            rec.fail('admom-flags', '%s: flags %s (%s), converged on the last iteration' % (what, fl, res['flagstr']))
            return
    elif stop is None:
        if fl & FL.MAXITER == 0 or fl & ~(FL.MAXITER | FL.NONPOS_VAR):
            rec.fail('admom-flags', '%s: flags %s (%s), expected the iteration limit' % (what, fl, res['flagstr']))
    else:
        # a failure names its cause; failing also on the variance because nothing was
        # summed, or on the limit, is fine
        if fl & stop == 0 or fl & ~(stop | FL.NONPOS_VAR | (FL.MAXITER if full else 0)):
            rec.fail('admom-cause', '%s: flags %s (%s), expected %s' % (
                what, fl, res['flagstr'], FL.get_flags_str(stop)))
    if res['flagstr'] != FL.get_flags_str(fl):
        rec.fail('admom-flagstr', '%s: %r' % (what, res['flagstr']))
    if st['sums'] is not None and st['stop'] != FL.CEN_SHIFT:
        for a, b, tol in ((res['sums'], st['sums'], 1e-6 * st['sabs'] + 1e-12 * st['sabs'].max() + 1e-300),
                          (res['sums_cov'], st['cov'], 1e-5 * np.sqrt(np.outer(np.diagonal(st['cov']), np.diagonal(st['cov']))) + 1e-12 * st['cov'].max() + 1e-300),
                          (res['wsum'], st['wsum'], 1e-6 * st['wsum']), (res['sums_norm'], st['wsum'], 1e-6 * st['wsum']), (res['npix'], st['npix'], 0)):
            if not np.all(np.abs(np.asarray(a) - b) <= tol):
                rec.fail('admom-sums', '%s: %s, expected %s' % (what, np.asarray(a).tolist(), np.asarray(b).tolist()))
                break
    if fl == 0:
        check_admom_ok(res, st, jac, rec, what)
    else:
        check_admom_failed(res, rec, what)


def check_admom_failed(res, rec, what):
    for f in (res.get_gmix, res.make_image):
        try:
            f()
            rec.fail('admom-failed-mixture', '%s: flags %s but a mixture' % (what, res['flags']))
        except RuntimeError:
            pass
    for k in ('e1', 'e2', 'e1err', 'e2err', 'e', 'e_err'):
        if np.any(np.isfinite(res[k])):
            rec.fail('admom-failed-values', '%s: flags %s but %s=%s' % (what, res['flags'], k, res[k]))
    for k in ('flux', 'T', 'rho4'):
        if res['flags'] & ~FL.NONPOS_VAR and (np.isfinite(res[k]) or res[k + '_flags'] == 0):
            rec.fail('admom-failed-parts', '%s: flags %s but %s=%s, flags %s' % (
                what, res['flags'], k, res[k], res[k + '_flags']))


GUESSES = {
    'good': (1.0, 0.0, 0.0, 2.5, 0.0, 2.5), 'small': (1.0, 0.1, -0.1, 0.4, 0.0, 0.4),
    'large': (3.0, 0.0, 0.0, 20.0, 0.0, 20.0), 'ell': (0.5, 0.2, 0.1, 3.0, 1.2, 2.0),
    'off': (1.0, -1.0, 1.2, 2.5, 0.0, 2.5), 'flat': (1.0, 0.0, 0.0, 2.0, 2.0, 2.0),
}
CONFS = [dict(shiftmax=5.0, etol=1e-5, Ttol=1e-3), dict(shiftmax=5.0, etol=1e-2, Ttol=1e-1),
         dict(shiftmax=0.25, etol=1e-5, Ttol=1e-3), dict(shiftmax=5.0, etol=1e-7, Ttol=1e-6)]


def k_admom(case, rec):
    dims = tuple(case['dims'])
    jac = jacobian(case['jac'], (dims[0] - 1) / 2.0 + 0.2, (dims[1] - 1) / 2.0 - 0.3)
    a = area_of(jac)
    sc = np.sqrt(a)
    im = image(case['im'], dims, jac)
    for wk in case['wts']:
        wt = weight(wk, dims)
        obs = ngmix.Observation(im, weight=wt, jacobian=jac)
        before = D.snap(obs)
        for gk, base, cenonly in itertools.product(case['guesses'], CONFS, (False, True)):
            conf = dict(base, cenonly=cenonly, maxiter=case['maxiter'])
            conf['shiftmax'] = base['shiftmax'] * sc
            g = np.array(GUESSES[gk])
            g = (g[0], g[1] * sc, g[2] * sc, g[3] * a, g[4] * a, g[5] * a)
            guess = gm1(*g)
            gsnap = guess.get_full_pars()
            what = '%s/%s guess %s shiftmax %s etol %s cenonly %s' % (
                case['im'], wk, gk, base['shiftmax'], base['etol'], cenonly)
            out = admom_ref(im, wt, jac, g, conf)
            rec.state(fp(case, wk, gk, base, cenonly))
            n = len(out)
            ks = sorted(set(range(1, min(n + 2, case['prefix']) + 1)) | {n - 1, n, n + 1, conf['maxiter']})
            last = None
            for k in ks:
                if k < 1 or k > conf['maxiter']:
                    continue
                fitter = AdmomFitter(**dict(conf, maxiter=k))
                res = fitter.go(obs, guess)
                rec.trans()
                part = out[:k]
                if any(s['margin'] for s in part):
                    rec.outcome('not compared: a decision within rounding')
                    continue
                check_admom(res, part, dict(conf, maxiter=k), jac, im, rec, '%s maxiter %d' % (what, k))
                last = res
                # the fitter can be used again
                again = fitter.go(obs, guess)
                if not same(dict(res), dict(again)):
                    rec.fail('admom-again', '%s: second run of the fitter differs' % what)
            if D.diff(before, D.snap(obs)) or not np.array_equal(gsnap, guess.get_full_pars()):
                rec.fail('admom-input', what)
            if last is not None and last['flags'] == 0 and case['im'] in SMOOTH and base['etol'] < 1e-4:
                # a fixed point
                r2 = AdmomFitter(**conf).go(obs, last.get_gmix())
                rec.trans()
                tolT = 3 * conf['Ttol'] + 1e-6
                tole = 3 * conf['etol'] + 3 * conf['Ttol'] + 1e-6
                # (with a fixed weight only the moments converge, not the centre)
                if r2['flags'] or r2['numiter'] > (conf['maxiter'] if cenonly else 5) or abs(r2['T'] / last['T'] - 1) > tolT \
                        or np.abs(r2['e'] - last['e']).max() > tole:
                    rec.fail('admom-fixed-point', '%s: rerun flags %s, %s iterations, T %s -> %s, e %s -> %s' % (
                        what, r2['flags'], r2['numiter'], last['T'], r2['T'], last['e'], r2['e']))
                # the flux of the guess means nothing
                r3 = AdmomFitter(**conf).go(obs, gm1(g[0] * 4.0, *g[1:]))
                for q in ('flux', 'flux_err', 'T', 'T_err', 'e1', 's2n', 'rho4'):
                    if not np.isclose(r3[q], last[q], rtol=1e-9, atol=1e-12):
                        rec.fail('admom-guess-flux', '%s: %s %s -> %s' % (what, q, last[q], r3[q]))
                img = last.make_image()
                wantim = last.get_gmix()
                wantim.set_flux(im[wt > 0].sum())
                if img.shape != dims or not np.allclose(img, wantim.make_image(dims, jacobian=jac), rtol=1e-9, atol=1e-13):
                    rec.fail('admom-image', what)
            if len(rec.fails) > 30:
                return


SMOOTH = ('gauss', 'ell', 'thin', 'exp', 'offset')


def same(a, b):
    if a.keys() != b.keys():
        return False
    return all(np.array_equal(np.asarray(a[k]), np.asarray(b[k]),
                              equal_nan=np.asarray(a[k]).dtype.kind == 'f') for k in a)


def k_admomnan(case, rec):
    """images with NaN, for which the reference has nothing to say but 'failed'"""
    dims = (11, 12)
    jac = jacobian(case['jac'], 5.1, 5.4)
    a = area_of(jac)
    base = image('gauss', dims, jac)
    for (r, c), val, cen, mi in itertools.product(
            [(5, 5), (0, 0), (10, 11), (4, 6)], (np.nan, np.inf, -np.inf), (False, True), (1, 2, 3, 20)):
        im = base.copy()
        im[r, c] = val
        obs = ngmix.Observation(im, weight=np.ones(dims), jacobian=jac)
        res = AdmomFitter(maxiter=mi, cenonly=cen).go(obs, gm1(1, 0, 0, 3 * a, 0, 3 * a))
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case['jac'], r, c, str(val), cen, mi))
        rec.outcome(int(res['flags']))
        what = 'pixel %s,%s is %s, cenonly %s, maxiter %s' % (r, c, val, cen, mi)
        if res['flags'] == 0:
            vals = [res[k] for k in ('flux', 'T', 'e1', 'e2')]
            if not np.all(np.isfinite(vals)):
                rec.fail('admom-nan', '%s: flags 0 but %s' % (what, vals))
        else:
            check_admom_failed(res, rec, what)


class Scripted(np.random.RandomState):
    """answers uniform() from a script of fractions of the range"""
    def __init__(self, fracs):
        super().__init__(1)
        self.fracs, self.i, self.calls = fracs, 0, []

    def uniform(self, low=0.0, high=1.0, size=None):
        n = 1 if size is None else int(np.prod(size))
        f = np.array([self.fracs[(self.i + j) % len(self.fracs)] for j in range(n)])
        self.i += n
        r = low + (high - low) * f
        self.calls.append(r)
        return float(r[0]) if size is None else r.reshape(size)


def k_admomT(case, rec):
    """size guesses: the mixture is drawn around the request, and the run is that of the mixture"""
    dims = (17, 18)
    jac = jacobian(case['jac'], 8.2, 8.4)
    a = area_of(jac)
    sc = np.sqrt(a)
    obs = ngmix.Observation(image(case['im'], dims, jac), weight=weight('varied', dims), jacobian=jac)
    for fr in itertools.product((0.0, 0.5, 1.0), repeat=3):
        T = 5.0 * a
        rng = Scripted(list(fr))
        fitter = AdmomFitter(rng=rng)
        res = fitter.go(obs, T)
        rec.trans()
        rec.trace()
        rec.state(fp(case, fr))
        draws = np.concatenate([np.atleast_1d(c) for c in rng.calls])
        if len(draws) != 5:
            continue   # drawn differently; nothing to replay
        pars = [draws[0], draws[1], draws[2], draws[3], T * (1 + draws[4]), 1.0]
        if np.abs(draws[:2]).max() > 0.5 * sc * 1.0001 or np.hypot(*draws[2:4]) > 0.43:
            rec.fail('admom-guess', 'draws %s' % draws)
        res2 = AdmomFitter().go(obs, ngmix.GMixModel(pars, 'gauss'))
        rec.trans()
        rec.eval()
        rec.outcome(int(res['flags']))
        for k in ('flags', 'numiter', 'T', 'e1', 'e2', 'flux'):
            if not np.isclose(res[k], res2[k], rtol=1e-9, atol=1e-12, equal_nan=True):
                rec.fail('admom-T-guess', '%s %s: %s=%s, from the mixture %s' % (case, fr, k, res[k], res2[k]))
    # the same random state, the same answer
    rs = [AdmomFitter(rng=np.random.RandomState(9)).go(obs, 5.0 * a) for _ in range(2)]
    if not same(dict(rs[0]), dict(rs[1])):
        rec.fail('admom-rng', str(case))
    # without a random state: its own one, the global generator is not used
    np.random.seed(77)
    st = np.random.get_state()
    AdmomFitter().go(obs, 5.0 * a)
    if not np.array_equal(st[1], np.random.get_state()[1]) or st[2:] != np.random.get_state()[2:]:
        rec.fail('admom-global-rng', str(case))
    # a guess of any class of mixture with one gaussian
    pars = [0.1 * sc, -0.2 * sc, 0.1, -0.05, 5.0 * a, 3.0]
    m = ngmix.GMixModel(pars, 'gauss')
    want = AdmomFitter().go(obs, m)
    for g in (ngmix.GMix(pars=m.get_full_pars()), ngmix.gmix.GMixCoellip(pars), m.copy(), m.get_sheared(0.0, 0.0)):
        r = AdmomFitter().go(obs, g)
        rec.trans()
        for k in ('flags', 'numiter', 'T', 'e1', 'e2', 'flux'):
            if not np.isclose(r[k], want[k], rtol=1e-9, atol=1e-12, equal_nan=True):
                rec.fail('admom-guess-class', '%s guess %s: %s=%s, expected %s' % (case, type(g).__name__, k, r[k], want[k]))
    for bad in (ngmix.ObsList(), None, obs.image):
        try:
            AdmomFitter().go(bad, m)
            rec.fail('admom-obs-type', '%s: %s accepted' % (case, type(bad).__name__))
        except ValueError:
            pass


def k_findcen(case, rec):
    dims = (19, 18)
    jac = jacobian(case['jac'], 9.2, 8.4)
    a = area_of(jac)
    sc = np.sqrt(a)
    im = image(case['im'], dims, jac)
    obs = ngmix.Observation(im, weight=weight('const', dims), jacobian=jac)
    v, u = grid(dims, jac)
    for how, shift, maxiter, ntry in itertools.product(
            ('fwhm', 'gmix'), (5.0, 0.3), (60, 2), (1, 2, 3)):
        for fr in itertools.product((0.05, 0.95), repeat=2) if ntry > 1 else [(0.5, 0.5)]:
            kw = dict(maxiter=maxiter, shiftmax=shift * sc, etol=1e-6, Ttol=1e-5)
            wt = gm1(1.0, 0.0, 0.0, 3.0 * a, 0.0, 3.0 * a)
            fwhm = np.sqrt(3.0 * a) * 2.3548200450309493
            start = wt.copy()
            if how == 'gmix':
                start = gm1(1.0, 0.4 * sc, -0.2 * sc, 3.0 * a, 0.5 * a, 2.5 * a)
            cov = start.get_full_pars()[3:]
            rng = Scripted(list(fr))
            before = start.get_full_pars()
            res = find_cen_admom(obs, ntry=ntry, rng=rng if ntry > 1 else None,
                                 **dict(kw, **({'fwhm': fwhm} if how == 'fwhm' else {'gmix': start})))
            rec.trans()
            rec.trace()
            rec.state(fp(case, how, shift, maxiter, ntry, fr))
            what = '%s %s shiftmax %s maxiter %s ntry %s draws %s' % (case['im'], how, shift, maxiter, ntry, fr)
            if not np.array_equal(before, start.get_full_pars()):
                rec.fail('findcen-input', what)
            # replay the attempts
            cens = [(before[1], before[2]) if how == 'gmix' else (0.0, 0.0)]
            cens += [tuple(np.atleast_1d(c)) for c in rng.calls]
            good = False
            for i, cen in enumerate(cens[:ntry]):
                g = (1.0,) + tuple(cen) + tuple(cov)
                out = admom_ref(im, weight('const', dims), jac, g, dict(kw, cenonly=True))
                if any(s['margin'] for s in out):
                    good = None
                    break
                if out[-1]['stop'] == 'converged' and len(out) < maxiter:
                    good = True
                    break
            if good is None:
                rec.outcome('not compared: a decision within rounding')
                continue
            rec.eval()
            rec.outcome('%s/%d' % (good, i))
            if good != (res['flags'] == 0):
                rec.fail('findcen-status', '%s: flags %s, attempts %s' % (what, res['flags'], cens[:ntry]))
                continue
            if good:
                if not np.allclose(res['cen'], out[-1]['wt'][:2], rtol=1e-6, atol=1e-6 * sc):
                    rec.fail('findcen-value', '%s: %s, expected %s' % (what, res['cen'], out[-1]['wt'][:2]))
            elif np.shape(res['cen']) != (2,) or np.any(np.isfinite(res['cen'])):
                rec.fail('findcen-failed', '%s: cen %s' % (what, res['cen']))
    for kw in (dict(), dict(ntry=2, fwhm=1.0)):
        try:
            find_cen_admom(obs, **kw)
            rec.fail('findcen-args', str(kw))
        except ValueError:
            pass


# ---------------------------------------------------------------------------
# EM

FITTERS = {'full': EMM.EMFitter, 'cen': EMM.EMFitterFixCen, 'cov': EMM.EMFitterFixCov,
           'flux': EMM.EMFitterFluxOnly}


class Range(Exception):
    pass


def em_ref(im, wt, jac, guess, psf, sky, conf, variant):
    """
    the states after each iteration: list of (mixture array, sky, fdiff), and why it ended.
    guess, psf: (n,6) arrays, the psf with unit flux and one centre
    """
    dims = im.shape
    v, u = grid(dims, jac)
    val = im.copy()
    zero = wt <= 0
    g = guess.copy()
    pc = (psf[:, 0:1] * psf[:, 1:3]).sum(0) / psf[:, 0].sum()
    d = psf[:, 1:3] - pc
    pcov = np.array([(psf[:, 0] * (psf[:, 3] + d[:, 0] ** 2)).sum(), (psf[:, 0] * (psf[:, 4] + d[:, 0] * d[:, 1])).sum(),
                     (psf[:, 0] * (psf[:, 5] + d[:, 1] ** 2)).sum()]) / psf[:, 0].sum()
    last = -9999.9e9 if variant != 'flux' else g[:, 0].sum()
    out = []
    for it in range(conf['maxiter']):
        comp = []
        for i in range(len(g)):
            for q in psf:
                c = (g[i, 0] * q[0] / psf[:, 0].sum(), g[i, 1] + q[1] - pc[0], g[i, 2] + q[2] - pc[1],
                     g[i, 3] + q[3], g[i, 4] + q[4], g[i, 5] + q[5])
                det = c[3] * c[5] - c[4] ** 2
                if not det >= LOW or not c[3] + c[5] > LOW:
                    raise Range
                dv, du = v - c[1], u - c[2]
                chi2 = (c[5] * dv * dv + c[3] * du * du - 2 * c[4] * dv * du) / det
                comp.append((i, gim(c, dims, jac), dv, du, chi2, c[0], det))
        gsum = sum(x[1] for x in comp)
        val = np.where(zero, gsum + sky, val)
        gtot = gsum + sky
        if np.any(gtot == 0):
            raise Range
        f = val / gtot
        n = len(g)
        new = g.copy()
        for i in range(n):
            mine = [x for x in comp if x[0] == i]
            p = sum((x[1] * f).sum() for x in mine)
            if p == 0:
                raise Range
            new[i, 0] = p
            if variant in ('full', 'cov'):
                new[i, 1] = sum((x[1] * f * v).sum() for x in mine) / p
                new[i, 2] = sum((x[1] * f * u).sum() for x in mine) / p
            if variant in ('full', 'cen'):
                irr = sum((x[1] * f * x[2] ** 2).sum() for x in mine) / p - pcov[0]
                irc = sum((x[1] * f * x[2] * x[3]).sum() for x in mine) / p - pcov[1]
                icc = sum((x[1] * f * x[3] ** 2).sum() for x in mine) / p - pcov[2]
                if min(abs(irr), abs(icc)) < 1e-9 or abs(irr * icc - irc ** 2) < 1e-9 * abs(irr * icc):
                    out.append(None)
                    return out, 'margin'
                if irr < 0 or icc < 0:
                    irr, irc, icc = 1e-4, 0.0, 1e-4
                if irr * icc - irc ** 2 < LOW:
                    irr = icc = (irr + icc) / 2
                    irc = 0.0
                new[i, 3:] = irr, irc, icc
        with np.errstate(all='ignore'):
            if variant == 'flux':
                logl = new[:, 0].sum()
                fd = abs(logl / last - 1)
            else:
                num = sum(x[1] * (np.log(x[5]) - 0.5 * np.log(x[6]) - 0.5 * x[4]) for x in comp)
                logl = np.where(gsum == 0, 0.0, num / np.where(gsum == 0, 1.0, gsum)).sum()
                fd = abs((logl - last) / logl)
        skysum = (sky * f).sum()
        g = new
        if conf['vary_sky']:
            sky = skysum / val.size
        out.append((g.copy(), sky, fd))
        if it + 1 >= conf['miniter']:
            if logl == 0.0 and variant != 'flux':
                raise Range
            if fd < conf['tol']:
                return out, 'margin' if abs(fd - conf['tol']) < 1e-3 * conf['tol'] else 'converged'
            if abs(fd - conf['tol']) < 1e-3 * conf['tol']:
                return out, 'margin'
        last = logl
    return out, 'maxiter'


def em_ref_stable(im, wt, jac, guess, psf, sky, conf, variant):
    """em_ref; 'margin' when a change of 1e-7 in the guess shows in the answer"""
    both = []
    for eps in (0.0, 1e-7):
        g = guess.copy()
        g[:, 0] *= 1 + eps
        if variant in ('full', 'cen'):
            g[:, 3] *= 1 + eps
        try:
            both.append(em_ref(im, wt, jac, g, psf, sky, conf, variant))
        except Range:
            both.append(([], 'range'))
    (t, w), (t2, w2) = both
    if w != w2 or len(t) != len(t2):
        return t, 'margin'
    if t and (t[-1] is None or t2[-1] is None):
        return t, 'margin'
    if t and not (np.allclose(t[-1][0], t2[-1][0], rtol=1e-5, atol=1e-6 * np.abs(t[-1][0]).max(), equal_nan=True)
                  and np.isclose(t[-1][1], t2[-1][1], rtol=1e-6)):
        return t, 'margin'
    return t, w


def em_mix(n, a, sc, which):
    base = np.array([[0.6, 0.3, -0.2, 2.0, 0.2, 1.6], [0.4, -1.2, 1.4, 3.0, -0.5, 3.5], [0.25, 1.5, 1.1, 1.2, 0.0, 1.4]])[:n].copy()
    if which == 'guess':
        base[:, 0] *= np.array([1.2, 0.7, 1.1])[:n]
        base[:, 1:3] += np.array([[0.2, 0.1], [-0.2, 0.3], [0.1, -0.2]])[:n]
        base[:, 3] *= 1.4
        base[:, 5] *= 1.2
    if which == 'zerof':
        base[0, 0] = 1e-9
    base[:, 1:3] *= sc
    base[:, 3:] *= a
    return base


PSFS = {'none': None, 'one': [[1.0, 0, 0, 0.8, 0.1, 0.9]], 'two': [[0.7, 0, 0, 0.7, 0.0, 0.7], [0.5, 0, 0, 2.0, 0.2, 1.8]],
        'off': [[2.0, 0.3, -0.2, 0.8, 0.1, 0.9]], 'big': [[1.0, 0, 0, 5.0, 0.0, 5.0]]}


def em_setup(case):
    dims = tuple(case['dims'])
    jac = jacobian(case['jac'], (dims[0] - 1) / 2.0 + 0.2, (dims[1] - 1) / 2.0 - 0.3)
    a = area_of(jac)
    sc = np.sqrt(a)
    psf = PSFS[case['psf']]
    if psf is not None:
        psf = np.array(psf)
        psf[:, 1:3] *= sc
        psf[:, 3:] *= a
    true = em_mix(case['nt'], a, sc, 'true')
    tg = ngmix.GMix(pars=true.ravel())
    kw = {}
    if psf is not None:
        pg = ngmix.GMix(pars=psf.ravel())
        unit = psf.copy()
        unit[:, 0] /= psf[:, 0].sum()
        u0 = unit.copy()
        u0[:, 1:3] -= (unit[:, :1] * unit[:, 1:3]).sum(0)
        tg = tg.convolve(ngmix.GMix(pars=u0.ravel()))
        pj = jacobian(case['jac'], 3.0, 3.0)
        kw['psf'] = ngmix.Observation(pg.make_image((7, 7), jacobian=pj), jacobian=pj, gmix=pg)
    im = case.get('scale', 1.0) * tg.make_image(dims, jacobian=jac)
    if case.get('noise'):
        im = im + case['noise'] * im.max() * D.noise(dims, 5)
    return dims, jac, a, sc, psf, im, kw


def psf_unit(psf):
    if psf is None:
        return np.array([[1.0, 0, 0, 0, 0, 0]])
    u = psf.copy()
    u[:, 0] /= psf[:, 0].sum()
    return u


def closemix(got, want, a, flux):
    tol = np.array([1e-5 * flux, 1e-5 * np.sqrt(a), 1e-5 * np.sqrt(a), 1e-5 * a, 1e-5 * a, 1e-5 * a])
    got = np.asarray(got).reshape(-1, 6)
    return got.shape == want.shape and bool(np.all(np.abs(got - want) <= tol * 5 + 1e-5 * np.abs(want)))


def k_em(case, rec):
    dims, jac, a, sc, psf, im, kw = em_setup(case)
    flux = abs(im.sum())
    for sk, wk in itertools.product(('auto', 'given', 'low'), ('ones', 'zeros')):
        if wk == 'zeros' and sk == 'auto':
            continue
        wt = np.full(dims, 3.0)
        if sk == 'auto':
            data, sky = im, None
            work, wsky = EMM.prep_image(im)
            span = im.max() - im.min()
            if not (np.allclose(work - wsky, im, rtol=0, atol=1e-12 * span) and abs(work.min() - 0.001 * span) < 1e-9 * span):
                rec.fail('em-prep', '%s: min %s sky %s' % (case, work.min(), wsky))
        else:
            wsky = (2.0 if sk == 'given' else 0.05) * np.abs(im).max() + max(0.0, -im.min())
            sky = wsky
            data = work = im + wsky
        if wk == 'zeros':
            wt[dims[0] // 2, dims[1] // 2] = 0.0
            wt[1, 2] = 0.0
            data = data.copy()
            data[wt == 0] = 77.0 * flux
            work = data
        obs = ngmix.Observation(data, weight=wt, jacobian=jac, ignore_zero_weight=False, **kw)
        before = D.snap(obs)
        for variant, vs in itertools.product(FITTERS, (False, True)):
            for ng, gk in [(case['nt'], 'guess')] + ([(case['nt'], 'zerof')] if case['nt'] > 1 else []) + ([(1, 'true')] if case['nt'] > 1 else [(2, 'guess')]):
                guess = em_mix(ng, a, sc, gk)
                gm = ngmix.GMix(pars=guess.ravel())
                what = '%s sky %s weights %s vary_sky %s guess %d %s' % (variant, sk, wk, vs, ng, gk)
                em_one(case, rec, obs, work, wt, jac, a, sc, psf, sky, wsky, variant, vs, guess, gm, what, flux)
                if not np.array_equal(gm.get_full_pars(), guess.ravel()):
                    rec.fail('em-guess', what)
                if len(rec.fails) > 30:
                    return
        if D.diff(before, D.snap(obs)):
            rec.fail('em-input', '%s: %s' % (what, D.diff(before, D.snap(obs))))


def em_one(case, rec, obs, work, wt, jac, a, sc, psf, sky, wsky, variant, vs, guess, gm, what, flux):
    cls = FITTERS[variant]
    conf = dict(miniter=case['k'], maxiter=case['k'], tol=1e-9, vary_sky=vs)
    rec.state(fp(case, what))
    pu = psf_unit(psf)
    try:
        out, why = em_ref(work, wt, jac, guess, pu, wsky, conf, variant)
    except Range:
        out, why = [], 'range'
    plans = [dict(miniter=k, maxiter=k, tol=1e-9, vary_sky=vs) for k in range(1, case['k'] + 1)]
    plans += [dict(miniter=mi, maxiter=mx, tol=tol, vary_sky=vs) for mi, mx, tol in case['runs']]
    for conf in plans:
        if conf['maxiter'] <= case['k'] and conf['miniter'] == conf['maxiter']:
            tr, w = out[:conf['maxiter']], why
            if len(tr) < conf['maxiter']:
                w = why
            else:
                w = 'maxiter'
            if tr and tr[-1] is None:
                w = 'margin'
        else:
            tr, w = em_ref_stable(work, wt, jac, guess, pu, wsky, conf, variant)
        fitter = cls(**conf)
        res = fitter.go(obs, gm, sky=sky) if sky is not None else fitter.go(obs, gm)
        rec.trans()
        wh = '%s %s' % (what, conf)
        if w == 'margin':
            rec.outcome('not compared: a decision within rounding')
            continue
        rec.trace()
        rec.eval()
        if w == 'converged' and len(tr) >= conf['maxiter']:
            w = 'last'
        rec.outcome('%s/%s' % (variant, w))
        if w == 'range':
            if res['flags'] == 0:
                rec.fail('em-range', '%s: flags 0' % wh)
            check_em_failed(res, rec, wh)
            continue
        n = len(tr)
        g, s, fd = tr[-1]
        ok = np.all(np.isfinite(g))
        if w == 'converged' and (res['flags'] != 0 or res['message'] != 'OK'):
            rec.fail('em-flags', '%s: flags %s %s, converged after %d' % (wh, res['flags'], res['message'], n))
        if w == 'maxiter' and res['flags'] != FL.EM_MAXITER:
            rec.fail('em-flags', '%s: flags %s, expected the iteration limit' % (wh, res['flags']))
        if w == 'last' and res['flags'] not in (0, FL.EM_MAXITER):
            rec.fail('em-flags', '%s: flags %s' % (wh, res['flags']))
        if 'numiter' not in res or not ok:
            if ok:
                rec.fail('em-result', '%s: %s' % (wh, dict(res)))
            continue
        if res['numiter'] != n:
            rec.fail('em-numiter', '%s: %s iterations, expected %s' % (wh, res['numiter'], n))
            continue
        if not np.isclose(res['sky'], s, rtol=1e-6):
            rec.fail('em-sky', '%s: sky %s, expected %s' % (wh, res['sky'], s))
        if np.isfinite(fd) and n >= conf['miniter'] and not np.isclose(res['fdiff'], fd, rtol=1e-3, atol=1e-8):
            rec.fail('em-fdiff', '%s: fdiff %s, expected %s' % (wh, res['fdiff'], fd))
        got = res.get_gmix().get_full_pars()
        if not closemix(got, g, a, flux):
            rec.fail('em-mixture', '%s: %s, expected %s' % (wh, got.reshape(-1, 6).tolist(), g.tolist()))
            continue
        check_em_ok(res, g, guess, variant, vs, psf, work, wt, jac, a, wsky, obs, rec, wh, flux)


def check_em_ok(res, ref, guess, variant, vs, psf, work, wt, jac, a, wsky, obs, rec, wh, flux):
    gm = res.get_gmix()
    g = gm.get_full_pars().reshape(-1, 6)
    if res['flags'] == 0:
        if not (np.all(np.isfinite(g)) and np.all(g[:, 3] * g[:, 5] - g[:, 4] ** 2 > 0) and np.all(g[:, 3] + g[:, 5] > 0)):
            rec.fail('em-unflagged', '%s: %s' % (wh, g.tolist()))
    # what is fixed is exactly the guess
    if variant in ('cen', 'flux') and not np.array_equal(g[:, 1:3], guess[:, 1:3]):
        rec.fail('em-fixed-cen', '%s: %s' % (wh, g[:, 1:3].tolist()))
    if variant in ('cov', 'flux') and not np.array_equal(g[:, 3:], guess[:, 3:]):
        rec.fail('em-fixed-cov', '%s: %s' % (wh, g[:, 3:].tolist()))
    if not vs and res['sky'] != wsky and not np.isclose(res['sky'], wsky, rtol=1e-12):
        rec.fail('em-fixed-sky', '%s: %s, expected %s' % (wh, res['sky'], wsky))
    # flux is conserved
    if vs and np.all(wt > 0):
        tot = work.sum()
        if not np.isclose(g[:, 0].sum() + res['sky'] * work.size, tot, rtol=1e-9):
            rec.fail('em-conserve', '%s: flux %s sky %s, image sum %s' % (wh, g[:, 0].sum(), res['sky'], tot))
    # convolved mixture and image
    cg = res.get_convolved_gmix()
    if psf is None:
        want = g
    else:
        pu = ngmix.GMix(pars=psf_unit(psf).ravel())
        want = gm.convolve(pu).get_full_pars().reshape(-1, 6)
    c = cg.get_full_pars().reshape(-1, 6)
    if c.shape != want.shape or not np.allclose(c, want, rtol=1e-9, atol=1e-12 * max(1, flux)):
        rec.fail('em-convolved', '%s: %s, expected %s' % (wh, c.tolist(), want.tolist()))
    im = res.make_image()
    if im.shape != work.shape or not np.allclose(im, ngmix.GMix(pars=want.ravel()).make_image(work.shape, jacobian=jac), rtol=1e-7, atol=1e-10 * flux):
        rec.fail('em-image', wh)
    # get_gmix gives copies
    gm.set_flux(3.0)
    if not np.array_equal(res.get_gmix().get_full_pars().reshape(-1, 6), g):
        rec.fail('em-copy', wh)
    cg.set_flux(3.0)
    if not np.array_equal(res.get_convolved_gmix().get_full_pars().reshape(-1, 6), c):
        rec.fail('em-copy', '%s: convolved' % wh)


def check_em_failed(res, rec, what):
    if res['flags'] & FL.EM_RANGE_ERROR:
        for f in (res.get_gmix, res.get_convolved_gmix, res.make_image):
            try:
                f()
                rec.fail('em-failed-mixture', '%s: flags %s but a mixture' % (what, res['flags']))
            except RuntimeError:
                pass
        if res.has_gmix():
            rec.fail('em-has-gmix', what)


def k_emtrue(case, rec):
    """converged runs on noise free images give the truth and the flux of the image, in the original scale"""
    dims, jac, a, sc, psf, im, kw = em_setup(case)
    obs = ngmix.Observation(im, jacobian=jac, **kw)
    flux = im.sum()
    for variant, vs in itertools.product(FITTERS, (False, True)):
        gm = ngmix.GMix(pars=em_mix(case['nt'], a, sc, 'true' if variant != 'full' else 'guess').ravel())
        if variant in ('flux', 'cen', 'cov'):
            gm.set_flux(2.0 * flux)
        fit = FITTERS[variant](tol=1e-10, miniter=40, maxiter=4000, vary_sky=vs)
        res = fit.go(obs, gm)
        rec.trans()
        rec.trace()
        rec.eval(3)
        rec.state(fp(case, variant, vs))
        rec.outcome('%s/%s' % (variant, res['flags']))
        wh = '%s vary_sky %s' % (variant, vs)
        if res['flags']:
            if res['flags'] != FL.EM_MAXITER:
                rec.fail('em-truth-flags', '%s: flags %s %s' % (wh, res['flags'], res['message']))
            continue
        g = res.get_gmix()
        if abs(g.get_flux() / flux - 1) > 0.02:
            rec.fail('em-truth-flux', '%s: flux %s, image %s' % (wh, g.get_flux(), flux))
        mod = res.make_image()
        if np.abs(mod - im).max() > 0.02 * im.max():
            rec.fail('em-truth-image', '%s: off by %s of the peak' % (wh, np.abs(mod - im).max() / im.max()))
        # prepared by hand
        o2, sky = EMM.prep_obs(obs)
        r2 = fit.go(o2, gm, sky=sky)
        if r2['numiter'] != res['numiter'] or not np.allclose(
                r2.get_gmix().get_full_pars(), g.get_full_pars(), rtol=1e-10, atol=1e-12):
            rec.fail('em-prep-obs', wh)
        if (o2.has_psf() != obs.has_psf()) or D.jtuple(o2.jacobian) != D.jtuple(obs.jacobian):
            rec.fail('em-prep-parts', wh)
        # the functional interface
        r3 = EMM.run_em(obs, gm, fixcen=variant == 'cen', fixcov=variant == 'cov', fluxonly=variant == 'flux',
                        tol=1e-10, miniter=40, maxiter=4000, vary_sky=vs)
        if not np.array_equal(r3.get_gmix().get_full_pars(), g.get_full_pars()):
            rec.fail('em-function', wh)


def k_embad(case, rec):
    """images on which nothing can be fit: a flag, or a finite mixture; never an unnamed error"""
    dims = tuple(case['dims'])
    jac = jacobian(case['jac'], (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0)
    a = area_of(jac)
    sc = np.sqrt(a)
    im = image(case['im'], dims, jac)
    for variant, vs, ng, sk, mi in itertools.product(FITTERS, (False, True), (1, 2), (None, 0.0, 1.0), (1, 40)):
        obs = ngmix.Observation(im, jacobian=jac)
        for where in ('in', 'out', 'point'):
            g = em_mix(ng, a, sc, 'true')
            if where == 'out':
                g[:, 1:3] += 1000 * sc
            if where == 'point':
                g[0, 3:] = 0.0
            gm = ngmix.GMix(pars=g.ravel())
            what = '%s %s vary_sky %s ngauss %d sky %s miniter %d guess %s' % (case['im'], variant, vs, ng, sk, mi, where)
            res = FITTERS[variant](miniter=mi, maxiter=60, vary_sky=vs).go(obs, gm, sky=sk)
            rec.trans()
            rec.trace()
            rec.eval()
            rec.state(fp(case, what))
            rec.outcome('%s' % res['flags'])
            if res['flags'] not in (0, FL.EM_MAXITER, FL.EM_RANGE_ERROR):
                rec.fail('em-bad-flags', '%s: flags %s' % (what, res['flags']))
            check_em_failed(res, rec, what)
            if res['flags'] == 0:
                p = res.get_gmix().get_full_pars()
                if not np.all(np.isfinite(p)):
                    rec.fail('em-bad-unflagged', '%s: flags 0 and mixture %s' % (what, p.tolist()))


def warmup():
    for c in ({'jac': 'unit'},):
        from mc.core import Rec
        r = Rec()
        k_admomnan(c, r)
        k_embad({'jac': 'unit', 'im': 'gauss', 'dims': (7, 8)}, r)


KINDS = {'admom': k_admom, 'admomnan': k_admomnan, 'admomT': k_admomT, 'findcen': k_findcen,
         'em': k_em, 'emtrue': k_emtrue, 'embad': k_embad}

IMS = ['gauss', 'ell', 'thin', 'small', 'big', 'exp', 'noisy', 'lown', 'noise', 'offset', 'two', 'neg',
       'hollow', 'ring', 'zero', 'flat', 'pixel', 'line']


def cases(tier):
    full = tier != 'quick'
    jacs = list(JACS) if full else ['small', 'shear', 'flip']
    for im, j in itertools.product(IMS, jacs):
        yield 'admom', dict(im=im, jac=j, dims=[17, 18] if not full else [21, 19],
                            wts=['const', 'varied', 'holes'] if full else ['varied', 'holes'],
                            guesses=list(GUESSES), maxiter=120 if full else 60, prefix=60 if full else 4)
    if full:
        for im, j in itertools.product(IMS, jacs):
            yield 'admom', dict(im=im, jac=j, dims=[8, 31], wts=['varied'], guesses=list(GUESSES), maxiter=200, prefix=20)
    for j in jacs:
        yield 'admomnan', dict(jac=j)
        for im in ('gauss', 'ell', 'noisy'):
            yield 'admomT', dict(jac=j, im=im)
        for im in ('gauss', 'offset', 'noisy', 'neg', 'two', 'lown'):
            yield 'findcen', dict(jac=j, im=im)
        for im in ('zero', 'flat', 'pixel', 'line', 'neg', 'noise', 'gauss', 'nan'):
            yield 'embad', dict(jac=j, im=im, dims=[9, 10])
    for nt, p, j in itertools.product((1, 2, 3), PSFS, jacs):
        if not full and (nt + list(PSFS).index(p) + jacs.index(j)) % 2:
            continue
        d = dict(nt=nt, psf=p, jac=j, dims=[13, 14] if not full else [15, 17], k=3 if not full else 12,
                 runs=[(1, 30, 1e-3), (5, 30, 1e-2)] if not full else [(1, 60, 1e-3), (20, 100, 1e-4), (5, 60, 1e-2), (3, 200, 1e-5)])
        yield 'em', d
        yield 'em', dict(d, noise=0.03, scale=20.0)
    for nt, p, j in itertools.product((1, 2), ('none', 'one', 'two'), jacs):
        yield 'emtrue', dict(nt=nt, psf=p, jac=j, dims=[27, 28])
