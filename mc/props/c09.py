"""
C09  moment results: values, errors and flags
"""
import itertools
import numpy as np
import ngmix
from ngmix import flags as FL
from ngmix import moments as MM
from ngmix.moments import make_mom_result, regularize_mom_shapes, MOMENTS_NAME_MAP
from ngmix.util import get_ratio_var, get_ratio_error
from ngmix.gexceptions import FFTRangeError
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'make_mom_result on the complete product of sign classes of flux, size and '
    'shape sums, sign classes of every variance and cross covariance patterns, for 6 '
    'and 17 moments, against the defining formulae; regularisation of each of those '
    'results; GaussMom, PGaussMom and KSigmaMom on all combinations of image class '
    '(positive, negative, zero, hollow, off centre), weight pattern, jacobian, kernel '
    'size, smoothing, padding, psf and option against direct sums in numpy; sums added up over every '
    'sequence of up to three (four) of three observations.'
)
ASSUMPTIONS = [
    'sums and covariances are finite, apart from the first moments, which the pre-psf '
    'fitters set to NaN, and shape cross covariances; no overflow',
    'pixels used by GaussMom have positive weight',
    'the fast exponential is accurate to 1e-4 of the peak (checked by C05)',
]

NAMES6 = ['Mv', 'Mu', 'M1', 'M2', 'MT', 'MF']


class Err(float):
    """an expected error with the rounding error of its square"""
    tol2 = 0.0


def ratio_err(a, b, va, vb, cab):
    r = a / b
    v = (va + r * r * vb - 2 * r * cab) / b ** 2
    e = Err(np.sqrt(v) if v > 0 else (0.0 if v <= 0 else np.nan))
    e.tol2 = 1e-13 * (abs(va) + r * r * abs(vb) + 2 * abs(r * cab)) / b ** 2
    return e


def close(a, b, rtol=1e-9, atol=1e-13):
    if isinstance(b, Err) and b == b:
        return abs(float(a) ** 2 - float(b) ** 2) <= b.tol2 + 1e-9 * float(b) ** 2
    if isinstance(b, list):
        return np.shape(a) == (len(b),) and all(close(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def expected(s, c, norm):
    """the documented result"""
    n = len(s)
    r = dict(flags=0, flux_flags=0, T_flags=0)
    nan = np.nan
    r.update(flux=s[5], flux_err=nan, s2n=nan, T=nan, T_err=nan, e1=nan, e2=nan,
             e=np.array([nan, nan]), e_err=np.array([nan, nan]),
             e_cov=np.array([[nan, 0.0], [0.0, nan]]), sums_err=np.full(n, nan),
             sums=s, sums_cov=c, sums_norm=nan if norm is None else norm)
    if c[5, 5] > 0:
        r['flux_err'] = np.sqrt(c[5, 5])
        r['s2n'] = s[5] / r['flux_err']
    else:
        r['flux_flags'] = FL.NONPOS_VAR
    if not (c[5, 5] > 0 and c[4, 4] > 0):
        r['T_flags'] = FL.NONPOS_VAR
    elif not s[5] > 0:
        r['T_flags'] = FL.NONPOS_FLUX
    else:
        r['T'] = s[4] / s[5]
        r['T_err'] = ratio_err(s[4], s[5], c[4, 4], c[5, 5], c[4, 5])
    if not all(c[i, i] > 0 for i in range(n)):
        r['flags'] = FL.NONPOS_VAR
    else:
        r['sums_err'] = np.sqrt(np.diagonal(c))
        if not s[5] > 0:
            r['flags'] = FL.NONPOS_FLUX
        elif not s[4] > 0:
            r['flags'] = FL.NONPOS_SIZE
        else:
            r['e1'], r['e2'] = s[2] / s[4], s[3] / s[4]
            r['e'] = np.array([r['e1'], r['e2']])
            r['pars'] = np.array([s[0], s[1], r['e1'], r['e2'], r['T'], r['flux']])
            err = [ratio_err(s[i], s[4], c[i, i], c[4, 4], c[i, 4]) for i in (2, 3)]
            if np.all(np.isfinite(err)):
                r['e_err'] = err
                r['e_cov'] = None
            else:
                r['flags'] = FL.NONPOS_SHAPE_VAR
    for name, i in MOMENTS_NAME_MAP.items():
        if i >= n:
            continue
        if i == 5:
            r[name] = s[5]
            r[name + '_err'] = np.sqrt(c[5, 5]) if c[5, 5] >= 0 else nan
        elif s[5] > 0:
            r[name] = s[i] / s[5]
            r[name + '_err'] = ratio_err(s[i], s[5], c[i, i], c[5, 5], c[i, 5])
        else:
            r[name] = r[name + '_err'] = nan
    return r


def check_result(res, s, c, norm, rec, what, rtol=1e-9, want=None, skip=()):
    want = expected(s, c, norm) if want is None else want
    rec.eval(len(want))
    rec.trace()
    rec.outcome('%d/%d/%d' % (want['flags'], want['flux_flags'], want['T_flags']))
    for k in want:
        if k in skip:
            continue
        if k == 'e_cov' and want[k] is None:
            want[k] = np.diag(np.asarray(res['e_err']) ** 2)
        if k not in res:
            rec.fail('missing:%s' % k, '%s: no %s' % (what, k))
            continue
        if k.endswith('flags'):
            if res[k] != want[k]:
                rec.fail('flags:%s' % k, '%s: %s=%s, expected %s' % (what, k, res[k], want[k]))
        elif not close(res[k], want[k], rtol):
            rec.fail('value:%s' % k, '%s: %s=%s, expected %s' % (
                what, k, np.asarray(res[k]).tolist(), np.asarray(want[k]).tolist()))
    for p in ('', 'flux_', 'T_'):
        if res[p + 'flagstr'] != FL.get_flags_str(want[p + 'flags']):
            rec.fail('flagstr', '%s: %sflagstr=%r' % (what, p, res[p + 'flagstr']))
    # unflagged quantities are finite; a flagged part flags the whole
    if res['flags'] == 0:
        for k in ('flux', 'flux_err', 'T', 'T_err', 's2n', 'e', 'e_err', 'sums_err'):
            v = np.asarray(res[k], float)
            if k == 'sums_err':
                v = v[2:]
            if not np.all(np.isfinite(v)):
                rec.fail('unflagged-nonfinite', '%s: %s=%s with no flag' % (what, k, v))
    for p in ('flux_', 'T_'):
        q = p[:-1]
        fin = np.isfinite(res[q]) and np.isfinite(res[q + '_err'])
        if res[p + 'flags'] == 0 and not fin:
            rec.fail('unflagged-nonfinite', '%s: %s=%s +/- %s with no flag' % (
                what, q, res[q], res[q + '_err']))
        if res[p + 'flags'] != 0 and res['flags'] == 0:
            rec.fail('part-not-in-whole', '%s: %sflags=%s but flags=0' % (what, p, res[p + 'flags']))


VALS = {'F': [-2.0, 0.0, 3.0, 1e-8], 'T': [-1.5, 0.0, 4.0],
        'M': [(0.0, 0.0, 0.1), (0.0, 1.0, 'nan'), (-1.0, 0.0, 0.1), (2.5, -4.5, 0.1), (2.5, 1.0, 'nan')]}
CROSS = ['zero', 'pos', 'neg', 'big', 'nan1', 'nan2']


def make_cov(n, signs, cross):
    """diag signs: string of n chars from -0+ (last may repeat)"""
    d = np.array([{'-': -1.0, '0': 0.0, '+': 1.0}[ch] for ch in signs]) * (0.5 + 0.1 * np.arange(n))
    c = np.diag(d)
    f = {'zero': 0.0, 'pos': 0.1, 'neg': -0.1, 'big': 40.0}.get(cross, 0.05)
    for i in range(n):
        for j in range(i):
            c[i, j] = c[j, i] = f * (1 + 0.1 * i - 0.05 * j)
    if cross == 'nan1':
        c[2, 4] = c[4, 2] = np.nan
    if cross == 'nan2':
        c[3, 4] = c[4, 3] = np.nan
    return c


def k_result(case, rec):
    n = case['n']
    signs = case['signs']
    for F, T, (M1, M2, mv) in itertools.product(VALS['F'], VALS['T'], VALS['M']):
        for cross in CROSS:
            c = make_cov(n, signs, cross)
            s = np.array([float(mv), float(mv), M1, M2, T, F] + [0.3 * (-1) ** i * (i - 5) for i in range(n - 6)])
            if n > 6:
                s[8] = 0.0
            for norm in ((None, 2.5) if cross == 'pos' else (1.5,)):
                k1, k2 = s.copy(), c.copy()
                res = make_mom_result(s, c, sums_norm=norm) if norm else make_mom_result(s, c)
                rec.trans()
                rec.state(fp(s, c))
                what = 'sums %s signs %s cross %s' % (s[:6].tolist(), signs, cross)
                check_result(res, k1, k2, norm, rec, what)
                if not (np.array_equal(s, k1, equal_nan=True) and np.array_equal(c, k2, equal_nan=True)):
                    rec.fail('sums-altered', what)
                if norm == 1.5 and cross in ('zero', 'big'):
                    regularize(res, k1, k2, rec, what)
        if len(rec.fails) > 40:
            return


def regularize(res, s, c, rec, what):
    before = {k: np.array(v, copy=True) for k, v in res.items()}
    for fwhm in (0.0, 0.7, 1.9):
        out = regularize_mom_shapes(res, fwhm)
        rec.trans()
        for k in before:
            if not np.array_equal(np.asarray(res[k]), before[k], equal_nan=before[k].dtype.kind == 'f'):
                rec.fail('regularize-input', '%s: regularisation changed %s' % (what, k))
        if fwhm == 0.0:
            for k in before:
                if not np.array_equal(np.asarray(out[k]), before[k], equal_nan=before[k].dtype.kind == 'f'):
                    rec.fail('regularize-zero', '%s: %s' % (what, k))
            continue
        treg = 2 * (fwhm / 2.3548200450309493) ** 2
        n = len(s)
        a = np.eye(n)
        a[4, 5] = treg
        s2 = s.copy()
        s2[4] = s[4] + treg * s[5]
        c2 = a.dot(c).dot(a.T)
        want = expected(s2, c2, None)
        for k in ('T', 'T_err', 'T_flags'):
            want[k] = res[k]
        if 'pars' in want:
            del want['pars']
        want['flags'] |= res['flags']
        check_result(out, s2, c2, None, rec, what + ' fwhm_reg %s' % fwhm, want=want, skip=('sums_norm',))
        rec.state(fp(s, c, fwhm))


def k_ratio(case, rec):
    av = [0.0, -0.0, 1.0, -2.5, 1e-30, 1e30]
    bv = [1.0, -0.3, 1e-20, 1e20]
    vv = [0.0, 1.0, 0.3]
    cv = [0.0, 0.2, -0.2, 3.0]
    for a, b, va, vb, c in itertools.product(av, bv, vv, vv, cv):
        rec.trans(2)
        rec.eval(2)
        rec.trace()
        rec.state(fp(a, b, va, vb, c))
        r = np.longdouble(a) / b
        parts = [np.longdouble(va) / np.longdouble(b) ** 2, r * r * vb / np.longdouble(b) ** 2,
                 -2 * r * c / np.longdouble(b) ** 2]
        want, tol = sum(parts), 1e-14 * float(sum(abs(p) for p in parts))
        got = get_ratio_var(a, b, va, vb, c)
        if not abs(float(got - want)) <= tol:
            rec.fail('ratio-var', '%s: %s, expected %s' % ((a, b, va, vb, c), got, want))
        e = get_ratio_error(a, b, va, vb, c)
        w = float(np.sqrt(max(want, 0)))
        if not abs(e ** 2 - w ** 2) <= 2 * tol:
            rec.fail('ratio-error', '%s: %s, expected %s' % ((a, b, va, vb, c), e, w))
        rec.outcome(want > 0)
        g2 = get_ratio_var(np.array([a, 1.0]), np.array([b, 2.0]), va, vb, c)
        if not abs(float(g2[0] - want)) <= tol:
            rec.fail('ratio-array', '%s: %s' % ((a, b, va, vb, c), g2))
    for b in (0.0, -0.0, np.array([1.0, 0.0])):
        try:
            get_ratio_var(1.0, b, 1.0, 1.0, 0.0)
            rec.fail('ratio-zero', 'no error for b=%s' % b)
        except ValueError:
            pass


# ---------------------------------------------------------------------------
# the fitters

JACS = {
    'unit': (1.0, 0.0, 0.0, 1.0), 'small': (0.263, 0.0, 0.0, 0.263),
    'shear': (0.25, 0.04, -0.03, 0.28), 'flip': (0.27, 0.0, 0.0, -0.27),
    'big': (2.0, 0.3, 0.1, 1.7), 'long': (0.3, 0.12, 0.0, 0.2),
}


def jacobian(name, row, col):
    a, b, c, d = JACS[name]
    return ngmix.Jacobian(row=row, col=col, dvdrow=a, dvdcol=b, dudrow=c, dudcol=d)


def image(kind, n, jac, T=None):
    """jac: row0, col0 and derivatives decide where the object is"""
    sc = jac.scale
    T = 4.0 * sc ** 2 if T is None else T
    r, c = np.mgrid[0:n, 0:n].astype(float)
    v, u = jac.get_vu(r, c)
    base = np.exp(-((u - 0.1 * sc) ** 2 * 1.2 + (v + 0.05 * sc) ** 2 * 0.9 - 0.3 * u * v) / T)
    if kind == 'pos':
        return base
    if kind == 'neg':
        return -base
    if kind == 'zero':
        return np.zeros((n, n))
    if kind == 'hollow':   # positive flux, negative size
        return np.exp(-(u ** 2 + v ** 2) / (0.3 * T)) * 3.0 - 0.35 * base
    if kind == 'noise':
        return base + 0.05 * D.noise((n, n), 7)
    if kind == 'off':
        return np.exp(-((u - 2 * sc) ** 2 + (v - 1.5 * sc) ** 2) / T)
    if kind == 'round':
        return np.exp(-(u ** 2 + v ** 2) / T)
    raise ValueError(kind)


def weight(kind, n):
    w = np.full((n, n), 4.0)
    if kind == 'varied':
        w = 1.0 + np.arange(n * n).reshape(n, n) % 5
    if kind == 'holes':
        w[0, :] = 0
        w[n // 2, n // 2 - 1] = 0
        w[2, 3] = -1.0
    if kind == 'one':
        w[:] = 0
        w[n // 2, n // 2] = 3.0
    return w


IMK = ['pos', 'neg', 'zero', 'hollow', 'noise', 'off', 'round']
WTK = ['const', 'varied', 'holes', 'one']


def k_gaussmom(case, rec):
    from ngmix.gaussmom import GaussMom
    n = case['n']
    jac = jacobian(case['jac'], (n - 1) / 2.0 + case['cen'][0], (n - 1) / 2.0 + case['cen'][1])
    area = abs(jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow)
    ho = case['ho']
    for fac in case['fwhm']:
        fwhm = fac * np.sqrt(area)
        f = GaussMom(fwhm=fwhm, with_higher_order=ho)
        for im, wt in itertools.product(IMK, WTK):
            image_, wt_ = image(im, n, jac), weight(wt, n)
            obs = ngmix.Observation(image_, weight=wt_, jacobian=jac)
            before = D.snap(obs)
            res = f.go(obs)
            rec.trans()
            rec.state(fp(case, fac, im, wt))
            what = '%s/%s fwhm %.3g' % (im, wt, fwhm)
            d = D.diff(before, D.snap(obs))
            if d:
                rec.fail('input', '%s: %s' % (what, d))
            # direct sums over positive weights within 100 sigma
            sig2 = (fwhm / 2.3548200450309493) ** 2
            r, c = np.mgrid[0:n, 0:n].astype(float)
            v = jac.dvdrow * (r - jac.row0) + jac.dvdcol * (c - jac.col0)
            u = jac.dudrow * (r - jac.row0) + jac.dudcol * (c - jac.col0)
            # the pixel area cancels: sum(weight * image), unit peak weight
            w = np.exp(-0.5 * (u * u + v * v) / sig2)
            q = u * u + v * v
            use = (wt_ > 0) & (q < 1e4 * sig2)
            Fs = [v, u, u * u - v * v, 2 * u * v, q, np.ones_like(u)]
            if ho:
                z = u + 1j * v
                Fs += [u * q, v * q, (z ** 3).real, (z ** 3).imag, q ** 2, q * (z ** 2).real,
                       q * (z ** 2).imag, (z ** 4).real, (z ** 4).imag, q ** 3, q ** 4]
            Fs = np.array([x[use] for x in Fs])
            s = (Fs * (w * image_)[use]).sum(1)
            cov = (Fs[:, None] * Fs[None, :] * (w ** 2)[use] / wt_[use]).sum(-1)
            norm = w[use].sum()
            scale = np.sqrt(np.diagonal(cov)) * 1e-3 + np.abs(Fs * (w * image_)[use]).sum(1) * 1e-4 + 1e-12 * np.abs(s).max() + 1e-300
            if res['npix'] != use.sum():
                rec.fail('npix', '%s: %s, expected %s' % (what, res['npix'], use.sum()))
            for k, want, tol in (('sums', s, scale), ('sums_cov', cov, 2e-4 * np.sqrt(np.outer(np.diagonal(cov), np.diagonal(cov))) + 1e-12 * np.abs(cov).max() + 1e-300),
                                 ('sums_norm', norm, 1e-4 * norm), ('wsum', norm, 1e-4 * norm)):
                got = np.asarray(res[k], float)
                if got.shape != np.shape(want) or not np.all(np.abs(got - want) <= tol):
                    rec.fail('sums:%s' % k, '%s: %s=%s, expected %s' % (what, k, got.tolist(), np.asarray(want).tolist()))
            # everything derived follows from the reported sums
            check_result(res, np.array(res['sums']), np.array(res['sums_cov']), res['sums_norm'], rec, what, skip=('pars',))
            if res['flags'] == 0 and not close(res['pars'][2:], [res['e1'], res['e2'], res['T'], res['flux']]):
                rec.fail('value:pars', '%s: pars %s' % (what, res['pars']))


def k_prepsf(case, rec):
    from ngmix.prepsfmom import PGaussMom, KSigmaMom
    n, npsf, pad = case['n'], case['npsf'], case['pad']
    cls = {'pgauss': PGaussMom, 'ksigma': KSigmaMom}[case['kernel']]
    off = case.get('off', [0.3, -0.2, -0.1, 0.25])
    jac = jacobian(case['jac'], (n - 1) / 2.0 + off[0], (n - 1) / 2.0 + off[1])
    area = abs(jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow)
    sc = np.sqrt(area)
    if npsf:
        pj = jacobian(case['jac'], (npsf - 1) / 2.0 + off[2], (npsf - 1) / 2.0 + off[3])
        pim = image('round', npsf, pj, T=case.get('psfT', 3.0) * area)
        pim = pim / pim.sum() * case.get('psum', 1.0)
        psf = ngmix.Observation(pim, weight=np.ones_like(pim), jacobian=pj)
    else:
        psf = None
    for fac, sm, ap in itertools.product(case['fwhm'], (0.0, 1.3), (1.5, 0.0)):
        fwhm, smooth = fac * sc, sm * sc
        f = cls(fwhm=fwhm, pad_factor=pad, ap_rad=ap, fwhm_smooth=smooth)
        for im, wt in itertools.product(IMK, ('const', 'holes')):
            im_, wt_ = image(im, n, jac), weight(wt, n)
            if psf is not None:
                obs = ngmix.Observation(im_, weight=wt_, jacobian=jac, psf=psf)
            else:
                obs = ngmix.Observation(im_, weight=wt_, jacobian=jac)
            before = D.snap(obs)
            what = '%s/%s fwhm %.3g smooth %.3g ap %s' % (im, wt, fwhm, smooth, ap)
            rec.trans()
            rec.state(fp(case, fac, sm, ap, im, wt))
            try:
                want = prepsf_ref(im_, wt_, jac, psf, case['kernel'], fwhm, smooth, ap, pad)
            except ValueError as err:
                want = None
                nrm = err.args[0]
            try:
                res = f.go(obs, no_psf=psf is None)
            except FFTRangeError:
                rec.outcome('fft-range')
                rec.trace()
                if want is not None:
                    rec.fail('fft-range', '%s raised, norm is fine' % what)
                continue
            d = D.diff(before, D.snap(obs))
            if d:
                rec.fail('input', '%s: %s' % (what, d))
            if want is None:
                if abs(nrm - 1) > 1.1e-5:
                    rec.fail('fft-range', '%s did not raise, norm %s' % (what, nrm))
                continue
            s, c, norm = want
            es = np.sqrt(np.diagonal(c))
            for k, w, tol in (('sums', s[2:], 2e-4 * np.abs(s[2:]) + 2e-3 * es[2:]),
                              ('sums_cov', c[2:, 2:], 5e-4 * np.outer(es, es)[2:, 2:])):
                g = np.asarray(res[k])
                g = g[2:] if g.ndim == 1 else g[2:, 2:]
                if not np.all(np.abs(g - w) <= tol):
                    rec.fail('sums:%s' % k, '%s: %s=%s, expected %s' % (what, k, g.tolist(), w.tolist()))
            check_result(res, np.array(res['sums']), np.array(res['sums_cov']), res['sums_norm'], rec, what)
            if not np.allclose(res['sums_norm'], norm, rtol=1e-4):
                rec.fail('sums:norm', '%s: sums_norm=%s, expected %s' % (what, res['sums_norm'], norm))


def apod(x, m, h):
    y = (x - m) / h + 3
    if y < -3:
        return 0.0
    if y > 3:
        return 1.0
    # integral of the triweight kernel (35/96)(1-(t/3)^2)^3
    g = lambda t: 35.0 / 96 * (t - 3 * t ** 3 / 27 + 3 * t ** 5 / 405 - t ** 7 / 5103)
    return g(y) - g(-3.0)


def prepsf_ref(im, wt, jac, psf, kernel, fwhm, smooth, ap, pad):
    """direct evaluation of the Fourier space sums (real-space kernel moments of
    the deconvolved image)"""
    n = im.shape[0]
    dim = int(max(n, psf.image.shape[0] if psf is not None else 0) * pad)
    m = np.ones((n, n))
    if ap > 0:
        rng = int(6 * ap + 0.5)
        p = np.ones(n)
        for y in range(min(rng + 1, n)):
            p[y] *= apod(y, rng, ap)
            p[n - 1 - y] *= apod(y, rng, ap)
        m = np.outer(p, p)

    def ft(a, row0, col0):
        # DFT about the jacobian centre
        k = 2 * np.pi * np.fft.fftfreq(dim)
        N = a.shape[0]
        er = np.exp(-1j * np.outer(k, np.arange(N) - row0))
        ec = np.exp(-1j * np.outer(k, np.arange(N) - col0))
        return er.dot(a).dot(ec.T)

    K = ft(im * m, jac.row0, jac.col0)
    f = np.fft.fftfreq(dim)
    if psf is not None:
        P = ft(psf.image, psf.jacobian.row0, psf.jacobian.col0)
        amp = abs(psf.image.sum())
    else:
        P = np.outer(np.sinc(f), np.sinc(f)).astype(complex)
        amp = 1.0
    mn = 1e-5 * amp
    a = np.abs(P)
    P = np.where(a == 0, mn, np.where(a <= mn, P / np.where(a == 0, 1, a) * mn, P))
    At = np.linalg.inv(np.array([[jac.dvdrow, jac.dvdcol], [jac.dudrow, jac.dudcol]])).T
    kr, kc = np.meshgrid(2 * np.pi * f, 2 * np.pi * f, indexing='ij')
    kv = At[0, 0] * kr + At[0, 1] * kc
    ku = At[1, 0] * kr + At[1, 1] * kc
    k2 = kv ** 2 + ku ** 2
    sig2 = (fwhm / 2.3548200450309493) ** 2
    det = abs(np.linalg.det(At))
    # kernel W(k2), with dW/dk2 and d2W/dk2^2
    if kernel == 'ksigma':
        nn = 4
        km2 = 2 * nn / sig2
        t = np.clip(1 - k2 / km2, 0, None)
        nrm = det / (nn / (sig2 * 10 * np.pi))
        W, W1, W2 = t ** 4 * nrm, -4 * t ** 3 / km2 * nrm, 12 * t ** 2 / km2 ** 2 * nrm
    else:
        nrm = det * 2 * np.pi * sig2
        # the fast exponential is cut at chi^2 = 25
        W = np.where(sig2 * k2 < 25.0, np.exp(-0.5 * sig2 * k2), 0.0) * nrm
        W1, W2 = -0.5 * sig2 * W, 0.25 * sig2 ** 2 * W
    tot = W.sum() / dim ** 2
    if abs(tot - 1) > 0.9e-5:
        raise ValueError(tot)
    if smooth > 0:
        g = np.exp(-0.5 * (smooth / 2.3548200450309493) ** 2 * k2)
        W, W1, W2 = W * g, W1 * g, W2 * g
    # u^2 in real space is -d^2/dku^2
    uu = -(2 * W1 + 4 * ku ** 2 * W2)
    vv = -(2 * W1 + 4 * kv ** 2 * W2)
    uv = -(4 * ku * kv * W2)
    kern = [uu - vv, 2 * uv, uu + vv, W]
    deconv = K / P
    s = np.array([np.nan, np.nan] + [np.sum((deconv * k).real) / dim ** 2 for k in kern])
    var = np.sum(1.0 / wt[wt > 0]) * (dim / n) ** 2
    c = np.zeros((6, 6))
    c[0, 0] = c[1, 1] = 1.0
    for i in range(4):
        for j in range(4):
            c[i + 2, j + 2] = np.sum((kern[i] * kern[j]) / np.abs(P) ** 2) * var / dim ** 4
    return s, c, nrm


AMBASE = []


def k_amresult(case, rec):
    """flags and errors of adaptive moments for every class of sums, variances and covariances"""
    import copy
    if not AMBASE:
        j = jacobian('small', 7, 7)
        o = ngmix.Observation(image('pos', 15, j), jacobian=j)
        AMBASE.append(dict(ngmix.admom.run_admom(o, guess=0.3, rng=np.random.RandomState(1))))
    flags, F = case['flags'], case['F']
    area, norm = 0.3, 1.7
    sums = np.array([0.1, -0.2, 0.7, -0.9, 3.1, F, 11.0])
    off = case['off']
    for var in itertools.product((2.0, 0.0, -1.0), repeat=5):
        for T in (3.0, 1e-250, 0.0, -2.0):
            cov = np.diag([1.0, 1.0] + list(var))
            for a, b in itertools.combinations(range(2, 7), 2):
                cov[a, b] = cov[b, a] = off * (1 + 0.1 * a)
            r = copy.deepcopy(AMBASE[0])
            r.update(flags=flags, wsum=0.9, rho4=2.1)
            r['sums'][:] = sums
            r['sums_cov'][:, :] = cov
            r['pars'][:] = [0.1, 0.2, 0.5, -0.3, T, 1.0]
            what = 'admom sums %s variances %s T %s covariance %s flags %s' % (sums, var, T, off, flags)
            g = ngmix.admom.admom.get_result(r, area, norm)
            rec.trans()
            rec.eval()
            rec.trace()
            rec.state(fp('am', flags, F, off, var, T))
            v = dict(zip(range(2, 7), var))
            w = dict(flags=flags, flux_flags=flags, T_flags=flags, rho4_flags=flags)
            nan = dict.fromkeys(('flux', 'flux_err', 's2n', 'T', 'T_err', 'rho4', 'rho4_err', 'e1', 'e2', 'e1err', 'e2err',
                                 'flux_mean'), np.nan)
            w.update(nan)

            def ratio(a, b):
                x = sums[a] / sums[b]
                q = (v[a] - 2 * x * cov[a, b] + x * x * v[b]) / sums[b] ** 2
                return np.sqrt(max(q, 0))
            if flags == 0:
                w['flux_mean'] = F / 0.9
                w['T'] = T
                w['rho4'] = 2.1
                if T > 1e-200:
                    fn = area * norm * 0.9
                    w['flux'] = F / fn
                    if v[5] > 0:
                        w['flux_err'] = np.sqrt(v[5]) / fn
                        w['s2n'] = F / np.sqrt(v[5])
                    else:
                        w['flux_flags'] = FL.NONPOS_VAR
                else:
                    w['flux_flags'] = FL.NONPOS_SIZE
                for k, a in (('T', 4), ('rho4', 6)):
                    if not (v[a] > 0 and v[5] > 0):
                        w[k + '_flags'] = FL.NONPOS_VAR
                    elif not F > 0:
                        w[k + '_flags'] = FL.NONPOS_FLUX
                    else:
                        w[k + '_err'] = 4 * ratio(a, 5)
                        if k == 'rho4':
                            w['rho4'] = 11.0 / F
            if not all(x > 0 for x in var):
                w['flags'] |= FL.NONPOS_VAR
            elif flags == 0:
                if not F > 0:
                    w['flags'] = FL.NONPOS_FLUX
                elif not T > 0:
                    w['flags'] = FL.NONPOS_SIZE
                else:
                    w.update(e1=0.5 / T, e2=-0.3 / T, e1err=2 * ratio(2, 4), e2err=2 * ratio(3, 4))
            rec.outcome((w['flags'], w['flux_flags'], w['T_flags'], w['rho4_flags']))
            for k, x in w.items():
                ok = g[k] == x if k.endswith('flags') else np.isclose(g[k], x, rtol=1e-9, atol=1e-7 if 'err' in k else 0, equal_nan=True)
                if not ok:
                    rec.fail('admom-result-%s' % k, '%s: %s is %s, expected %s' % (what, k, g[k], x))
                    return
            for k in ('', 'flux_', 'T_', 'rho4_'):
                if g[k + 'flagstr'] != FL.get_flags_str(w[k + 'flags']):
                    rec.fail('admom-result-str', '%s: %s' % (what, g[k + 'flagstr']))
            d = (np.array_equal(g['e'], [g['e1'], g['e2']], equal_nan=True)
                 and np.array_equal(g['e_err'], [g['e1err'], g['e2err']], equal_nan=True)
                 and np.array_equal(np.diag(g['e_cov']), np.array([g['e1err'], g['e2err']])**2, equal_nan=True))
            if not d or (flags == 0 and not g['pars'][5] == w['flux_mean']):
                rec.fail('admom-result-e', '%s: %s %s %s' % (what, g['e'], g['e_err'], g['e_cov']))


def k_accum(case, rec):
    """sums over several observations are the sums of those of each; the statistics are those of the total"""
    rows = [(9, [0.3, -0.2], 0), (7, [0.0, 0.4], 1), (11, [-0.5, 0.1], 2)]
    obs = []
    for i, (n, off, ji) in enumerate(rows):
        j = ngmix.Jacobian(row=(n - 1) / 2 + off[0], col=(n - 1) / 2 + off[1], dvdrow=.27 + .02 * i, dvdcol=.01 * i,
                           dudrow=-.02 * i, dudcol=.3 - .01 * i)
        r, c = np.mgrid[0:n, 0:n].astype(float)
        im = np.exp(-.5 * ((r - n / 2.) ** 2 + (c - n / 2. + .3) ** 2) / (2. + i)) * (1 + i) + .05 * np.cos(3 * r + 2 * c)
        w = 1. + .5 * np.sin(r * (1 + i) + c)
        w[1, 2] = 0.0
        obs.append(ngmix.Observation(im, weight=w, jacobian=j, ignore_zero_weight=(i != 1)))
    gm = ngmix.GMix(pars=case['wt'])
    ho, mr = case['ho'], case['maxrad']
    kw = {} if mr is None else dict(maxrad=mr)
    names = ('npix', 'wsum', 'sums', 'sums_cov')

    def one(o):
        r = gm.get_weighted_sums(o, with_higher_order=ho, **kw)
        return {k: np.array(r[k], float) for k in names}
    single = [one(o) for o in obs]
    for depth in (1, 2, 3, 4)[:case['depth']]:
        for hist in itertools.product(range(3), repeat=depth):
            res = None
            for i in hist:
                k = dict(kw) if res is None else dict(kw, res=res)
                got = gm.get_weighted_sums(obs[i], with_higher_order=ho, **k)
                rec.trans()
                if res is not None and not np.shares_memory(got, res):
                    rec.fail('accum:other-array', '%s: the sums are not added to the array given' % (hist,))
                    return
                res = got
            rec.state(fp(case, hist))
            rec.eval()
            what = 'observations %s, maxrad %s' % (hist, mr)
            for k in names:
                want = sum(single[i][k] for i in hist)
                sc = sum(np.abs(single[i][k]) for i in hist)
                if not np.all(np.abs(np.asarray(res[k], float) - want) <= 1e-12 * np.max(sc) + 1e-12 * sc):
                    rec.fail('accum:%s' % k, '%s: %s is %s, the total is %s' % (what, k, np.asarray(res[k]).tolist(), want.tolist()))
                    return
            before = {k: np.array(res[k]) for k in names}
            st = ngmix.gmix.get_weighted_moments_stats(res)
            check_result(st, before['sums'], before['sums_cov'], float(before['wsum']), rec, what, skip=('pars',))
            for k in names:
                if not np.array_equal(before[k], res[k]) or not np.array_equal(np.asarray(st[k]), before[k]):
                    rec.fail('accum:stats-modified', '%s: get_weighted_moments_stats changes %s' % (what, k))
        if depth == 1:
            for i, o in enumerate(obs):
                m = gm.get_weighted_moments(o, with_higher_order=ho, **kw)
                check_result(m, single[i]['sums'], single[i]['sums_cov'], float(single[i]['wsum']), rec, 'moments of %d' % i, skip=('pars',))
    rec.trace()


def accum_cases(th):
    wts = [[1., 0., 0., .6, 0., .6], [2., .1, -.1, .5, .1, .7], [.7, 0., .1, .4, 0., .3, .4, .2, 0., .9, .1, .8]]
    for wt in wts:
        for ho in (False, True):
            for mr in (None, .5, 1.2, 30.):
                yield 'accum', dict(wt=wt, ho=ho, maxrad=mr, depth=4 if th else 3)


KINDS = {'accum': k_accum, 'amresult': k_amresult, 'result': k_result, 'ratio': k_ratio, 'gaussmom': k_gaussmom, 'prepsf': k_prepsf}
CHUNK = 2
CASE_TIMEOUT = 300


def warmup():
    list(map(lambda k: KINDS[k[0]](k[1], __import__('mc.core').core.Rec()),
             [('gaussmom', dict(n=5, jac='unit', cen=[0, 0], ho=h, fwhm=[2.0])) for h in (0, 1)]
             + [('prepsf', dict(n=9, npsf=9, pad=2, kernel=k, jac='unit', fwhm=[3.0])) for k in ('pgauss', 'ksigma')]))


def cases(tier):
    th = tier == 'thorough'
    yield 'ratio', {}
    for x in accum_cases(th):
        yield x
    for flags in (0, FL.LOW_DET, FL.MAXITER):
        for F in (2.5, 0.0, -1.5):
            for off in (0.0, 0.3, 8.0):
                yield 'amresult', dict(flags=flags, F=F, off=off)
    # all sign classes of the six variances; with 17 moments one of the others
    for sg in itertools.product('-0+', repeat=6):
        bad = 6 - sg.count('+')
        if bad <= (6 if th else 2):
            yield 'result', dict(n=6, signs=''.join(sg))
    for i in range(17):
        for ch in '-0' if th else '-':
            yield 'result', dict(n=17, signs='+' * i + ch + '+' * (16 - i))
    yield 'result', dict(n=17, signs='+' * 17)
    for n in ((7, 12, 15) if th else (7, 12)):
        for j in JACS:
            for cen in ([0.0, 0.0], [0.3, -0.4]):
                for ho in (False, True):
                    yield 'gaussmom', dict(n=n, jac=j, cen=cen, ho=ho, fwhm=[1.5, 3.0, 0.6] if not th else [0.4, 0.6, 1.0, 1.5, 3.0, 8.0])
    for kernel in ('pgauss', 'ksigma'):
        for j in JACS:
            for n, npsf, pad in [(13, 13, 4), (14, 9, 3.5), (9, 12, 2), (13, 0, 4)] + ([(18, 11, 1), (17, 17, 2.5), (12, 0, 1.5)] if th else []):
                yield 'prepsf', dict(n=n, npsf=npsf, pad=pad, kernel=kernel, jac=j, fwhm=[3.0, 5.0, 2.0] if not th else [2.0, 2.5, 3.0, 4.0, 5.0])
            yield 'prepsf', dict(n=13, npsf=13, pad=4, kernel=kernel, jac=j, fwhm=[4.0], psum=2.5)
            # image and psf centered alike along one, both or none of the axes
            if th or j == list(JACS)[-1]:
                for npsf in (13, 0):
                    for off in itertools.product((0.0, 0.3), (0.0, -0.2), (0.0, 0.3), (0.0, -0.2)):
                        if (npsf or off[2:] == (0.0, 0.0)) and (th or (off[0] == off[2]) != (off[1] == off[3]) and off[3] >= off[1]):
                            yield 'prepsf', dict(n=13, npsf=npsf, pad=2, kernel=kernel, jac=j, fwhm=[3.0], off=list(off))
            # a psf whose transform falls below the truncation at large wave numbers
            yield 'prepsf', dict(n=15, npsf=31, pad=1.5, kernel=kernel, jac=j, fwhm=[3.0, 4.0], psfT=12.0)
