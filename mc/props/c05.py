"""
C05  moments of mixtures: models, convolution, shear, round, concatenation,
rendering, fast exponential, galsim form
"""
import itertools
import numpy as np
import ngmix
from ngmix import GMix, GMixModel, Shape, moments
from ngmix.gmix import GMixCM, GMixCoellip, GMixList, gmix_concat
from ngmix.gexceptions import GMixRangeError
from mc.core import fp
from mc import gmref as R

LEVEL = 'model_checking'
RULE = (
    'Full product grids of model x centre x shape x size x flux (x fracdev x size '
    'ratio); every ordered pair (triple for associativity) of a 27 mixture library '
    'under convolution, shear and concatenation, all compositions of two or three '
    'of {convolve, shear, round, set flux, move} on it; every pixel of rendered images '
    'for 5 jacobians; the fast exponential on a dense grid of its whole domain '
    '(every value k/2^16 and neighbours of every branch point).  Oracle: textbook '
    'formulas on (n,6) arrays, the analytic exponential and de Vaucouleurs profiles, '
    'galsim.'
)
ASSUMPTIONS = [
    'de Vaucouleurs and exponential tables: enclosed flux within 1.5% (dev, truncated: 4%) '
    'of the analytic profile between 0.3 and 3 half light radii',
    'rounding is checked for co-centric mixtures',
]

CENS = [(0.0, 0.0), (0.31, -1.7)]
SHAPES = [(0.0, 0.0), (0.1, 0.0), (0.0, -0.3), (-0.4, 0.5), (0.9, 0.1), (1e-9, 0.0), (0.0, 0.999)]
TS = [1e-4, 0.27, 4.0, 1e3]
FLUXES = [1.0, 100.0, 1e-3, -2.0]
FRACDEV = [0.0, 0.25, 0.5, 1.0]
TRAT = [1.0, 0.3, 5.0]


def close(a, b, rtol=1e-11, atol=0.0):
    return bool(np.all(np.abs(np.asarray(a) - np.asarray(b)) <= atol + rtol * np.abs(np.asarray(b))))


def rows(gm):
    return gm.get_full_pars().reshape(-1, 6)


def moments_bad(gm, cen=None, flux=None, g=None, T=None, cov=None, rtol=1e-10):
    bad = []
    if flux is not None and not close(gm.get_flux(), flux, rtol):
        bad.append('flux %r, expected %r' % (gm.get_flux(), flux))
    if cen is not None and not close(gm.get_cen(), cen, rtol, 1e-9):
        bad.append('centre %r, expected %r' % (gm.get_cen(), cen))
    if cov is not None:
        T = cov[0] + cov[2]
        e = ((cov[2] - cov[0]) / T, 2 * cov[1] / T)
        e1, e2, t = gm.get_e1e2T()
        if not close((e1, e2), e, 1e-9, 1e-9):
            bad.append('e %r, expected %r' % ((e1, e2), e))
    if g is not None:
        r = float(np.hypot(*g))
        tol = 1e-10 + 1e-15 / max(1e-8, (1 - r) ** 1.5)
        g1, g2, t = gm.get_g1g2T()
        if not close((g1, g2), g, 1e-9, tol):
            bad.append('g %r, expected %r' % ((g1, g2), g))
        h1, h2, s = gm.get_g1g2sigma()
        if (h1, h2) != (g1, g2) or not close(s, np.sqrt(abs(t) / 2)):
            bad.append('g1g2sigma %r' % ((h1, h2, s),))
        e1, e2, t2 = gm.get_e1e2T()
        e = 2 * np.array(g) / (1 + r * r)
        if not close((e1, e2), e, 1e-9, 1e-11):
            bad.append('e %r, expected %r' % ((e1, e2), e))
        h1, h2, s = gm.get_e1e2sigma()
        if (h1, h2) != (e1, e2) or not close(s, np.sqrt(abs(t) / 2)):
            bad.append('e1e2sigma %r' % ((h1, h2, s),))
    if T is not None:
        if not close(gm.get_T(), T, rtol):
            bad.append('T %r, expected %r' % (gm.get_T(), T))
        if not close(gm.get_sigma(), np.sqrt(T / 2), rtol):
            bad.append('sigma %r, expected %r' % (gm.get_sigma(), np.sqrt(T / 2)))
    return bad


def expect_from(unit, cen, g, T, flux):
    """scale, shape and move the round unit mixture"""
    m = unit.copy()
    r2 = g[0] ** 2 + g[1] ** 2
    e1, e2 = 2 * g[0] / (1 + r2), 2 * g[1] / (1 + r2)
    t = (unit[:, 3] + unit[:, 5]) * T
    m[:, 0] *= flux
    m[:, 1], m[:, 2] = cen
    m[:, 3], m[:, 4], m[:, 5] = t / 2 * (1 - e1), t / 2 * e2, t / 2 * (1 + e1)
    return m


def rowsdiff(a, b, rtol=1e-9):
    if a.shape != b.shape:
        return 'shape %s vs %s' % (a.shape, b.shape)
    tol = np.empty(a.shape)
    tol[:, 0] = rtol * np.abs(b[:, 0])
    tol[:, 1:3] = rtol * (1 + np.abs(b[:, 1:3]))
    tol[:, 3:] = (rtol * np.abs(b[:, 3] + b[:, 5]))[:, None]
    w = np.argwhere(~(np.abs(a - b) <= tol + 1e-300))
    if w.size:
        i = w[0][0]
        return 'gaussian %d is %r, expected %r' % (i, a[i].tolist(), b[i].tolist())


def k_model(case, rec):
    name = case['model']
    unit1 = rows(GMixModel([0, 0, 0, 0, 1.0, 1.0], name))
    rec.trans()
    if not close(unit1[:, 0].sum(), 1.0, 1e-6) or not close(R.cov(unit1)[0] * 2, 1.0, 1e-6):
        rec.fail('model-unit', '%s unit mixture flux %r T %r' % (
            name, unit1[:, 0].sum(), R.cov(unit1)[0] * 2))
    for cen, g, T, flux in itertools.product(CENS, SHAPES, TS, FLUXES):
        pars = np.array([cen[0], cen[1], g[0], g[1], T, flux])
        keep = pars.copy()
        gm = GMixModel(pars, name)
        rec.trans()
        rec.trace()
        rec.eval(2)
        rec.state(fp(name, pars))
        bad = moments_bad(gm, cen, flux, g, T, rtol=1e-6)
        d = rowsdiff(rows(gm), expect_from(unit1, cen, g, T, flux))
        if d:
            bad.append(d)
        if not np.array_equal(pars, keep):
            bad.append('parameters modified')
        # the same through fill, model number, list
        gm2 = GMixModel([1, 2, .1, .1, 3, 4], ngmix.gmix.get_model_num(name))
        gm2.fill(pars)
        gm3 = ngmix.gmix.make_gmix_model(list(pars), name)
        if not (gm2 == gm and gm3 == gm):
            bad.append('fill or make_gmix_model differ')
        if bad:
            rec.fail('model', '%s %s: %s' % (name, keep.tolist(), '; '.join(bad)))
    rec.outcome(name)


def k_badmodel(case, rec):
    """wrong number of parameters or shape outside is rejected"""
    for name, n in (('gauss', 6), ('exp', 6), ('dev', 6), ('turb', 6), ('bd', 8), ('bdf', 7)):
        for k in range(0, 11):
            p = np.array([0, 0, 0.1, 0.1, 1, .5, .5, 1, 1, 1, 1.0])[:k]
            rec.trans()
            rec.state(fp(name, k))
            try:
                GMixModel(p, name)
                if k != n:
                    rec.fail('model-npars', '%s accepted %d pars' % (name, k))
            except ValueError:
                if k == n:
                    rec.fail('model-npars', '%s rejected %d pars' % (name, k))
        for g in ((1.0, 0.0), (0.8, 0.8), (0.0, -1.5)):
            p = [0, 0, g[0], g[1], 1, .5, .5, 1][:n]
            try:
                GMixModel(p, name)
                rec.fail('model-range', '%s accepted g %s' % (name, g))
            except GMixRangeError:
                pass
    for k in range(5, 12):
        try:
            gm = GMixCoellip(np.array([0, 0, 0.1, 0.1, 1, .5, .5, 1, 1, 1, 1.0, 1.0])[:k])
            if k % 2 or len(gm) != (k - 4) // 2:
                rec.fail('coellip-npars', '%d' % k)
        except ValueError:
            if not k % 2:
                rec.fail('coellip-npars', '%d' % k)
    rec.trace()
    rec.eval()


def composite(e, d, fd, rat, cen, g, T, flux):
    """exp and dev parts: relative size rat, total size T, total flux"""
    Te = T / ((1 - fd) + fd * rat)
    return np.vstack([expect_from(e, cen, g, Te, flux * (1 - fd)),
                      expect_from(d, cen, g, Te * rat, flux * fd)])


def k_composite(case, rec):
    e = rows(GMixModel([0, 0, 0, 0, 1.0, 1.0], 'exp'))
    d = rows(GMixModel([0, 0, 0, 0, 1.0, 1.0], 'dev'))
    fd, rat = case['fd'], case['rat']
    for cen, g, T, flux in itertools.product(CENS, SHAPES, TS, FLUXES):
        want = composite(e, d, fd, rat, cen, g, T, flux)
        base = [cen[0], cen[1], g[0], g[1], T]
        gms = dict(cm=GMixCM(fd, rat, base + [flux]),
                   bd=GMixModel(base + [np.log10(rat), fd, flux], 'bd'))
        if rat == 1.0:
            gms['bdf'] = GMixModel(base + [fd, flux], 'bdf')
        for n, gm in gms.items():
            rec.trans()
            rec.trace()
            rec.eval(2)
            rec.state(fp(n, fd, rat, cen, g, T, flux))
            bad = moments_bad(gm, cen, flux, g, T, rtol=1e-6)
            dd = rowsdiff(rows(gm), want, 1e-6)
            if dd:
                bad.append(dd)
            if bad:
                rec.fail('composite', '%s fracdev %s ratio %s %s flux %s: %s' % (
                    n, fd, rat, base, flux, '; '.join(bad)))
    rec.outcome('fd%s' % fd)


def k_coellip(case, rec):
    Ts, Fs = case['T'], case['F']
    n = len(Ts)
    for cen, g in itertools.product(CENS, SHAPES):
        gm = GMixCoellip(np.array(list(cen) + list(g) + Ts + Fs))
        F, T = np.array(Fs), np.array(Ts)
        one = np.array([[1.0, 0, 0, .5, 0, .5]])
        want = np.vstack([expect_from(one, cen, g, t, f) for t, f in zip(Ts, Fs)])
        bad = []
        if F.sum() > 0 and (F * T).sum() > 0:
            bad = moments_bad(gm, cen, F.sum(), g, (F * T).sum() / F.sum(), rtol=1e-10)
        d = rowsdiff(rows(gm), want, 1e-10)
        if d or len(gm) != n:
            bad.append('%d gaussians, %s' % (len(gm), d))
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(Ts, Fs, cen, g))
        if bad:
            rec.fail('coellip', '%s %s %s %s: %s' % (cen, g, Ts, Fs, '; '.join(bad)))


def k_profile(case, rec):
    """the tables against the analytic profiles"""
    from scipy.special import gammainc, gammaincinv
    from scipy.optimize import brentq
    n = case['n']
    m = rows(GMixModel([0, 0, 0, 0, 1.0, 1.0], case['model']))
    p, s2 = m[:, 0], m[:, 3]

    def encl(r):
        return (p * (1 - np.exp(-0.5 * r * r / s2))).sum()

    r50 = brentq(lambda r: encl(r) - 0.5, 1e-6, 10)
    b = gammaincinv(2 * n, 0.5)
    for x in np.linspace(0.3, 3.0, 28):
        want = gammainc(2 * n, b * x ** (1.0 / n))
        rec.eval()
        rec.state(fp(case, x))
        if abs(encl(x * r50) - want) > (0.015 if n == 1 else 0.04):
            rec.fail('profile', '%s: flux within %g r50 is %g, expected %g' % (
                case['model'], x, encl(x * r50), want))
    rec.trans()
    rec.trace()
    if case['model'] == 'exp':
        # <r^2> = 6 h^2
        h = np.sqrt(1.0 / 6)
        for x in np.linspace(0.3, 6, 20):
            want = 1 - (1 + x) * np.exp(-x)
            if abs(encl(x * h) - want) > 0.015:
                rec.fail('profile', 'exp: flux within %g h is %g, expected %g' % (x, encl(x * h), want))
        if (p <= 0).any() or (s2 <= 0).any():
            rec.fail('profile', 'not positive')


# the library of mixtures

def library():
    lib = []
    for name in ('gauss', 'exp', 'dev', 'turb'):
        for cen, g, T, F in (((0.0, 0.0), (0.0, 0.0), 1.0, 1.0), ((.3, -.2), (.2, -.4), 3.5, 20.0)):
            lib.append(GMixModel([cen[0], cen[1], g[0], g[1], T, F], name))
    lib.append(GMixCM(0.4, 2.0, [.1, .2, -.3, .05, 2.0, 7.0]))
    lib.append(GMixModel([.1, .2, -.3, .05, 2.0, -.2, 0.3, 7.0], 'bd'))
    lib.append(GMixModel([.1, .2, .3, .05, 2.0, 0.7, 7.0], 'bdf'))
    lib.append(GMixCoellip([.2, .1, .1, .6, 1.0, 4.0, 3.0, 1.0]))
    lib.append(GMixCoellip([.2, .1, .0, .0, 1.0, 4.0, .5, 3.0, 1.0, -.5]))
    lib.append(GMix(pars=[1.0, .5, -.5, 1.0, .2, 1.5]))
    lib.append(GMix(pars=[1.0, .5, -.5, 1.0, .2, 1.5, 2.0, -1.0, .3, .4, -.1, .3]))
    lib.append(GMix(pars=[1.0, .5, -.5, 1.0, .2, 1.5, -.3, -1.0, .3, .4, -.1, .3, .5, 2.0, 2.0, 2, 0, 2]))
    # zero size component, as an unconvolved point source
    lib.append(GMix(pars=[2.0, .5, -.5, 0.0, 0.0, 0.0, 1.0, .5, -.5, 1.0, 0.0, 1.0]))
    for i in (1, 3, 8, 14):
        lib.append(lib[i].copy())
        lib[-1].set_cen(10.0, -3.0)
    g = lib[3].convolve(lib[7])
    lib.append(g)
    lib.append(lib[1].get_sheared(.1, .2))
    lib.append(lib[6].make_round())
    lib.append(lib[6].make_round(preserve_size=True))
    lib.append(GMix(pars=lib[12].get_full_pars()))
    lib.append(gmix_concat([lib[1], lib[12]]))
    return lib


def k_convolve(case, rec):
    lib = library()
    a = lib[case['i']]
    ra = rows(a)
    for j, b in enumerate(lib):
        rb = rows(b)
        c = a.convolve(b)
        rec.trans()
        rec.eval(3)
        rec.trace()
        rec.state(fp(case['i'], j))
        bad = []
        if type(c) is not GMix or len(c) != len(a) * len(b):
            bad.append('%d gaussians' % len(c))
        want = R.convolve(ra, rb)
        # as a set: order of the components is not promised
        got = rows(c)
        o1 = np.lexsort(np.round(got, 9).T[::-1])
        o2 = np.lexsort(np.round(want, 9).T[::-1])
        d = rowsdiff(got[o1], want[o2]) and rowsdiff(got, want)
        if d:
            bad.append(d)
        cov = np.array(R.cov(ra)) + np.array(R.cov(rb))
        bad += moments_bad(c, R.cen(ra), R.flux(ra), T=cov[0] + cov[2], cov=cov)
        if not (np.array_equal(rows(a), ra) and np.array_equal(rows(b), rb)):
            bad.append('inputs changed')
        # unit flux and centre of the psf do not matter
        b2 = b.copy()
        b2.set_flux(b.get_flux() * 7)
        b2.set_cen(-3.0, 5.5)
        d = rowsdiff(rows(a.convolve(b2)), got)
        if d:
            bad.append('psf flux or centre matters: ' + d)
        # commutes with shear (for positive sizes and co-centric)
        if case['i'] != 16 and j != 16:
            s = (.13, -.24)
            d = rowsdiff(rows(c.get_sheared(*s)), rows(a.get_sheared(*s).convolve(b.get_sheared(*s))))
            if d:
                bad.append('shear does not commute: ' + d)
        if bad:
            rec.fail('convolve', '%d * %d: %s' % (case['i'], j, '; '.join(bad)))
        if len(a) <= 2 and len(b) <= 3:
            for k, p in enumerate(lib):
                if len(p) > 3:
                    continue
                x = a.convolve(b).convolve(p)
                y = a.convolve(b.convolve(p))
                if not (close(x.get_flux(), y.get_flux(), 1e-9) and close(x.get_cen(), y.get_cen(), 1e-9, 1e-9)
                        and close(x.get_e1e2T(), y.get_e1e2T(), 1e-9, 1e-10)):
                    rec.fail('associative', '%d %d %d' % (case['i'], j, k))
                rec.trans(4)
                rec.eval()
                rec.state(fp(case['i'], j, k))


SH = [(0.0, 0.0), (.05, 0.0), (-.2, .3), (0.0, -.7), (.6, .6), (1e-10, 0)]


def k_shear(case, rec):
    lib = library()
    a = lib[case['i']]
    ra = rows(a)
    zero = ((ra[:, 3] + ra[:, 5]) <= 0).any()
    if zero:
        return
    for s in SH:
        for form in (0, 1):
            b = a.get_sheared(*s) if form == 0 else a.get_sheared(Shape(*s))
            want = R.shear(ra, *s)
            rec.trans()
            rec.eval(2)
            rec.trace()
            rec.state(fp(case['i'], s, form))
            bad = []
            d = rowsdiff(rows(b), want)
            if d:
                bad.append(d)
            bad += moments_bad(b, R.cen(ra), R.flux(ra))
            if not close(b.get_data()['det'], R.det(ra), 1e-7):
                bad.append('determinants changed')
            if not np.array_equal(rows(a), ra):
                bad.append('input changed')
            back = b.get_sheared(-s[0], -s[1])
            d = rowsdiff(rows(back), ra, 1e-8)
            if d:
                bad.append('inverse: ' + d)
            if case['coel']:
                g1, g2, T = a.get_g1g2T()
                z, cs = complex(g1, g2), complex(*s)
                w = (z + cs) / (1 + z * np.conj(cs))
                bad += moments_bad(b, g=(w.real, w.imag),
                                   T=T * (1 - abs(z) ** 2) / (1 + abs(z) ** 2) * (1 + abs(w) ** 2) / (1 - abs(w) ** 2))
            for s2 in SH:
                c = b.get_sheared(*s2)
                d = rowsdiff(rows(c), R.shear(want, *s2), 1e-8)
                rec.trans()
                rec.state(fp(case['i'], s, form, s2))
                if d:
                    bad.append('then %s: %s' % (s2, d))
            if bad:
                rec.fail('shear', '%d by %s: %s' % (case['i'], s, '; '.join(bad)))
    try:
        a.get_sheared(0.1)
        rec.fail('shear-args', 'one component accepted')
    except ValueError:
        pass


def k_round(case, rec):
    lib = library()
    a = lib[case['i']]
    ra = rows(a)
    if (ra[:, 3] + ra[:, 5] <= 0).any():
        return
    cocen = np.ptp(ra[:, 1]) < 1e-9 and np.ptp(ra[:, 2]) < 1e-9
    for ps in (False, True):
        b = a.make_round(preserve_size=ps)
        rb = rows(b)
        bad = []
        e1, e2, T = a.get_e1e2T()
        e = np.hypot(e1, e2)
        fac = 1 + e if ps else np.sqrt(1 - e * e)     # (1-g^2)/(1+g^2) = sqrt(1-e^2)
        if not (np.all(rb[:, 4] == 0) and close(rb[:, 3], rb[:, 5])):
            bad.append('not round')
        if not close(rb[:, 3], 0.5 * (ra[:, 3] + ra[:, 5]) * fac, 1e-8):
            bad.append('sizes %r' % rb[:, 3].tolist())
        bad += moments_bad(b, R.cen(ra), R.flux(ra))
        if cocen:
            bad += moments_bad(b, g=(0.0, 0.0), T=T * fac)
        if not np.array_equal(rows(a), ra):
            bad.append('input changed')
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case, ps))
        if bad:
            rec.fail('round', '%d preserve %s: %s' % (case['i'], ps, '; '.join(bad)))


def k_concat(case, rec):
    lib = library()
    i = case['i']
    sel = [0, 3, 8, 11, 14, 15, 16, 25]
    for tail in [()] + [(x,) for x in range(len(lib))] + [(x, y) for x in sel for y in sel]:
        ms = [lib[i]] + [lib[x] for x in tail]
        gl = GMixList()
        for m in ms:
            gl.append(m)
        want = np.vstack([rows(m) for m in ms])
        for arg in (ms, tuple(ms), gl):
            c = gmix_concat(arg)
            rec.trans()
            rec.eval()
            rec.state(fp(i, tail, type(arg).__name__))
            if not np.array_equal(rows(c), want):
                rec.fail('concat', '%s %s' % (i, tail))
        if abs(want[:, 0].sum()) > 1e-3 and tail:
            bad = moments_bad(c, R.cen(want), R.flux(want), cov=R.cov(want))
            if bad:
                rec.fail('concat', '%s %s: %s' % (i, tail, bad))
        c.set_cen(50, 50)
        c.set_flux(1e3)
        if not np.array_equal(np.vstack([rows(m) for m in ms]), want):
            rec.fail('concat-alias', '%s %s' % (i, tail))
        rec.trace()
    try:
        gmix_concat([])
        rec.fail('concat-empty', 'accepted')
    except ValueError:
        pass


CHAIN = [['conv', 1], ['conv', 14], ['shear', .1, -.2], ['shear', -.3, 0.0], ['round', 0], ['round', 1],
         ['flux', 3.0], ['cen', 1.0, -2.0], ['concat', 3], ['copy'], ['norms']]


def apply_chain(lib, gm, m, op):
    n = op[0]
    if n == 'conv':
        return gm.convolve(lib[op[1]]), R.convolve(m, rows(lib[op[1]]))
    if n == 'shear':
        return gm.get_sheared(op[1], op[2]), R.shear(m, op[1], op[2])
    if n == 'round':
        e1, e2, T = R.e1e2T(m)
        e = np.hypot(e1, e2)
        fac = 1 + e if op[1] else np.sqrt(1 - e * e)
        o = m.copy()
        o[:, 4] = 0
        o[:, 3] = o[:, 5] = 0.5 * (m[:, 3] + m[:, 5]) * fac
        return gm.make_round(preserve_size=bool(op[1])), o
    if n == 'flux':
        g = gm.copy()
        g.set_flux(op[1])
        return g, R.set_flux(m, op[1])
    if n == 'cen':
        g = gm.copy()
        g.set_cen(op[1], op[2])
        return g, R.set_cen(m, op[1], op[2])
    if n == 'concat':
        return gmix_concat([gm, lib[op[1]]]), np.vstack([m, rows(lib[op[1]])])
    if n == 'copy':
        return gm.copy(), m.copy()
    if n == 'norms':
        gm.set_norms()
        return gm, m


def k_chain(case, rec):
    """every composition of up to `depth` operations, moments and one rendering"""
    lib = library()


    def walk(gm, m, hist):
        rec.trans()
        rec.eval()
        rec.state(fp(case['i'], hist))
        d = rowsdiff(rows(gm), m, 1e-8)
        bad = [d] if d else []
        bad += moments_bad(gm, R.cen(m), R.flux(m), cov=R.cov(m), T=sum(R.cov(m)[::2]), rtol=1e-8)
        im = gm.make_image((2, 3))
        want, _ = R.evaluate(m, np.repeat([-0.5, 0.5], 3), np.tile([-1.0, 0.0, 1.0], 2), 1.0)
        if not close(im.ravel(), want, 1e-7, 1e-12 * np.abs(want).max()):
            bad.append('image')
        if bad:
            rec.fail('chain', '%d after %s: %s' % (case['i'], hist, '; '.join(bad)))
            return
        rec.trace()
        if len(hist) < case['depth'] and len(gm) <= 60:
            for op in CHAIN:
                if op[0] == 'round' and np.hypot(*R.e1e2T(m)[:2]) >= 1:
                    # negative amplitudes can give an ellipticity that has no shape
                    continue
                g2, m2 = apply_chain(lib, gm, m, op)
                walk(g2, m2, hist + [op])

    gm = lib[case['i']].copy()
    op = case['first']
    g2, m2 = apply_chain(lib, gm, rows(gm), op)
    walk(g2, m2, [op])


JACS = [(0.0, 0.0, 1.0, 0.0, 0.0, 1.0), (3.2, 4.1, .27, 0.0, 0.0, .27), (3.2, 4.1, .25, .03, -.05, .3),
        (1.0, 2.0, 0.0, -.3, .3, 0.0), (2.0, 2.0, -.2, 0.0, .1, .4)]


def k_render(case, rec):
    lib = library()
    a = lib[case['i']]
    if ((rows(a)[:, 3] + rows(a)[:, 5]) <= 0).any():
        for kw in ({}, dict(fast_exp=True)):
            try:
                a.make_image((5, 5), **kw)
                rec.fail('render-invalid', 'zero size mixture rendered')
            except GMixRangeError:
                pass
        return
    for j in JACS:
        jac = ngmix.Jacobian(row=j[0], col=j[1], dvdrow=j[2], dvdcol=j[3], dudrow=j[4], dudcol=j[5])
        for dims in ((7, 9), (1, 5), (12, 3)):
            r, c = np.mgrid[:dims[0], :dims[1]].astype('f8')
            v, u = j[2] * (r - j[0]) + j[3] * (c - j[1]), j[4] * (r - j[0]) + j[5] * (c - j[1])
            area = abs(j[2] * j[5] - j[3] * j[4])
            for fast in (False, True):
                im = a.make_image(dims, jacobian=jac, fast_exp=fast)
                want, edge = R.evaluate(rows(a), v, u, area, fast)
                # sum of absolute contributions sets the scale of the error
                pa = rows(a).copy()
                pa[:, 0] = np.abs(pa[:, 0])
                scale, _ = R.evaluate(pa, v, u, area, fast)
                tol = 5e-5 * scale if fast else 1e-11 * scale + 1e-300
                ok = (np.abs(im - want) <= tol) | edge
                rec.eval(im.size)
                rec.trans()
                rec.trace()
                rec.state(fp(case['i'], j, dims, fast))
                if im.shape != dims or im.dtype != np.dtype('f8') or not ok.all():
                    rec.fail('render', 'mixture %d jacobian %s dims %s fast %s: max rel err %g' % (
                        case['i'], j, dims, fast, np.max(np.abs(im - want) / (scale + 1e-300))))


def k_fexp(case, rec):
    """the fast exponential over its domain [-12.5, 0] and its table [-15, 0]"""
    from ngmix import fastexp_nb as F
    x = np.arange(case['lo'] * 65536, case['hi'] * 65536 + 1) / 65536.0
    sp = np.arange(case['lo'], case['hi'] + .25, .5)
    x = np.concatenate([x, np.nextafter(sp, -99), np.nextafter(sp, 99), sp, sp - 1e-9, sp + 1e-9])
    x = x[(x <= 0) & (x >= -14.4)]
    y = F.fexp_arr(x)
    rel = np.abs(y / np.exp(x) - 1)
    rec.eval(x.size)
    rec.trans(x.size)
    rec.trace()
    rec.state(fp(case))
    if not rel.max() < 4.1e-5:
        i = int(np.argmax(rel))
        rec.fail('fexp', 'relative error %g at %r' % (rel[i], x[i]))
    for f, lim in ((F.exp3, 4.1e-3), (F.exp4, 5e-4), (F.exp5, 4.1e-5)):
        for xx in x[::97].tolist() + sp[sp > -14.4].tolist():
            r = abs(f(xx) / np.exp(xx) - 1)
            if not r < lim:
                rec.fail('fexp', '%s relative error %g at %r' % (f.__name__, r, xx))


def k_galsim(case, rec):
    lib = library()
    a = lib[case['i']]
    m = rows(a)
    zero = ((m[:, 3] + m[:, 5]) <= 0).any()
    for kw in ({}, dict(gsparams=dict(maximum_fft_size=8192)), dict(Tmin=1e-5)):
        gs = a.make_galsim_object(**kw)
        rec.trans()
        rec.eval(3)
        rec.trace()
        rec.state(fp(case['i'], sorted(kw)))
        bad = []
        if not close(gs.flux, R.flux(m), 1e-9):
            bad.append('flux %r, expected %r' % (gs.flux, R.flux(m)))
        r, c = R.cen(m)
        if not close((gs.centroid.y, gs.centroid.x), (r, c), 1e-9, 1e-9):
            bad.append('centroid %r, expected %r' % (gs.centroid, (c, r)))
        if kw.get('Tmin') and (m[:, 3] + m[:, 5]).min() < 1e-3 and not zero:
            continue
        # the fourier transform is known in closed form
        for ky, kx in ((.3, 0), (0, .3), (.2, .2), (-.2, .2), (.5, .1)):
            ph = ky * m[:, 1] + kx * m[:, 2]
            q = ky * ky * m[:, 3] + 2 * kx * ky * m[:, 4] + kx * kx * m[:, 5]
            want = (m[:, 0] * np.exp(-0.5 * q - 1j * ph)).sum()
            got = gs.kValue(kx, ky)
            if abs(got - want) > 1e-5 * np.abs(m[:, 0]).sum():
                bad.append('k value at %r: %r, expected %r' % ((ky, kx), got, want))
        if not np.array_equal(rows(a), m):
            bad.append('mixture changed')
        if bad:
            rec.fail('galsim', '%d %s: %s' % (case['i'], kw, '; '.join(bad)))
    for b in ('x', 3):
        try:
            a.make_galsim_object(gsparams=b)
            rec.fail('galsim-args', 'gsparams=%r accepted' % b)
        except TypeError:
            pass


def k_moments(case, rec):
    """scalar and array helpers of ngmix.moments"""
    M = moments
    for T in TS:
        s = np.sqrt(T / 2)
        fw = 2 * np.sqrt(2 * np.log(2)) * s
        pairs = [(M.sigma_to_fwhm, M.fwhm_to_sigma, s, fw), (M.T_to_fwhm, M.fwhm_to_T, T, fw),
                 (M.sigma_to_r50, M.r50_to_sigma, s, fw / 2), (M.T_to_r50, M.r50_to_T, T, fw / 2)]
        for f, g, x, y in pairs:
            rec.trans(2)
            rec.eval(2)
            rec.state(fp(f.__name__, T))
            if not (close(f(x), y) and close(g(y), x) and close(f(np.array([x, 2.0]))[0], y)
                    and close(g(np.array([2.0, y]))[1], x)):
                rec.fail('size-conversion', '%s(%r) = %r, expected %r; inverse %r' % (
                    f.__name__, x, f(x), y, g(y)))
        for g in SHAPES:
            r2 = g[0] ** 2 + g[1] ** 2
            e = 2 * g[0] / (1 + r2), 2 * g[1] / (1 + r2)
            irr, irc, icc = T / 2 * (1 - e[0]), T / 2 * e[1], T / 2 * (1 + e[0])
            gt = 1e-10 + 1e-15 / (1 - np.sqrt(r2)) ** 1.5
            ar = lambda *v: [np.array([x, x]) for x in v]    # noqa
            checks = [
                ('e2mom', M.e2mom(e[0], e[1], T), (irr, irc, icc), 1e-9 * T),
                ('g2mom', M.g2mom(g[0], g[1], T), (irr, irc, icc), 1e-9 * T),
                ('mom2e', M.mom2e(irr, irc, icc), e + (T,), 1e-9),
                ('mom2g', M.mom2g(irr, irc, icc), g + (T,), gt),
                ('moms_to_e1e2', M.moms_to_e1e2(e[0] * T, e[1] * T, T), e, 1e-9),
                ('Tround', [M.get_Tround(T, *g)], [T * np.sqrt((1 - e[0] ** 2 - e[1] ** 2))], 1e-9 * T),
                ('T', [M.get_T(M.get_Tround(T, *g), *g)], [T], 1e-9 * T),
            ]
            for n, got, want, tol in checks:
                rec.trans()
                rec.eval()
                if not close(got, want, 1e-9, tol):
                    rec.fail('moment-helper', '%s at %r T %r: %r, expected %r' % (n, g, T, got, want))
            for n, a in (('e2mom', (e[0], e[1], T)), ('g2mom', (g[0], g[1], T)),
                         ('mom2e', (irr, irc, icc)), ('mom2g', (irr, irc, icc)),
                         ('moms_to_e1e2', (e[0] * T, e[1] * T, T))):
                f = getattr(M, n)
                x, y = f(*a), f(*ar(*a))
                for p, q in zip(x, y):
                    if not close(q, [p, p], 1e-12, 1e-14):
                        rec.fail('moment-helper', '%s array %r scalar %r' % (n, y, x))
            for s in SH:
                m = R.shear(np.array([[1, 0, 0, irr, irc, icc]]), *s)[0, 3:]
                T2 = m[0] + m[2]
                z = (complex(*g) + complex(*s)) / (1 + complex(*g) * np.conj(complex(*s)))
                gt2 = 1e-9 + 1e-14 / max(1e-6, 1 - abs(z)) ** 2 + gt
                for n, got, want in (
                    ('get_sheared_moments', M.get_sheared_moments(irr, irc, icc, *s), m),
                    ('get_sheared_M1M2T', M.get_sheared_M1M2T(e[0] * T, e[1] * T, T, *s),
                     (m[2] - m[0], 2 * m[1], T2)),
                    ('get_sheared_g1g2T', M.get_sheared_g1g2T(g[0], g[1], T, *s), (z.real, z.imag, T2)),
                ):
                    rec.trans()
                    rec.eval()
                    if not close(got, want, 1e-6 if abs(z) > .99 or r2 > .9 else 1e-9,
                                 gt2 * (T2 if 'g1g2' not in n else 1)):
                        rec.fail('moment-helper', '%s at %r T %r by %r: %r, expected %r' % (
                            n, g, T, s, got, want))
    for T in (0.0, -1.0):
        for bad in (T, np.array([1.0, T])):
            try:
                M.moms_to_e1e2(.1 * abs(bad), .1 * abs(bad), bad)
                rec.fail('moment-helper', 'moms_to_e1e2 accepted T=%r' % bad)
            except GMixRangeError:
                pass
    rec.trace()


KINDS = {'model': k_model, 'badmodel': k_badmodel, 'composite': k_composite, 'coellip': k_coellip,
         'profile': k_profile, 'convolve': k_convolve, 'shear': k_shear, 'round': k_round,
         'concat': k_concat, 'chain': k_chain, 'render': k_render, 'fexp': k_fexp,
         'galsim': k_galsim, 'moments': k_moments}
CHUNK = 4


def warmup():
    lib = library()
    for g in lib[:12]:
        g.make_image((3, 3))
        g.make_image((3, 3), fast_exp=True)


def cases(tier):
    th = tier == 'thorough'
    for m in ('gauss', 'exp', 'dev', 'turb'):
        yield 'model', dict(model=m)
    yield 'badmodel', dict()
    for fd in FRACDEV + ([-.2, .9, 1.1] if th else []):
        for rat in TRAT + ([.01, 30.0] if th else []):
            yield 'composite', dict(fd=fd, rat=rat)
    for n in (1, 2, 3):
        for T in itertools.product([.1, 2.0, 7.0], repeat=n):
            for F in itertools.product([1.0, 4.0] + ([-.3] if n > 1 else []), repeat=n):
                if n < 3 or th or (T[0] != T[1]):
                    yield 'coellip', dict(T=list(T), F=list(F))
    yield 'profile', dict(model='exp', n=1)
    yield 'profile', dict(model='dev', n=4)
    yield 'moments', dict()
    for lo in range(-15, 0):
        yield 'fexp', dict(lo=lo, hi=lo + 1)
    nlib = len(library())
    coel = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13]
    for i in range(nlib):
        yield 'convolve', dict(i=i)
        yield 'shear', dict(i=i, coel=i in coel)
        yield 'round', dict(i=i)
        yield 'concat', dict(i=i)
        yield 'render', dict(i=i)
        yield 'galsim', dict(i=i)
    for i in (0, 1, 11, 14, 15):
        for op in CHAIN:
            yield 'chain', dict(i=i, first=op, depth=4 if th else 3)
