"""
C28  results depend on the values passed in, not on how they are stored

Data come from FITS tables and images (big endian, single precision, integers),
slices of other arrays, read-only maps, lists.  Every entry point is called with
the same numbers in every representation.
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, Jacobian
from ngmix import guessers as G
from ngmix import priors as PR
from ngmix import shape as SH
from ngmix import moments as MO
from ngmix.gexceptions import GMixRangeError
from mc.core import fp
from mc import data as D
from mc.props import c14
from mc.props.c14 import reduce, snap

LEVEL = 'model_checking'
RULE = (
    'Entry points x their array and number arguments x representations of the same values '
    '(memory order, strides, alignment, byte order, precision, integer types, read-only, '
    'subclasses, lists and tuples), one argument at a time, all pairs of arguments and all '
    'arguments at once.  The result is compared with that for native contiguous double '
    'precision arrays, on a second call with the same arguments too, and the arguments with '
    'what they were.  Lists, tuples and arrays of objects may be refused instead.'
)
ASSUMPTIONS = [
    'values are exactly representable in every type used',
    'numbers in single precision may lower the precision of the result to that of the type (not for data of observations)',
]
CHUNK = 4
CASE_TIMEOUT = 300


# ---------------------------------------------------------------------------
# representations


class Sub(np.ndarray):
    pass


def _step(a):
    big = np.full(tuple(2 * s + 1 for s in a.shape), 77, dtype=a.dtype)
    v = big[tuple(slice(0, 2 * s, 2) for s in a.shape)]
    v[...] = a
    return v


def _neg(a):
    v = np.array(a[tuple(slice(None, None, -1) for s in a.shape)])
    return v[tuple(slice(None, None, -1) for s in a.shape)]


def _ro(a):
    v = a.copy()
    v.flags.writeable = False
    return v


def _unal(a):
    t = np.zeros(a.shape, dtype=[('c', 'i1'), ('x', a.dtype)])
    t['x'] = a
    return t['x']


def _beu(a):
    return _unal(a.astype(a.dtype.newbyteorder('>')))


ARR = {
    'F': lambda a: np.asfortranarray(a) if a.ndim > 1 else None,
    'T': lambda a: np.ascontiguousarray(a.T).T if a.ndim > 1 else None,
    'step': _step, 'neg': _neg, 'ro': _ro, 'unal': _unal, 'beu': _beu,
    'sub': lambda a: a.copy().view(Sub),
    'be8': lambda a: a.astype('>f8'), 'f4': lambda a: a.astype('f4'), 'be4': lambda a: a.astype('>f4'),
    'f4step': lambda a: _step(a.astype('f4')), 'g': lambda a: a.astype('g'),
}
WHOLE = {
    'i8': lambda a: a.astype('i8'), 'i4': lambda a: a.astype('i4'), 'i2': lambda a: a.astype('i2'),
    'bei2': lambda a: a.astype('>i2'), 'u1': lambda a: a.astype('u1') if a.min() >= 0 else None,
    'i4step': lambda a: _step(a.astype('i4')), 'ilist': lambda a: a.astype(int).tolist(),
}
LOOSE = {
    'list': lambda a: a.tolist(), 'tuple': lambda a: tuple(a.tolist()), 'obj': lambda a: a.astype(object),
    'nplist': lambda a: [np.float32(x) for x in a] if a.ndim == 1 else [np.array(x, dtype='f4') for x in a],
}
SCAL = {'np8': np.float64, 'np4': np.float32, '0d': np.array}
SWHOLE = {'int': int, 'npi8': np.int64, 'npi4': np.int32, '0di': lambda x: np.array(int(x))}
LOOSEREPS = set(LOOSE) | {'0d', '0di', 'ilist'}
SINGLE = {'f4', 'be4', 'f4step', 'np4', 'nplist'}
CORE = ['step', 'unal', 'be8', 'be4', 'i4', 'np4', 'int', 'list']


class Slot(object):
    """a value with fractions and one of whole numbers (None: there is none)"""

    def __init__(self, frac=None, whole=None, exact=False, seq=False):
        self.frac, self.whole, self.exact, self.seq = frac, whole, exact, seq
        v = frac if frac is not None else whole
        self.scalar = np.ndim(v) == 0

    def reps(self):
        out = []
        if self.frac is not None:
            out += [(r, False) for r in (SCAL if self.scalar else list(ARR) + list(LOOSE))]
        if self.whole is not None:
            out += [(r, True) for r in (SWHOLE if self.scalar else WHOLE)]
            if self.frac is None and not self.scalar:
                out += [(r, True) for r in list(ARR) + list(LOOSE)]
        # arithmetic of numpy on short integers is modular, and is not
        # defined for long doubles in lapack and compiled code
        return [x for x in out if self.exact or x[0] not in ('g', 'u1', 'i2', 'bei2')]

    def make(self, rep, whole):
        """(canonical, represented) or None"""
        v = self.whole if whole else self.frac
        if self.scalar:
            c = float(v)
            return c, dict(SCAL, **SWHOLE)[rep](c)
        c = np.array(v, dtype='f8')
        r = {**ARR, **WHOLE, **LOOSE}[rep](c.copy())
        return None if r is None else (c, r)

    def canon(self):
        v = self.frac if self.frac is not None else self.whole
        return float(v) if self.scalar else np.array(v, dtype='f8')


SUB = {}


def sub(name, fn, heavy=False, **slots):
    SUB[name] = (fn, slots, heavy)


def q(a, n=64):
    return np.round(np.asarray(a, dtype='f8') * n) / n


# ---------------------------------------------------------------------------
# subjects

n = 9
_b = c14.mkobs('A')
JAC = ngmix.Jacobian(row=4.25, col=4.0, dvdrow=0.25, dvdcol=-0.0078125, dudrow=0.015625, dudcol=0.28125)
IM = q(_b.image[1:10, 1:10] * 64, 4096)
IMW = np.round(IM * 8)
PIM = q(_b.psf.image[1:10, 1:10] * 16, 65536)
PIMW = np.round(PIM * 100)
W = np.full((n, n), 64.5)
W[0, 0] = 0
WW = np.full((n, n), 64.0)
WW[0, 0] = 0
WW[3, 4] = 32.0
NOI = q(0.1 * D.noise((n, n), 9), 4096)
NOIW = np.round(5 * D.noise((n, n), 9))
MSK = (np.arange(81).reshape(9, 9) % 5).astype('f8')
OBSSLOTS = dict(image=Slot(IM, IMW, exact=True), weight=Slot(W, WW, exact=True), noise=Slot(NOI, NOIW, exact=True),
                psfim=Slot(PIM, PIMW, exact=True), psfw=Slot(W, WW, exact=True))


def mkobs(image=None, weight=None, noise=None, psfim=None, psfw=None, **k):
    d = lambda x, y: y.copy() if x is None else x
    psf = Observation(d(psfim, PIM), weight=d(psfw, W), jacobian=JAC,
                      gmix=ngmix.GMixModel([0.0, 0.0, 0.02, -0.01, 0.25, 1.0], 'gauss'))
    return Observation(d(image, IM), weight=d(weight, W), noise=d(noise, NOI), jacobian=JAC, psf=psf, **k)


def s_obs(image, weight, noise, bmask, ormask, mfrac):
    o = Observation(image, weight=weight, noise=noise, bmask=bmask, ormask=ormask, mfrac=mfrac, jacobian=JAC)
    return [o, o.get_s2n(), o.pixels['val'].copy(), o.pixels['ierr'].copy(), o.noise + 0.0, o.mfrac + 0.0,
            o.bmask + 0, o.ormask + 0]


IMSK = Slot(None, MSK, exact=True)
MF = Slot(q(MSK / 8), np.minimum(MSK, 1), exact=True)


def s_set(image, weight, noise, bmask, ormask, mfrac):
    o = Observation(np.zeros((n, n)), weight=np.ones((n, n)), jacobian=JAC, psf=mkobs().psf)
    o.set_image(image)
    o.set_weight(weight)
    o.set_noise(noise)
    o.bmask = bmask
    o.ormask = ormask
    o.mfrac = mfrac
    return [o, o.pixels['val'].copy(), o.pixels['ierr'].copy(), o.noise + 0.0, o.mfrac + 0.0, o.bmask + 0, o.ormask + 0]


def s_edit(image, weight):
    o = Observation(np.zeros((n, n)), weight=np.ones((n, n)), jacobian=JAC)
    with o.writeable():
        o.image[:, :] = image
        o.weight[:, :] = weight
    return [o, o.pixels['val'].copy(), o.pixels['ierr'].copy()]


def entry(name, args=None):
    e = c14.REG[name]

    def f(**kw):
        rng = np.random.RandomState(3)
        o = e.make(rng)
        rng.seed(11)
        return e.run(o, mkobs(**kw), **(e.args('A') if args is None else args))
    return f


def subjects():
    obs = dict(OBSSLOTS)
    sub('Observation', s_obs, bmask=IMSK, ormask=IMSK, mfrac=MF, **{k: obs[k] for k in ('image', 'weight', 'noise')})
    sub('setters', s_set, bmask=IMSK, ormask=IMSK, mfrac=MF, **{k: obs[k] for k in ('image', 'weight', 'noise')})
    sub('edit', s_edit, image=obs['image'], weight=obs['weight'])
    two = {k: obs[k] for k in ('image', 'weight', 'psfim')}
    sub('m-ksigma', lambda **kw: ngmix.prepsfmom.KSigmaMom(fwhm=1.0, pad_factor=6).go(mkobs(**kw)), **two)
    for e in ('gaussmom', 'wmom', 'pgauss', 'admom-T', 'em', 'psfflux', 'fit-gauss', 'g-tpsfflux', 'g-gmixpsf21', 'g-simplepsf'):
        sub('m-' + e, entry(e), heavy=e == 'fit-gauss', **(two if e in ('pgauss', 'ksigma') else {k: obs[k] for k in ('image', 'weight')}))
    for e in ('metacal-noise', 'metacal', 'make_kobs', 'sim', 'galsim-psfflux'):
        sub('m-' + e, entry(e), heavy=e.startswith('metacal'), **obs)

    # fits: guesses
    def fit(model, **kw):
        return lambda guess: ngmix.fitting.Fitter(model=model, fit_pars=c14.FP, **kw).go(obs=mkobs(), guess=guess)
    g6 = Slot([0.0, 0.015625, 0.03125, 0.0, 0.5, 100.0], [0, 0, 0, 0, 1, 100])
    sub('guess-gauss', fit('gauss'), guess=g6, heavy=True)
    sub('guess-exp', fit('exp'), guess=g6, heavy=True)
    sub('guess-coellip', lambda guess: ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=c14.FP).go(obs=mkobs(), guess=guess), heavy=True,
        guess=Slot([0.0, 0.015625, 0.03125, 0.0, 0.5, 0.75, 50.0, 60.0], [0, 0, 0, 0, 1, 2, 100, 50]))
    sub('guess-galsim', lambda guess: ngmix.fitting.GalsimFitter(model='gauss', fit_pars=c14.FP).go(obs=mkobs(), guess=guess), heavy=True, guess=g6)
    sub('guess-prior', lambda guess: ngmix.fitting.Fitter(
        model='gauss', prior=c14.mkprior(np.random.RandomState(1)), fit_pars=c14.FP).go(obs=mkobs(), guess=guess), heavy=True, guess=g6)
    sub('guess-admom', lambda guess: ngmix.admom.AdmomFitter(rng=np.random.RandomState(5)).go(obs=mkobs(), guess=guess), guess=Slot(0.5, 1))
    sub('eval', s_eval, pars=g6)
    from ngmix.fitting.leastsqbound import leastsqbound, run_leastsq

    def lsb(x0, **kw):
        b = [(0.5, 6.0), (None, 5.0), (-3.0, None)]
        r = leastsqbound(lambda p: np.array([p[0] - 3.3, p[1] - 2.2, p[2] + 0.7, 0.1 * (p[0] + p[1])]), x0, bounds=b, full_output=1)
        return [r[0], r[1], r[2]['fvec']]
    sub('leastsqbound', lsb, x0=Slot([1.5, 2.5, 0.25], [2, 1, 0]))

    def rls(guess):
        r = run_leastsq(lambda p: np.array([p[0] - 3.3, p[1] - 2.2, p[2] + 0.7, 0.1 * (p[0] + p[1])]), guess, 0,
                        bounds=[(0.5, 6.0), (None, 5.0), (-3.0, None)])
        return [r['pars'], r['flags'], r['pars_err']]
    sub('run_leastsq', rls, guess=Slot([1.5, 2.5, 0.25], [2, 1, 0]))

    # mixtures
    full = Slot([1.5, 0.25, -0.5, 1.25, 0.125, 1.5, 2.0, 0.0, 0.5, 2.25, -0.25, 1.75], [1, 0, 1, 3, 1, 2, 2, 1, 0, 4, -1, 3])

    def probe(gm):
        return [gm.get_full_pars(), gm.get_flux(), gm.get_T(), gm.get_cen(), gm.make_image((5, 6), jacobian=JAC)]
    sub('GMix', lambda pars: probe(ngmix.GMix(pars=pars)), pars=full)

    def refill(pars):
        gm = ngmix.GMix(ngauss=2)
        gm.fill(pars)
        return probe(gm)
    sub('GMix.fill', refill, pars=full)
    for m, p in (('gauss', 6), ('exp', 6), ('dev', 6), ('turb', 6), ('bd', 8), ('bdf', 7)):
        fr = {6: [0.25, -0.5, 0.125, 0.25, 2.5, 3.0], 7: [0.25, -0.5, 0.125, 0.25, 2.5, 0.25, 3.0], 8: [0.25, -0.5, 0.125, 0.25, 2.5, 0.5, 0.25, 3.0]}[p]
        wh = {6: [1, -1, 0, 0, 3, 2], 7: [1, -1, 0, 0, 3, 1, 2], 8: [1, -1, 0, 0, 3, 1, 1, 2]}[p]

        def mk(pars, m=m):
            a = ngmix.GMixModel(pars, m)
            b = ngmix.gmix.make_gmix_model(pars, m)
            c = ngmix.GMixModel(np.array([0.5, 0.5, 0.0, 0.0, 1.0] + [0.5] * (len(pars) - 5)), m)
            c.fill(pars)
            return [probe(x) for x in (a, b, c)]
        sub('GMixModel-' + m, mk, pars=Slot(fr, wh))
    sub('GMixCoellip', lambda pars: probe(ngmix.gmix.GMixCoellip(pars)), pars=Slot(
        [0.25, -0.5, 0.125, 0.25, 2.5, 1.5, 3.0, 1.0], [1, -1, 0, 0, 3, 1, 2, 5]))
    sub('GMixCM', lambda fracdev, TdByTe, pars: probe(ngmix.gmix.GMixCM(fracdev, TdByTe, pars)),
        fracdev=Slot(0.25, 1), TdByTe=Slot(1.5, 2), pars=Slot([0.25, -0.5, 0.125, 0.25, 2.5, 3.0], [1, -1, 0, 0, 3, 2]))

    def move(row, col, flux, s1, s2, fwhm):
        gm = ngmix.GMix(pars=full.canon())
        gm.set_cen(row, col)
        gm.set_flux(flux)
        sh = gm.get_sheared(s1, s2)
        return [probe(gm), probe(sh), gm.get_gaussap_flux(fwhm=fwhm), gm.get_gaussap_flux(T=fwhm), gm.get_gaussap_flux(sigma=fwhm)]
    sub('moves', move, row=Slot(0.25, 1), col=Slot(-0.5, -1), flux=Slot(2.5, 3), s1=Slot(0.125, 0), s2=Slot(-0.25, 0), fwhm=Slot(1.5, 2))
    gm0 = lambda: ngmix.GMixModel([0.1, 0.2, 0.1, -0.05, 0.8, 30.0], 'exp')
    sub('make_image', lambda dims: gm0().make_image(dims, jacobian=JAC), dims=Slot(None, [5, 7], seq=True))
    sub('mom-sums', lambda maxrad: gm0().get_weighted_moments(obs=mkobs(), maxrad=maxrad), maxrad=Slot(0.75, 1))
    sub('wsums', lambda maxrad: gm0().get_weighted_sums(mkobs(), maxrad=maxrad), maxrad=Slot(0.75, 1))

    # jacobians
    def jac(row, col, dvdrow, dvdcol, dudrow, dudcol):
        j = Jacobian(row=row, col=col, dvdrow=dvdrow, dvdcol=dvdcol, dudrow=dudrow, dudcol=dudcol)
        k = Jacobian(x=col, y=row, dudx=dudcol, dudy=dudrow, dvdx=dvdcol, dvdy=dvdrow)
        j2 = j.copy()
        j2.set_cen(row=col, col=row)
        return [[x.get_data()[f][0] for f in x.get_data().dtype.names] + list(x.get_vu(3.5, 2.5)) + list(x.get_rowcol(0.5, 0.25))
                + [x.scale, x.area, x.get_det()] for x in (j, k, j2)]
    sub('Jacobian', jac, row=Slot(4.25, 4), col=Slot(3.5, 3), dvdrow=Slot(0.25, 2), dvdcol=Slot(0.125, 1), dudrow=Slot(-0.125, -1), dudcol=Slot(0.5, 3))
    sub('DiagonalJacobian', lambda scale, row, col: [list(ngmix.DiagonalJacobian(scale=scale, row=row, col=col).get_vu(3.5, 2.5)),
                                                    list(ngmix.DiagonalJacobian(scale=scale, x=row, y=col).get_rowcol(3.5, 2.5))],
        scale=Slot(0.25, 2), row=Slot(4.25, 4), col=Slot(3.5, 3))
    pts = Slot([0.5, 1.25, -2.0, 3.0], [0, 1, -2, 3])
    pts2 = Slot([1.5, -1.25, 2.5, 0.0], [1, 5, -2, 0])
    sub('get_vu', lambda row, col: JAC.get_vu(row, col), row=pts, col=pts2)
    sub('get_rowcol', lambda v, u: JAC.get_rowcol(v, u), v=pts, u=pts2)
    sub('get_vu1', lambda row, col: list(JAC.get_vu(row, col)) + list(JAC.get_rowcol(row, col)) + list(JAC(row, col)), row=Slot(2.5, 2), col=Slot(1.25, -1))

    # shapes
    ga, gb = Slot([0.5, 0.25, -0.125, 0.0], [0, 0, 0, 0]), Slot([0.125, -0.5, 0.25, 0.0], [0, 0, 0, 0])
    ea, eb = Slot([1.5, 0.25, -2.0, 0.0], [1, 0, -2, 0]), Slot([0.125, -0.5, 1.25, 0.0], [0, 1, 2, 0])
    for f in ('g1g2_to_e1e2', 'e1e2_to_g1g2', 'g1g2_to_eta1eta2', 'e1e2_to_eta1eta2'):
        sub(f, lambda a, b, f=f: getattr(SH, f)(a, b), a=ga, b=gb)
        sub(f + '1', lambda a, b, f=f: getattr(SH, f)(a, b), a=Slot(0.5, 0), b=Slot(-0.125, 0))
    sub('eta1eta2_to_g1g2', lambda a, b: SH.eta1eta2_to_g1g2(a, b), a=ea, b=eb)
    sub('eta1eta2_to_g1g21', lambda a, b: SH.eta1eta2_to_g1g2(a, b), a=Slot(1.5, 1), b=Slot(-0.125, -1))
    sub('shear_reduced', lambda a, b, c, d: SH.shear_reduced(a, b, c, d), a=ga, b=gb, c=Slot([0.125, 0.25, 0.0, -0.5]), d=Slot([0.0, -0.25, 0.125, 0.25]))
    sub('rotate_shape', lambda a, b, t: SH.rotate_shape(a, b, t), a=ga, b=gb, t=Slot(0.5, 1))
    sub('round_factor', lambda a, b: SH.get_round_factor(a, b), a=ga, b=gb)
    sub('dgs_by_dgo', lambda a, b, c, d: SH.dgs_by_dgo_jacob(a, b, c, d), a=ga, b=gb, c=Slot(0.125, 0), d=Slot(-0.25, 0))

    def shp(g1, g2, s1, s2, t):
        s = SH.Shape(g1, g2)
        r = s.get_sheared(s1, s2)
        x = s.get_rotated(t)
        s.rotate(t)
        return [[y.g1, y.g2, y.e1, y.e2, y.eta1, y.eta2] if hasattr(y, 'eta1') else [y.g1, y.g2] for y in (s, r, x, -x)]
    sub('Shape', shp, g1=Slot(0.5, 0), g2=Slot(0.125, 0), s1=Slot(-0.125, 0), s2=Slot(0.25, 0), t=Slot(0.5, 1))

    # sizes and moments
    sz = Slot([0.5, 2.25, 4.0], [1, 2, 3])
    for f in ('sigma_to_fwhm', 'T_to_fwhm', 'fwhm_to_sigma', 'fwhm_to_T', 'r50_to_sigma', 'sigma_to_r50', 'r50_to_T', 'T_to_r50'):
        sub(f, lambda a, f=f: getattr(MO, f)(a), a=sz)
        sub(f + '1', lambda a, f=f: getattr(MO, f)(a), a=Slot(2.25, 3))
    sub('get_Tround', lambda T, a, b: [MO.get_Tround(T, a, b), MO.get_T(T, a, b)], T=Slot(2.5, 3), a=Slot(0.125, 0), b=Slot(-0.25, 0))
    sub('sheared', lambda a, b, T, s1, s2: [MO.get_sheared_M1M2T(a, b, T, s1, s2), MO.get_sheared_g1g2T(a, b, T, s1, s2)],
        a=Slot(0.25, 0), b=Slot(-0.125, 0), T=Slot(2.5, 3), s1=Slot(0.125, 0), s2=Slot(-0.25, 0))
    sub('mom2e', lambda a, b, c: [MO.mom2e(a, b, c), MO.mom2g(a, b, c), MO.get_sheared_moments(a, b, c, 0.125, -0.25)], a=Slot(1.5, 2), b=Slot(0.25, 1), c=Slot(2.5, 3))
    sub('e2mom', lambda a, b, T: [MO.e2mom(a, b, T), MO.g2mom(a, b, T)], a=Slot(0.25, 0), b=Slot(-0.125, 0), T=Slot(2.5, 3))
    sub('moms_to_e1e2', lambda a, b, T: MO.moms_to_e1e2(a, b, T), a=Slot([0.25, -0.5], [0, 1]), b=Slot([0.5, 0.125], [1, 0]), T=Slot([1.5, 2.5], [2, 3]))
    sums = Slot([0.25, -0.125, 0.5, 0.25, 8.5, 16.25], [1, 2, 3, 1, 9, 17])
    cov = np.diag([1.0, 2.0, 1.0, 3.0, 2.0, 1.0]) + 0.25
    covw = np.diag([2.0, 3.0, 2.0, 5.0, 4.0, 2.0]) + 1
    norm = Slot(2.5, 3)
    sub('mom_result', lambda sums, cov, norm: MO.make_mom_result(sums, cov, sums_norm=norm), sums=sums, cov=Slot(cov, covw), norm=norm)
    sub('regularize', lambda sums, cov, fwhm: MO.regularize_mom_shapes(MO.make_mom_result(sums, cov), fwhm), sums=sums, cov=Slot(cov, covw), fwhm=Slot(1.5, 2))
    sub('ratio', lambda a, b, c, d, e: [ngmix.util.get_ratio_error(a, b, c, d, e), ngmix.util.get_ratio_var(a, b, c, d, e)],
        a=Slot([2.5, 3.0], [2, 3]), b=Slot([1.5, 4.0], [1, 3]), c=Slot([0.5, 1.0], [1, 2]), d=Slot([0.25, 2.0], [1, 2]), e=Slot([0.125, 0.5], [0, 1]))
    for k in ('PGaussMom', 'KSigmaMom'):
        sub(k, lambda fwhm, pad, ap, sm, k=k: getattr(ngmix.prepsfmom, k)(fwhm=fwhm, pad_factor=pad, ap_rad=ap, fwhm_smooth=sm).go(mkobs()),
            fwhm=Slot(1.25, 1), pad=Slot(6.5, 7), ap=Slot(0.75, 1), sm=Slot(0.5, 1))
    sub('GaussMom', lambda fwhm: ngmix.gaussmom.GaussMom(fwhm=fwhm).go(mkobs()), fwhm=Slot(1.5, 2))

    # tables of aperture fluxes
    tab = Slot([[0.125, 0.25, 0.125, 0.0, 0.5, 1.5], [0.0, 0.5, 0.25, 0.25, 1.5, 3.0], [0.0, 0.0, 0.0, 0.5, 2.5, 8.0]],
               [[0, 1, 0, 0, 1, 2], [1, 1, 0, 0, 3, 4], [0, 0, 0, 0, 2, 8]])
    three = Slot([0.25, 0.5, 0.75], [0, 1, 1])

    def gap(pars, fwhm, mask):
        return ngmix.gaussap.get_gaussap_flux(pars, 'exp', fwhm, mask=mask, verbose=False)
    sub('gaussap', gap, pars=tab, fwhm=Slot(1.5, 2), mask=Slot(None, [1, 0, 1]))
    sub('gaussap-cm', lambda pars, fracdev, TdByTe: ngmix.gaussap.get_gaussap_flux(
        pars, 'cm', 1.5, fracdev=fracdev, TdByTe=TdByTe, verbose=False), pars=tab, fracdev=three, TdByTe=Slot([0.5, 1.0, 2.0], [1, 2, 3]))

    # n dimensional mixtures
    def nd(weights, means, covars, pars):
        from ngmix.gmix_ndim import GMixND
        gm = GMixND(weights, means, covars, rng=np.random.RandomState(4))
        return [gm.get_lnprob_array(pars), gm.get_prob_array(pars), gm.get_lnprob_scalar(pars[0]), gm.get_prob_array(pars, component=1)]
    sub('GMixND', nd, weights=Slot([0.25, 0.75], [1, 2]), means=Slot([[0.5, 1.5], [-1.0, 0.25]], [[0, 1], [-1, 2]]),
        covars=Slot([[[1.5, 0.25], [0.25, 1.0]], [[2.0, -0.5], [-0.5, 1.25]]], [[[2, 1], [1, 3]], [[2, -1], [-1, 4]]]),
        pars=Slot([[0.5, 0.25], [1.0, -2.0], [0.0, 0.0]], [[0, 1], [2, -1], [3, 3]]))

    # priors
    R = lambda: np.random.RandomState(9)

    def ev(p, x, one):
        out = []
        for f in ('get_lnprob_array', 'get_prob_array', 'get_lnprob_scalar', 'get_prob_scalar'):
            if hasattr(p, f):
                v = one if f.endswith('scalar') else x
                try:
                    out.append(np.asarray(getattr(p, f)(v), dtype='f8') if v is not None else None)
                except GMixRangeError:
                    out.append('range')
        try:
            out.append(np.asarray(p.get_fdiff(one), dtype='f8'))
        except GMixRangeError:
            out.append('range')
        out.append(p.sample(3))
        out.append(p.sample())
        return out
    xs, x1 = Slot([1.5, 2.25, 3.0], [1, 2, 3]), Slot(2.25, 3)
    two = dict(x=xs, one=x1)
    sub('FlatPrior', lambda a, b, x, one: ev(PR.FlatPrior(a, b, rng=R()), x, one), a=Slot(0.5, 1), b=Slot(7.5, 7), **two)
    sub('TwoSidedErf', lambda a, b, c, d, x, one: ev(PR.TwoSidedErf(a, b, c, d, rng=R()), x, one),
        a=Slot(0.5, -1), b=Slot(0.125, 1), c=Slot(7.5, 30), d=Slot(0.25, 1), **two)
    sub('Normal', lambda a, b, x, one: ev(PR.Normal(a, b, rng=R()), x, one), a=Slot(0.5, 1), b=Slot(1.5, 2), **two)
    sub('LMBounds', lambda a, b, x, one: [PR.LMBounds(a, b, rng=R()).get_fdiff(x), PR.LMBounds(a, b, rng=R()).sample(3)], a=Slot(0.5, 1), b=Slot(7.5, 7), **two)
    sub('LogNormal', lambda a, b, x, one: ev(PR.LogNormal(a, b, rng=R()), x, one), a=Slot(1.5, 2), b=Slot(0.5, 1), **two)
    sub('LogNormal-shift', lambda a, b, c, x, one: ev(PR.LogNormal(a, b, rng=R(), shift=c), x, one), a=Slot(1.5, 2), b=Slot(0.5, 1), c=Slot(-0.5, -1), **two)
    sub('Sinh', lambda a, b, x, one: [PR.Sinh(a, b, rng=R()).get_fdiff(x), PR.Sinh(a, b, rng=R()).get_fdiff(one), PR.Sinh(a, b, rng=R()).sample(3)],
        a=Slot(0.5, 1), b=Slot(1.5, 2), **two)
    sub('TruncatedGaussian', lambda a, b, c, d, x, one: ev(PR.TruncatedGaussian(a, b, c, d, rng=R()), x, one),
        a=Slot(0.5, 1), b=Slot(1.5, 2), c=Slot(-0.5, -1), d=Slot(7.5, 7), **two)

    def b1d(a, b, x, one):
        p = PR.Bounded1D(PR.Normal(2.0, 1.0, rng=R()), [a, b])
        return [p.sample(4), p.sample()]
    sub('Bounded1D', b1d, a=Slot(0.5, 1), b=Slot(7.5, 7), **two)
    c2 = dict(x1=xs, x2=Slot([0.5, -1.25, 0.0], [1, -2, 0]), y1=x1, y2=Slot(-0.5, 1))

    def ev2(p, x1, x2, y1, y2):
        out = []
        for f in ('get_lnprob_array', 'get_prob_array', 'get_lnprob_array2d', 'get_prob_array2d'):
            if hasattr(p, f):
                out.append(np.asarray(getattr(p, f)(x1, x2), dtype='f8'))
        for f in ('get_lnprob_scalar', 'get_prob_scalar', 'get_fdiff', 'get_lnprob_scalar2d', 'get_prob_scalar2d', 'get_prob_scalar1d'):
            if hasattr(p, f):
                a = (y1,) if f.endswith('1d') else (y1, y2)
                try:
                    out.append(np.asarray(getattr(p, f)(*a), dtype='f8'))
                except GMixRangeError:
                    out.append('range')
        return out
    sub('CenPrior', lambda a, b, c, d, **k: ev2(PR.CenPrior(a, b, c, d, rng=R()), **k), a=Slot(0.5, 1), b=Slot(0.25, -1), c=Slot(1.5, 2), d=Slot(0.5, 1), **c2)
    g2 = dict(x1=ga, x2=gb, y1=Slot(0.5, 0), y2=Slot(-0.25, 0))
    sub('GPriorBA', lambda a, **k: ev2(PR.GPriorBA(a, rng=R()), **k), a=Slot(0.25, 1), **g2)
    sub('GPriorGauss', lambda a: [PR.GPriorGauss(a, rng=R()).sample2d(3)], a=Slot(0.25, 1))
    sub('ZDisk2D', lambda r, **k: ev2(PR.ZDisk2D(r, rng=R()), **k), r=Slot(1.5, 2), **g2)
    sub('KDE', lambda data: [PR.KDE(data, 'scott', np.random.RandomState(3)).sample(3), PR.KDE(data, 0.5, np.random.RandomState(3)).sample()],
        data=Slot([[0.5, 1.0], [1.5, -1.0], [2.0, 0.5], [0.0, 2.5]], [[0, 1], [1, -1], [2, 0], [1, 3]]))
    sub('KDE1', lambda data: [PR.KDE(data, 'scott', np.random.RandomState(3)).sample(3), PR.KDE(data, 0.5, np.random.RandomState(3)).sample()],
        data=Slot([0.5, 1.5, 2.0, 0.0], [0, 1, 2, 5]))

    def joint(kind):
        def f(pars, many):
            p = c14.mkprior(np.random.RandomState(1), 1, kind)
            fd = np.zeros(50)
            k = p.fill_fdiff(pars, fd)
            return [p.get_lnprob_scalar(pars), p.get_lnprob_array(many), fd, k]
        return f
    for kind, p in (('simple', [0.25, 0.125, 0.25, -0.125, 2.5, 3.0]), ('bdf', [0.25, 0.125, 0.25, -0.125, 2.5, 0.5, 3.0]),
                    ('bd', [0.25, 0.125, 0.25, -0.125, 2.5, 0.125, 0.5, 3.0]), ('spergel', [0.25, 0.125, 0.25, -0.125, 2.5, 0.5, 3.0]),
                    ('coellip', [0.25, 0.125, 0.25, -0.125, 2.5, 1.5, 3.0, 4.0])):
        p = np.array(p)
        w = np.floor(p).clip(0)
        if kind in ('bdf', 'bd'):
            w[-2] = 1
        sub('joint-' + kind, joint(kind), pars=Slot(p, w), many=Slot([p, p * 0.5, p * 0.75], [w, w, w + np.array([0] * 4 + [1] + [0] * (p.size - 5))]))

    # guessers
    def gs(cls, prior=None, **kw):
        def f(**v):
            rng = np.random.RandomState(6)
            k = dict(kw, **v)
            if prior:
                k['prior'] = c14.mkprior(rng, 1, prior)
            if cls not in ('BDFPSFFluxGuesser', 'BDFGuesser', 'BDGuesser'):
                k['rng'] = rng
            g = getattr(G, cls)(**k)
            return [g(obs=mkobs()), g(obs=mkobs(), nrand=3)] if cls != 'ParsGuesser' else [g(), g(nrand=2)]
        return f
    T, fl, fls = Slot(1.5, 2), Slot(2.5, 3), Slot([2.5, 3.75], [2, 3], seq=True)
    sub('TFluxGuesser', gs('TFluxGuesser'), T=T, flux=fls)
    sub('TFluxGuesser1', gs('TFluxGuesser', 'simple'), T=T, flux=fl)
    sub('TPSFFluxGuesser', gs('TPSFFluxGuesser'), T=T)
    sub('TFluxAndPriorGuesser', gs('TFluxAndPriorGuesser', 'simple'), T=T, flux=fl)
    sub('BDFGuesser', gs('BDFGuesser', 'bdf'), T=T, flux=fl)
    sub('BDGuesser', gs('BDGuesser', 'bd'), T=T, flux=fl)
    sub('R50FluxGuesser', gs('R50FluxGuesser'), r50=T, flux=fls)
    sub('R50NuFluxGuesser', gs('R50NuFluxGuesser'), r50=T, nu=Slot(0.5, 1), flux=fls)
    sub('ParsGuesser', gs('ParsGuesser'), pars=Slot([0.25, 0.5, 0.125, -0.25, 1.5, 3.5], [1, 2, 0, 0, 3, 4], seq=True),
        widths=Slot([0.25, 0.125, 0.125, 0.25, 0.0625, 0.5], [1, 2, 0, 0, 0, 0]))
    sub('ParsGuesser0', gs('ParsGuesser'), pars=Slot([0.25, 0.5, 0.125, -0.25, 1.5, 3.5], [1, 2, 0, 0, 3, 4], seq=True))
    sub('mcal-step', lambda step: reduce(ngmix.metacal.get_all_metacal(
        mkobs(), rng=np.random.RandomState(3), types=['noshear', '1p', '1m'], step=step)), heavy=True, step=Slot(0.0625, None))
    sub('fwhm-guess', lambda m, s: ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, m, s], 'gauss').get_full_pars(), m=Slot(1.5, 2), s=Slot(2.5, 3))


def s_eval(pars):
    r = ngmix.fitting.Fitter(model='exp')._make_fit_model(mkobs(), np.array([0.0, 0, 0, 0, 1, 1]))
    return [r.calc_lnprob(pars), r.calc_fdiff(pars)]


subjects()


# ---------------------------------------------------------------------------


def red(x):
    if isinstance(x, (np.ndarray, np.generic)):
        x = np.asarray(x)
        return x.copy() if x.dtype.names is None else {f: red(x[f]) for f in x.dtype.names}
    if isinstance(x, (list, tuple)):
        return [red(v) for v in x]
    if isinstance(x, (bool, int, float)):
        return x
    if isinstance(x, str) or x is None:
        return x
    if isinstance(x, dict) and not hasattr(x, 'get_gmix'):
        return {str(k): red(v) for k, v in x.items() if not str(k).startswith('_')}
    return red(reduce(x))


def near(a, b, tol, path='', flat=False):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys differ' % path
        for k in a:
            d = near(a[k], b[k], tol, path + '.' + k, flat)
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: length %d, expected %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = near(x, y, tol, '%s[%d]' % (path, i), flat)
            if d:
                return d
        return None
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return None if type(a) == type(b) and a == b else '%s: %r, expected %r' % (path, a, b)
    x, y = np.asarray(a), np.asarray(b)
    if flat and x.size == y.size == 1:
        x, y = x.ravel(), y.ravel()
    if x.shape != y.shape:
        return '%s: shape %s, expected %s' % (path, x.shape, y.shape)
    if x.dtype.kind in 'US' or y.dtype.kind in 'US' or x.dtype.kind == 'O' or y.dtype.kind == 'O':
        return None if np.array_equal(x, y) else '%s: %r, expected %r' % (path, x, y)
    cx = x.dtype.kind == 'c' or y.dtype.kind == 'c'
    x, y = x.astype('c16' if cx else 'f8'), y.astype('c16' if cx else 'f8')
    sc = np.nanmax(np.abs(np.where(np.isfinite(y), y, 0)), initial=0.0)
    with np.errstate(all='ignore'):
        ok = (x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * (1 + sc))
    if not np.all(ok):
        i = np.flatnonzero(~ok.ravel())[0]
        return '%s[%d]: %r, expected %r' % (path, i, x.ravel()[i], y.ravel()[i])
    return None


def call(name, vals):
    fn = SUB[name][0]
    np.random.seed(4)
    return red(fn(**vals))


_ref = {}


def reference(name, whole):
    """whole: the slots that have whole numbers"""
    key = (name, whole)
    if key not in _ref:
        s = SUB[name][1]
        _ref[key] = call(name, {k: (s[k].make('np8' if s[k].scalar else 'ro', True)[0] if k in whole else s[k].canon()) for k in s})
    return _ref[key]


def k_rep(case, rec):
    name = case['sub']
    fn, slots, heavy = SUB[name]
    for combo in case['combos']:
        vals = {k: s.canon() for k, s in slots.items()}
        whole, loose, single = [], False, False
        skip = False
        for k, rep, w in combo:
            m = slots[k].make(rep, w)
            if m is None:
                skip = True
                break
            vals[k] = m[1]
            if w:
                whole.append(k)
            if rep in LOOSEREPS and not (slots[k].seq and rep in ('list', 'tuple', 'ilist')):
                loose = True
            if rep in SINGLE and not slots[k].exact:
                single = True
        if skip:
            continue
        what = ', '.join('%s as %s' % (k, r) for k, r, w in combo)
        ref = reference(name, tuple(sorted(whole)))
        before = {k: D_copy(v) for k, v in vals.items()}
        tol = 3e-5 if single else 1e-10 if not heavy else 1e-7
        sig = '%s:%s' % (name, '+'.join(sorted('%s' % r for k, r, w in combo)))
        for turn in (1, 2):
            try:
                out = call(name, vals)
            except Exception as err:
                rec.outcome('raised')
                if not loose:
                    rec.fail('refused:' + sig, '%s with %s raised %s: %s' % (name, what, type(err).__name__, str(err)[:200]),
                             case=dict(sub=name, combos=[combo]))
                rec.trans()
                break
            rec.trans()
            rec.eval()
            d = near(out, ref, tol, flat=any(r in ('0d', '0di') for k, r, w in combo))
            if d:
                rec.fail('value:' + sig, '%s with %s%s: %s' % (name, what, ' again' if turn == 2 else '', d), case=dict(sub=name, combos=[combo]))
                break
        for k in vals:
            if not same(before[k], vals[k]):
                rec.fail('modified:' + sig, '%s with %s modified %s' % (name, what, k), case=dict(sub=name, combos=[combo]))
                break
        for k, r, w in combo:
            rec.outcome('%s %s' % (r, 'number' if slots[k].scalar else 'array'))
        rec.state(fp(name, [list(c) for c in combo]))
    rec.trace()


def D_copy(v):
    return np.array(v) if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)


def same(a, b):
    return type(b) in (list, tuple) and len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)) if isinstance(b, (list, tuple)) else np.array_equal(a, b)


KINDS = {'rep': k_rep}


def warmup():
    for nm in SUB:
        reference(nm, ())


def combos(name, tier):
    slots = SUB[name][1]
    heavy = SUB[name][2]
    out = [[(k, r, w)] for k, s in slots.items() for r, w in s.reps()]
    ks = list(slots)
    th = tier == 'thorough'
    if len(ks) > 1 and (not heavy or th):
        for a, b in itertools.combinations(ks, 2):
            for r in slots[a].reps():
                for t in slots[b].reps():
                    if th or r[0] in CORE and t[0] in CORE:
                        out.append([(a,) + r, (b,) + t])
    # all at once
    if len(ks) > 1:
        for r in list(ARR) + list(WHOLE) + list(LOOSE):
            c = []
            for k, s in slots.items():
                rr = r if not s.scalar else {'f4': 'np4', 'be4': 'np4', 'i4': 'int', 'i8': 'npi8', 'i2': 'npi4', 'list': '0d'}.get(r, 'np8')
                for x, w in s.reps():
                    if x == rr:
                        c.append((k, x, w))
                        break
            out.append(c)
    return out


def cases(tier):
    for nm in SUB:
        c = combos(nm, tier)
        size = 8 if SUB[nm][2] else 40 if nm.startswith('m-') else 200
        for i in range(0, len(c), size):
            yield 'rep', dict(sub=nm, combos=c[i:i + size])
