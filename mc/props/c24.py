"""
C24  results follow the sky, not the pixel layout, the units or the order of lists
"""
import itertools
import numpy as np
import galsim
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'Words of up to two operations (three in the thorough tier) over an alphabet of symmetry '
    'operations: the eight layouts of the pixel grid of the image and of the psf, padding with '
    'zero-weight pixels, rotation, reflection, scaling and translation of the sky '
    'coordinates, scaling of the counts, splitting an observation into complementary masks, '
    'reordering of epochs and bands.  Every measurement is run on the real code on every '
    'image reached and compared with the transformed result of the untouched image.'
)
ASSUMPTIONS = [
    'fits start from the transformed guess and are run to tight tolerances; values agree to a small part of their errors',
    'parameters of the measurement with units (weight sizes, tolerances) are transformed as well',
]
CHUNK = 4
CASE_TIMEOUT = 300


# ---------------------------------------------------------------------------
# operations; an observation is held as a plain description

def layouts():
    """index maps (P, shape -> q) of the dihedral group: old = P new + q"""
    out = {}
    for name, f in (('id', lambda a: a), ('ud', np.flipud), ('lr', np.fliplr), ('r90', np.rot90),
                    ('r180', lambda a: np.rot90(a, 2)), ('r270', lambda a: np.rot90(a, 3)),
                    ('t', np.transpose), ('at', lambda a: np.rot90(np.transpose(a), 2))):
        out[name] = f
    return out


LAY = layouts()


def index_map(f, shape):
    """affine map from new to old indices"""
    r, c = np.mgrid[0:shape[0], 0:shape[1]]
    R, C = f(r), f(c)
    q = np.array([R[0, 0], C[0, 0]], dtype=float)
    P = np.array([[R[1, 0] - R[0, 0], R[0, 1] - R[0, 0]], [C[1, 0] - C[0, 0], C[0, 1] - C[0, 0]]], dtype=float)
    return P, q


class Jac(object):
    """sky = J (pix - cen)"""

    def __init__(self, J, cen):
        self.J, self.cen = np.array(J, dtype=float), np.array(cen, dtype=float)

    def make(self):
        # order of rows of J: v, u
        return ngmix.Jacobian(row=self.cen[0], col=self.cen[1], dvdrow=self.J[0, 0], dvdcol=self.J[0, 1],
                              dudrow=self.J[1, 0], dudcol=self.J[1, 1])

    def layout(self, P, q):
        return Jac(self.J @ P, np.linalg.solve(P, self.cen - q))

    def sky(self, M, t):
        J = M @ self.J
        return Jac(J, self.cen - np.linalg.solve(J, t))


class Ob(object):
    """description of an observation"""

    def __init__(self, im, wt, jac, psf=None, gm=None, noise=None):
        self.im, self.wt, self.jac, self.psf, self.gm, self.noise = im, wt, jac, psf, gm, noise

    def make(self):
        kw = {}
        if self.psf is not None:
            kw['psf'] = self.psf.make()
        if self.gm is not None:
            kw['gmix'] = ngmix.GMix(pars=self.gm.ravel().copy())
        if self.noise is not None:
            kw['noise'] = self.noise.copy()
        return Observation(self.im.copy(), weight=self.wt.copy(), jacobian=self.jac.make(), **kw)

    def layout(self, name, pname=None):
        f = LAY[name]
        P, q = index_map(f, self.im.shape)
        return Ob(f(self.im), f(self.wt), self.jac.layout(P, q),
                  self.psf.layout(pname or name) if self.psf is not None else None, self.gm,
                  f(self.noise) if self.noise is not None else None)

    def pad(self, t, l, b, r):
        def p(a, val):
            out = np.full((a.shape[0] + t + b, a.shape[1] + l + r), val)
            out[t:t + a.shape[0], l:l + a.shape[1]] = a
            return out
        return Ob(p(self.im, -77.0), p(self.wt, 0.0), Jac(self.jac.J, self.jac.cen + [t, l]), self.psf, self.gm,
                  p(self.noise, 5.0) if self.noise is not None else None)

    def sky(self, M, t):
        gm = self.gm
        if gm is not None:
            new = []
            for p, v, u, irr, irc, icc in gm:
                S = M @ np.array([[irr, irc], [irc, icc]]) @ M.T
                c = M @ [v, u]
                new.append([p, c[0], c[1], S[0, 0], S[0, 1], S[1, 1]])
            gm = np.array(new)
        # the translation moves the object, not its psf
        return Ob(self.im, self.wt, self.jac.sky(M, t), self.psf.sky(M, t * 0) if self.psf is not None else None, gm, self.noise)

    def counts(self, c):
        return Ob(self.im * c, self.wt / c ** 2, self.jac, self.psf, self.gm,
                  self.noise * c if self.noise is not None else None)


def rot(deg):
    a = np.deg2rad(deg)
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


SKY = {
    'rot90': (np.array([[0.0, -1.0], [1.0, 0.0]]), (0, 0)), 'rot180': (-np.eye(2), (0, 0)),
    'rot30': (rot(30.0), (0, 0)), 'rot-72': (rot(-72.0), (0, 0)),
    'flipv': (np.diag([-1.0, 1.0]), (0, 0)), 'flipu': (np.diag([1.0, -1.0]), (0, 0)),
    'swap': (np.array([[0.0, 1.0], [1.0, 0.0]]), (0, 0)),
    'x2': (2.0 * np.eye(2), (0, 0)), 'x0.001': (0.001 * np.eye(2), (0, 0)), 'x1000': (1000.0 * np.eye(2), (0, 0)),
    'shift': (np.eye(2), (0.07, -0.04)),
    'roll': (1.7 * rot(200.0) @ np.diag([1.0, -1.0]), (-0.03, 0.05)),
}


class Tr(object):
    """accumulated sky map and counts factor"""

    def __init__(self):
        self.M, self.t, self.c = np.eye(2), np.zeros(2), 1.0

    def copy(self):
        o = Tr()
        o.M, o.t, o.c = self.M.copy(), self.t.copy(), self.c
        return o

    @property
    def s(self):
        return np.sqrt(abs(np.linalg.det(self.M)))

    def spin2(self):
        m = self.M / self.s
        out = np.zeros((2, 2))
        for i, (e1, e2) in enumerate(((1.0, 0.0), (0.0, 1.0))):
            S = m @ np.array([[(1 - e1) / 2, e2 / 2], [e2 / 2, (1 + e1) / 2]]) @ m.T
            out[:, i] = [S[1, 1] - S[0, 0], 2 * S[0, 1]]
        return out

    def linear(self, layout):
        """matrix and offset for a vector of blocks (spin, power of size, power of counts)"""
        n = sum(1 if b[0] == 0 else 2 for b in layout)
        L, o = np.zeros((n, n)), np.zeros(n)
        i = 0
        for spin, ps, pc in layout:
            f = self.s ** ps * self.c ** pc
            if spin == 0:
                L[i, i] = f
                i += 1
            elif spin == 'xy':
                # galsim order: u, v
                L[i:i + 2, i:i + 2] = f * self.M[::-1, ::-1] / self.s
                o[i:i + 2] = self.t[::-1]
                i += 2
            else:
                L[i:i + 2, i:i + 2] = f * (self.M / self.s if spin == 1 else self.spin2())
                if spin == 1 and (ps, pc) == (1, 0):
                    o[i:i + 2] = self.t
                i += 2
        return L, o


def structure(obs, f):
    if isinstance(obs, Ob):
        return f(obs)
    return [structure(o, f) for o in obs]


def apply(op, obs, tr):
    """returns the new observations; changes tr"""
    k = op[0]
    if k == 'layout':
        return structure(obs, lambda o: o.layout(op[1], op[2] if len(op) > 2 else None))
    if k == 'pad':
        return structure(obs, lambda o: o.pad(*op[1]))
    if k == 'sky':
        M, t = SKY[op[1]]
        # translations in the current units
        t = np.array(t) * tr.s
        tr.t = M @ tr.t + t
        tr.M = M @ tr.M
        return structure(obs, lambda o: o.sky(M, t))
    if k == 'counts':
        tr.c *= op[1]
        return structure(obs, lambda o: o.counts(op[1]))
    if k == 'split':
        # complementary masks
        def sp(o):
            m = np.zeros(o.im.shape, dtype=bool)
            if op[1] == 'rows':
                m[::2] = True
            elif op[1] == 'half':
                m[:, :m.shape[1] // 2] = True
            else:
                m[np.add.outer(np.arange(m.shape[0]), np.arange(m.shape[1])) % 3 == 0] = True
            return [Ob(o.im, np.where(m == b, o.wt, 0.0), o.jac, o.psf, o.gm, o.noise) for b in (True, False)]
        if isinstance(obs, Ob):
            return sp(obs)
        if isinstance(obs[0], Ob):
            return [x for o in obs for x in sp(o)]
        return [[x for o in ol for x in sp(o)] for ol in obs]
    if k == 'epochs':
        if isinstance(obs[0], Ob):
            return list(reversed(obs))
        return [list(reversed(ol)) for ol in obs]
    raise ValueError(op)


def make(obs):
    if isinstance(obs, Ob):
        return obs.make()
    if isinstance(obs[0], Ob):
        ol = ObsList()
        for o in obs:
            ol.append(o.make())
        return ol
    mb = MultiBandObsList()
    for o in obs:
        mb.append(make(o))
    return mb


# ---------------------------------------------------------------------------
# images

def base(kind):
    """kind: psf / nopsf / round / list / mb / big"""
    def one(q=0, psf=True, n=15, m=15, flux=5.0):
        J = [[0.26, -0.02 + 0.01 * q], [0.03, 0.28 - 0.02 * q]]
        jac = Jac(J, [n // 2 + 0.21 - 0.1 * q, n // 2 - 0.17])
        gm = np.array([[1.0, 0.02, -0.01, 0.12, 0.01, 0.14]])
        p = None
        if psf:
            pj = Jac(J, [(m - 1) / 2.0] * 2)
            pim = ngmix.GMix(pars=gm.ravel()).make_image((m, m), jacobian=pj.make(), fast_exp=False)
            p = Ob(pim, np.full((m, m), 1e8), pj, None, gm)
        g = ngmix.GMixModel([0.05, -0.03, 0.12, -0.08, 0.5, flux], 'exp')
        if psf:
            g = g.convolve(ngmix.GMix(pars=gm.ravel()))
        im = g.make_image((n, n), jacobian=jac.make(), fast_exp=False)
        im = im + 0.002 * D.noise((n, n), 3 + q)
        wt = np.full((n, n), 1 / 0.002 ** 2) * (1 + 0.2 * (np.arange(n * n).reshape(n, n) % 3))
        wt[2, 3] = 0
        wt[n // 2 + 1, n // 2] = 0
        return Ob(im, wt, jac, p, None, 0.002 * D.noise((n, n), 8 + q))
    if kind == 'psf':
        return one()
    if kind == 'nopsf':
        return one(1, False)
    if kind == 'list':
        return [one(0), one(1, n=13)]
    if kind == 'mb':
        return [[one(0), one(1, n=13)], [one(2, flux=8.0)]]
    if kind == 'full':
        # no masked pixels
        o = one(0, n=21, m=21)
        o.wt = np.full(o.wt.shape, 1 / 0.002 ** 2)
        return o
    if kind == 'full2':
        # objects at other places of their stamps
        out = []
        for q, n in ((0, 21), (1, 23)):
            o = one(q, n=n, m=21)
            o.wt = np.full(o.wt.shape, (1 + q) / 0.002 ** 2)
            out.append(o)
        return out
    raise ValueError(kind)


CEN, SH, TT, FL = (1, 1, 0), (2, 0, 0), (0, 2, 0), (0, 0, 1)
FRAC = (0, 0, 0)
TIGHT = dict(maxfev=4000, ftol=1e-10, xtol=1e-10)


def nbands(obs):
    return 1 if isinstance(obs, Ob) or isinstance(obs[0], Ob) else len(obs)


class Out(object):
    """results: vectors with their layout and covariance, and invariants"""

    def __init__(self, flags):
        self.flags = flags
        self.vec = {}
        self.inv = {}


def fit_out(res, layout, extra=()):
    o = Out(int(res['flags']))
    if o.flags == 0:
        o.vec['pars'] = (np.array(res['pars']), layout, np.array(res['pars_cov']))
        for k in ('dof', 'chi2per', 's2n', 'npix') + tuple(extra):
            if k in res:
                o.inv[k] = float(res[k])
        # named values are those of the vector
        if 'T' in res:
            o.vec['T'] = (np.array([res['T']]), [TT], np.array([[res['T_err'] ** 2]]))
        o.vec['flux'] = (np.atleast_1d(res['flux']), [FL] * np.size(res['flux']), None)
    return o


def fitter(model, guess, layout, prior=None, cls=None, **kw):
    def run(obs, tr):
        nb = nbands(obs)
        lay = layout + [FL] * (nb - 1)
        g = np.concatenate([guess, [guess[-1]] * (nb - 1)])
        L, o = tr.linear(lay)
        f = (cls or ngmix.fitting.Fitter)(model=model, fit_pars=TIGHT, **kw)
        return fit_out(f.go(obs=make(obs), guess=L @ g + o), lay)
    return run


# not near zero: the numerical derivatives of the minimizer need a step
G6 = np.array([0.02, -0.02, 0.05, 0.03, 0.4, 4.0])
L6 = [CEN, SH, TT, FL]


def coellip(obs, tr):
    lay = [CEN, SH, TT, TT, FL, FL]
    L, o = tr.linear(lay)
    f = ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=TIGHT)
    res = f.go(obs=make(obs), guess=L @ np.array([0.02, -0.02, 0.05, 0.03, 0.2, 0.7, 2.5, 2.5]) + o)
    o = Out(int(res['flags']))
    if o.flags == 0:
        o.vec['pars'] = (np.array(res['pars']), lay, np.array(res['pars_cov']))
        o.inv['chi2per'] = float(res['chi2per'])
    return o


def psfflux(**kw):
    def run(obs, tr):
        res = ngmix.fitting.PSFFluxFitter(**kw).go(obs=make(obs))
        o = Out(int(res['flags']))
        o.vec['flux'] = (np.array([res['flux']]), [FL], np.array([[res['flux_err'] ** 2]]))
        o.inv['chi2per'] = float(res['chi2per'])
        o.inv['dof'] = float(res['dof'])
        return o
    return run


def gpsfflux(obs, tr):
    res = ngmix.fitting.GalsimPSFFluxFitter().go(obs=make(obs))
    o = Out(int(res['flags']))
    o.vec['flux'] = (np.array([res['flux']]), [FL], np.array([[res['flux_err'] ** 2]]))
    o.inv['chi2per'] = float(res['chi2per'])
    return o


def admom(obs, tr):
    L, off = tr.linear(L6)
    v = L @ np.array([0.02, -0.01, 0.05, 0.02, 0.9, 1.0]) + off
    guess = ngmix.GMixModel(v, 'gauss')
    res = ngmix.admom.AdmomFitter(maxiter=500, shiftmax=5.0 * tr.s, etol=1e-9, Ttol=1e-9).go(obs=make(obs), guess=guess)
    o = Out(int(res['flags']))
    if o.flags == 0:
        o.vec['pars'] = (np.concatenate([res['pars'][:2], res['e'], [res['T']]]), [CEN, SH, TT], None)
        # the covariance of e has no cross terms
        ec = np.array(res['e_cov']) if np.all((np.abs(tr.spin2()) < 1e-9) | (np.abs(tr.spin2()) > 1 - 1e-9)) else None
        o.vec['e'] = (np.array(res['e']), [SH], ec)
        o.vec['T'] = (np.array([res['T']]), [TT], np.array([[res['T_err'] ** 2]]))
        o.vec['flux'] = (np.array([res['flux']]), [FL], np.array([[res['flux_err'] ** 2]]))
        o.inv['s2n'] = float(res['s2n'])
        o.inv['rho4'] = float(res['rho4'])
    return o


def em(cls, ng=2):
    def run(obs, tr):
        g = np.array([[3.0, 0.03, 0.01, 0.2, 0.01, 0.25], [2.0, -0.02, -0.03, 0.4, 0.0, 0.35]])[:ng]
        M = tr.M
        out = []
        for p, v, u, irr, irc, icc in g:
            S = M @ np.array([[irr, irc], [irc, icc]]) @ M.T
            c = M @ [v, u] + tr.t
            out += [p * tr.c, c[0], c[1], S[0, 0], S[0, 1], S[1, 1]]
        ob = make(obs)
        f = getattr(ngmix.em.em, cls)(maxiter=30, miniter=30, tol=1e-15)
        # a pedestal above the noise keeps all pixels positive
        ped = 0.05 * tr.c
        ob2 = Observation(ob.image + ped, weight=ob.weight, jacobian=ob.jacobian, psf=ob.psf if ob.has_psf() else None)
        res = f.go(obs=ob2, guess=ngmix.GMix(pars=out), sky=ped)
        o = Out(int(res['flags']) & ~ngmix.flags.EM_MAXITER)
        if o.flags == 0:
            gm = res.get_gmix().get_full_pars().reshape(-1, 6)
            for i, (p, v, u, irr, irc, icc) in enumerate(gm):
                o.vec['g%d' % i] = (np.array([v, u, (icc - irr), 2 * irc, irr + icc, p]),
                                    [CEN, (2, 2, 0), TT, FL], None)
            o.vec['sky'] = (np.array([res['sky']]), [FL], None)
        return o
    return run


MOM = [(1, 1, 1), (2, 2, 1), (0, 2, 1), (0, 0, 1)]


def gaussmom(obs, tr):
    # the weight is fixed at the origin: no translation
    res = ngmix.gaussmom.GaussMom(fwhm=1.2 * tr.s).go(obs=make(obs))
    o = Out(int(res['flags']))
    # sums: v, u, M1, M2, T, F
    o.vec['sums'] = (np.array(res['sums'])[:6], MOM, np.array(res['sums_cov'])[:6, :6])
    if o.flags == 0:
        o.vec['e'] = (np.array(res['e']), [SH], None)
        o.vec['T'] = (np.array([res['T']]), [TT], np.array([[res['T_err'] ** 2]]))
        o.vec['flux'] = (np.array([res['flux']]), [FL], np.array([[res['flux_err'] ** 2]]))
        o.inv['s2n'] = float(res['s2n'])
    o.inv['npix'] = float(res['npix'])
    return o


def prepsf(cls):
    def run(obs, tr):
        res = getattr(ngmix.prepsfmom, cls)(fwhm=2.0 * tr.s).go(obs=make(obs))
        o = Out(int(res['flags']))
        # the first two sums are not measured
        o.vec['sums'] = (np.array(res['sums'])[2:6], MOM[1:], np.array(res['sums_cov'])[2:6, 2:6])
        if o.flags == 0:
            o.vec['e'] = (np.array(res['e']), [SH], None)
            o.vec['T'] = (np.array([res['T']]), [TT], np.array([[res['T_err'] ** 2]]))
            o.vec['flux'] = (np.array([res['flux']]), [FL], np.array([[res['flux_err'] ** 2]]))
        return o
    return run


def wmom(obs, tr):
    gm = ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, 0.6 * tr.s ** 2, 1.0], 'gauss')
    res = gm.get_weighted_moments(obs=make(obs), maxrad=2.0 * tr.s)
    # not divided by the area of the pixels; the weight has unit integral
    o = Out(int(res['flags']))
    o.vec['sums'] = (np.array(res['sums'])[:6], [(1, 1, 1), (2, 2, 1), (0, 2, 1), (0, 0, 1)],
                     np.array(res['sums_cov'])[:6, :6])
    o.inv['npix'] = float(res['npix'])
    return o


MEAS = {
    'fit-gauss': (fitter('gauss', G6, L6), ('psf', 'nopsf', 'list', 'mb')),
    'fit-exp': (fitter('exp', G6, L6), ('psf', 'nopsf', 'list', 'mb')),
    'fit-dev': (fitter('dev', G6, L6), ('psf', 'list')),
    'fit-turb': (fitter('turb', G6, L6), ('psf', 'nopsf')),
    'fit-coellip': (coellip, ('nopsf',)),
    'galsim-exp': (fitter('exp', G6, [('xy', 1, 0), SH, (0, 1, 0), FL], cls=ngmix.fitting.GalsimFitter), ('full', 'full2')),
    'galsim-gauss': (fitter('gauss', G6, [('xy', 1, 0), SH, (0, 1, 0), FL], cls=ngmix.fitting.GalsimFitter), ('full',)),
    'psfflux': (psfflux(), ('psf', 'list')),
    'galsim-psfflux': (gpsfflux, ('psf', 'list')),
    'admom': (admom, ('psf', 'nopsf')),
    'em': (em('EMFitter'), ('psf', 'nopsf')),
    'em-fixcen': (em('EMFitterFixCen'), ('psf', 'nopsf')),
    'em-fixcov': (em('EMFitterFixCov'), ('psf',)),
    'em-fluxonly': (em('EMFitterFluxOnly'), ('psf', 'nopsf')),
    'gaussmom': (gaussmom, ('psf', 'nopsf')),
    'wmom': (wmom, ('nopsf',)),
    'pgauss': (prepsf('PGaussMom'), ('full',)),
    'ksigma': (prepsf('KSigmaMom'), ('full',)),
}


def ops_for(name, kind):
    lay = [['layout', a] for a in LAY if a != 'id']
    play = [['layout', 'id', b] for b in ('ud', 'r90', 't')] if kind != 'nopsf' and name not in ('pgauss', 'ksigma') else []
    pad = [['pad', [1, 0, 0, 0]], ['pad', [0, 2, 1, 0]], ['pad', [3, 1, 0, 2]]]
    sky = [['sky', k] for k in SKY]
    # far from unity the covariance of the least-squares fits is singular to rounding
    cnt = [['counts', 1e-8], ['counts', 0.01], ['counts', 1e6 if name.startswith(('fit', 'galsim', 'em')) else 1e10]]
    out = lay + play + sky + cnt
    if name.startswith('galsim') or name in ('pgauss', 'ksigma'):
        # fourier space: the stamp has to stay as it is
        pass
    else:
        out += pad
    if name.startswith(('fit', 'psfflux')) and name != 'fit-coellip':
        out += [['split', k] for k in ('rows', 'half', 'third')]
        if kind in ('list', 'mb'):
            out += [['epochs']]
    if kind == 'full2':
        out += [['epochs']]
    if name.startswith('em'):
        out = [o for o in out if o[0] != 'pad']
    if name in ('gaussmom', 'wmom', 'pgauss', 'ksigma') or 'psfflux' in name:
        # measured about the origin of the coordinates
        out = [o for o in out if o[:2] not in (['sky', 'shift'], ['sky', 'roll'])]
    return out


REFS = {}


def reference(name, kind):
    if (name, kind) not in REFS:
        REFS[name, kind] = MEAS[name][0](base(kind), Tr())
    return REFS[name, kind]


def compare(rec, tag, ref, got, tr, tol, info):
    if got.flags != ref.flags:
        rec.fail('flags:%s' % tag, '%s: flags %d, %d without the operations' % (info, got.flags, ref.flags))
        return
    for k, (v, lay, cov) in ref.vec.items():
        L, o = tr.linear(lay)
        want = L @ v + o
        g, gl, gcov = got.vec[k]
        if cov is not None:
            wc = L @ cov @ L.T
            err = np.sqrt(np.abs(np.diag(wc)))
        else:
            # size of the elements of the block of this kind
            err = np.abs(L) @ np.abs(v) + 1e-300
            err = np.maximum(err, [np.abs(want).max() * 1e-3 if len(lay) == 1 else 0] * len(err))
        d = np.abs(g - want) / np.maximum(err, 1e-12 * np.abs(want))
        if not np.all(d < tol):
            rec.fail('%s:%s' % (k.rstrip('0123456789'), tag), '%s: %s is %s, expected %s (off by %.2g of its error)' % (
                info, k, g, want, np.nanmax(d)))
            return
        if cov is not None and gcov is not None:
            s = np.sqrt(np.abs(np.diag(wc)))
            dd = np.abs(gcov - wc) / np.outer(s, s)
            if not np.all(dd < max(tol, 1e-6) * 10):
                rec.fail('%s-cov:%s' % (k.rstrip('0123456789'), tag), '%s: covariance of %s is %s, expected %s' % (
                    info, k, gcov.tolist(), wc.tolist()))
                return
    for k, v in ref.inv.items():
        g = got.inv[k]
        if not abs(g - v) <= 1e-4 * abs(v) + 1e-12:
            rec.fail('%s:%s' % (k, tag), '%s: %s is %r, %r without the operations' % (info, k, g, v))
            return


TOL = {'pgauss': 1e-6, 'ksigma': 1e-6, 'gaussmom': 1e-4, 'wmom': 1e-4, 'psfflux': 1e-4}


def k_word(case, rec):
    name, kind = case['m'], case['base']
    run = MEAS[name][0]
    ref = reference(name, kind)
    for word in case['words']:
        tr = Tr()
        obs = base(kind)
        if len(word) > 1 and word[0] == word[1] and word[0][0] == 'split':
            continue    # leaves observations without weight
        for op in word:
            obs = apply(op, obs, tr)
        got = run(obs, tr)
        rec.trans(len(word))
        rec.trace()
        rec.eval()
        rec.state(fp(name, kind, word))
        rec.outcome((name, ref.flags))
        info = '%s on %s after %s' % (name, kind, word)
        lr = ref
        compare(rec, name, lr, got, tr, TOL.get(name, 0.01), info)


# ---------------------------------------------------------------------------
# whole images: metacal and simulation

MTYPES = {(0, 0): 'noshear', (1, 0): '1p', (-1, 0): '1m', (0, 1): '2p', (0, -1): '2m'}


def describe(o, q):
    """description of an observation of the result"""
    j = o.jacobian
    p = None
    if o.has_psf():
        p = describe(o.psf, None)
    return Ob(np.array(o.image), np.array(o.weight),
              Jac([[j.dvdrow, j.dvdcol], [j.dudrow, j.dudcol]], [j.row0, j.col0]), p)


def mcal(obs, psf, noise, tr):
    if not isinstance(psf, str):
        psf = galsim.Gaussian(sigma=psf[0] * tr.s)
    elif psf == 'gs':
        psf = galsim.Gaussian(fwhm=1.3 * tr.s)
    rng = np.random.RandomState(3) if psf == 'fitgauss' else None
    r = ngmix.metacal.get_all_metacal(make(obs), psf=psf, fixnoise=noise, use_noise_image=noise, rng=rng)
    return {t: describe(o, None) for t, o in r.items()}


def mapped(t, tr):
    """name of the shear t after the sky map"""
    if t == 'noshear':
        return t
    stem, _, suf = t.partition('_')
    g = [k for k, v in MTYPES.items() if v == stem][0]
    g2 = tuple(int(round(x)) for x in tr.spin2() @ g)
    return MTYPES[g2] + ('_' + suf if suf else '')


def simu(obs, tr):
    M = tr.M
    g = np.array([[3.0, 0.03, 0.01, 0.2, 0.01, 0.25], [2.0, -0.02, -0.03, 0.4, 0.0, 0.35]])
    out = []
    for p, v, u, irr, irc, icc in g:
        S = M @ np.array([[irr, irc], [irc, icc]]) @ M.T
        c = M @ [v, u] + tr.t
        out += [p * tr.c, c[0], c[1], S[0, 0], S[0, 1], S[1, 1]]
    o = ngmix.simobs.simulate_obs(ngmix.GMix(pars=out), make(obs), add_noise=False)
    return {'noshear': describe(o, None)}


IREF = {}


def target_sigma(o, tr):
    """size of the round gaussian psf of an unsheared metacal image, in the units of the untouched sky"""
    from scipy.optimize import minimize_scalar
    p = o.psf
    j = p.jac.make()
    n = p.im.shape
    wcs = j.get_galsim_wcs()
    tot = p.im.sum()

    def bad(ls):
        m = galsim.Gaussian(sigma=np.exp(ls)).drawImage(
            nx=n[1], ny=n[0], wcs=wcs,
            offset=galsim.PositionD(p.jac.cen[1] - (n[1] - 1) / 2, p.jac.cen[0] - (n[0] - 1) / 2),
            method='no_pixel').array
        return ((m * tot / m.sum() - p.im)**2).sum() / (p.im**2).sum()
    r = minimize_scalar(bad, bracket=(np.log(0.4 * tr.s), np.log(0.6 * tr.s)), tol=1e-9)
    if r.fun > 1e-10:
        return None
    return np.exp(r.x) / tr.s / 1.02


def moved(want, word, kind):
    obs, tr = base(kind), Tr()
    for op in word:
        want = {t: apply(op, o, tr.copy()) for t, o in want.items()}
        obs = apply(op, obs, tr)
    return want


def k_image(case, rec):
    what, kind = case['m'], case['base']

    def run(obs, tr):
        if what == 'sim':
            return simu(obs, tr)
        return mcal(obs, what[1], what[2], tr)
    key = repr((what, kind))
    if key not in IREF:
        IREF[key] = run(base(kind), Tr())
    ref = IREF[key]
    for word in case['words']:
        tr = Tr()
        obs = base(kind)
        want = dict(ref)
        for op in word:
            obs = apply(op, obs, tr)
        want = moved(want, word, kind)
        got = run(obs, tr)
        if what[1] == 'gauss' and case.get('part') != 'size':
            # the size of the target is judged in cases of its own; here for the size that was chosen
            s = target_sigma(got['noshear'], tr)
            s0 = target_sigma(ref['noshear'], Tr())
            if s is None or s0 is None or not abs(s / s0 - 1) < 0.05:
                rec.fail('gauss-target', '%s after %s: the psf is no round gaussian or of another size: %s, %s' % (what, word, s, s0))
                return
            want = moved(mcal(base(kind), [s], what[2], Tr()), word, kind)
        rec.trans(len(word))
        rec.trace()
        rec.eval(len(got))
        rec.state(fp(key, word))
        rec.outcome(key)
        for t, w in want.items():
            g = got[mapped(t, tr)]
            info = '%s on %s, %s after %s' % (what, kind, t, word)
            # a target psf made for this call is round: it does not move with the psf stamp
            tol = case['tol']
            for nm, a, b, tl in (('image', w.im, g.im, tol), ('weight', w.wt, g.wt, 1e-9)) + (
                    (('psf', w.psf.im, g.psf.im, tol),) if w.psf is not None else ()):
                if a.shape != b.shape:
                    rec.fail('%s-shape:%s' % (nm, what), '%s: %s, expected %s' % (info, b.shape, a.shape))
                    return
                # the psf has unit flux: its image does not follow the counts
                d = np.abs(a - b).max() / np.abs(a).max()
                if case.get('part') == 'size':
                    if not d < tl:
                        rec.fail('gauss-target-size', '%s: the %s differs by %.2g of its peak from the transformed one' % (info, nm, d))
                        return
                    continue
                if not d < tl:
                    rec.fail('%s:%s' % (nm, what), '%s: the %s differs by %.2g of its peak from the transformed one' % (info, nm, d))
                    return
            for nm, x, y in (('jacobian', w.jac, g.jac),) + ((('psf jacobian', w.psf.jac, g.psf.jac),) if w.psf is not None else ()):
                if not (np.allclose(x.J, y.J, rtol=1e-9, atol=1e-9 * np.abs(x.J).max()) and np.allclose(x.cen, y.cen, atol=1e-8)):
                    rec.fail('jacobian:%s' % what, '%s: %s %s %s, expected %s %s' % (info, nm, y.J, y.cen, x.J, x.cen))
                    return


KINDS = dict(word=k_word, image=k_image)


def warmup():
    for n in MEAS:
        for k in MEAS[n][1][:1]:
            reference(n, k)


def cases(tier):
    th = tier == 'thorough'
    for n, (f, kinds) in MEAS.items():
        for kind in kinds:
            ops = ops_for(n, kind)
            words = [[o] for o in ops]
            slow = n.startswith(('galsim', 'em')) or kind in ('mb', 'list')
            rep = [o for o in ops if o[:2] in (['layout', 'r90'], ['layout', 't'], ['sky', 'roll'], ['sky', 'rot30'],
                                              ['sky', 'flipv'], ['counts', 0.01], ['split', 'half'], ['epochs'],
                                              ['pad', [0, 2, 1, 0]])]
            if th or not slow:
                words += [[a, b] for a in (ops if th else rep) for b in (ops if th else rep)]
            else:
                words += [[a, b] for a in rep[:4] for b in rep[-3:]]
            if th:
                words += [[a, b, c] for a in rep for b in rep for c in rep]
            for i in range(0, len(words), 12):
                yield 'word', dict(m=n, base=kind, words=words[i:i + 12])
    # whole images
    rots = [['layout', a] for a in ('r90', 'r180', 'r270')]
    refl = [['layout', a] for a in ('ud', 'lr', 't', 'at')]
    sky = [['sky', k] for k in ('rot90', 'rot180', 'flipv', 'flipu', 'swap', 'x2', 'x0.001', 'x1000')]
    cnt = [['counts', 1e-8], ['counts', 0.01], ['counts', 1e10]]
    for what in ['sim'] + [['mcal', p, f] for p in ('gauss', 'fitgauss', 'gs', 'dilate') for f in (False, True)]:
        ops = rots + sky + cnt
        if what == 'sim':
            ops = ops + [['sky', k] for k in ('rot30', 'shift', 'roll')]
        if what == 'sim' or not what[2]:
            # the noise field is turned by 90 degrees: reflections do not commute
            ops = ops + refl + ([['layout', 'id', b] for b in ('ud', 'r90', 't')] if what == 'sim' else [])
        words = [[o] for o in ops]
        if th or what == 'sim':
            words += [[a, b] for a in ops for b in ops]
        else:
            words += [[a, b] for a in (['layout', 'r90'], ['sky', 'swap']) for b in (['layout', 't'], ['sky', 'flipv'], ['sky', 'x2'])
                      if b in ops]
        for i in range(0, len(words), 8):
            yield 'image', dict(m=what, base='full' if what != 'sim' else 'psf', words=words[i:i + 8],
                                tol=1e-4 if what == 'sim' else 2e-4)
    for op in (['sky', 'rot90'], ['layout', 'r90'], ['layout', 'r180'], ['layout', 'r270'], ['layout', 'ud'], ['layout', 'lr'],
               ['layout', 't'], ['sky', 'rot180'], ['sky', 'flipv'], ['sky', 'swap'], ['sky', 'x2'], ['counts', 0.01]):
        yield 'image', dict(m=['mcal', 'gauss', False], base='full', words=[[op]], part='size', tol=2e-4)
