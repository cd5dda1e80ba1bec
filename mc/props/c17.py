"""
C17  priors: support, scalar and array forms, residuals, samples
"""
import itertools
import contextlib
import io
import math
import numpy as np
import ngmix
from scipy import special
from ngmix import priors as PR
from ngmix.defaults import LOWVAL
from ngmix.gexceptions import GMixRangeError
from mc.core import fp
from mc import data as D

LEVEL = 'model_checking'
RULE = (
    'Reference densities written out from the definitions, evaluated on complete grids '
    'of class x parameters x points (the ends of the support, the neighbouring floats, '
    'the mode, far points) and compared with every form the class offers (scalar, array '
    'of every length and order, probability, log probability, residual). Samplers run '
    'against a scripted random state: words over the ends of the draws for size and '
    'support, and a complete grid of the first draws for the distribution: the answers '
    'accepted in the first round must follow the reference density. Histories of '
    'evaluations, samples and parameter changes are enumerated to a depth and compared '
    'with a fresh object.'
)
ASSUMPTIONS = [
    'finite arguments (no nan)',
    'the transitions of TwoSidedErf are narrow compared with its range',
    'the width of GPriorBA is between 1e-3 and 10 (0.02 and 10 when sampling, which is by rejection)',
    'a sample at the very end of a closed range by rounding of the generator is not judged '
    '(draws are at most 1-1e-9)',
]
CHUNK = 4
CASE_TIMEOUT = 200


class Draws(np.random.RandomState):
    """the first draws are given as fractions in (0, 1); counts the draws"""
    def __init__(self, fr=(), seed=1):
        super().__init__(seed)
        self.set(fr)

    def set(self, fr):
        self.fr, self.i = list(fr), 0

    def _f(self, size):
        n = 1 if size is None else int(np.prod(size))
        out = np.empty(n)
        for k in range(n):
            out[k] = self.fr[self.i] if self.i < len(self.fr) else super().random_sample()
            self.i += 1
        return out

    @staticmethod
    def _r(x, size):
        return float(x[0]) if size is None else x.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._r(low + (high - low) * self._f(size), size)

    def random_sample(self, size=None):
        return self._r(self._f(size), size)

    random = random_sample

    def rand(self, *size):
        return self._r(self._f(size or None), size or None)

    def _z(self, size):
        return special.ndtri(np.clip(self._f(size), 1e-8, 1 - 1e-8))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._r(loc + scale * self._z(size), size)

    def standard_normal(self, size=None):
        return self._r(self._z(size), size)

    def randn(self, *size):
        return self._r(self._z(size or None), size or None)


# ---------------------------------------------------------------------------
# one dimensional priors: build, reference ln p (None outside), support

def lognormal_consts(mean, sigma):
    logvar = math.log(1 + sigma ** 2 / mean ** 2)
    logmean = math.log(mean) - 0.5 * logvar
    return logmean, logvar


def build(spec, rng):
    c, p = spec[0], spec[1:]
    if c == 'flat':
        return PR.FlatPrior(p[0], p[1], rng=rng)
    if c == 'erf':
        return PR.TwoSidedErf(p[0], p[1], p[2], p[3], rng=rng)
    if c == 'normal':
        return PR.Normal(p[0], p[1], rng=rng)
    if c == 'normalb':
        return PR.Normal(p[0], p[1], rng=rng, bounds=(p[2], p[3]))
    if c == 'lmb':
        return PR.LMBounds(p[0], p[1], rng=rng)
    if c == 'lognormal':
        return PR.LogNormal(p[0], p[1], rng=rng, shift=p[2])
    if c == 'sinh':
        return PR.Sinh(p[0], p[1], rng=rng)
    if c == 'trunc':
        return PR.TruncatedGaussian(p[0], p[1], p[2], p[3], rng=rng)
    if c == 'bounded':
        return PR.Bounded1D(PR.Normal(p[0], p[1], rng=rng), (p[2], p[3]))
    raise ValueError(c)


OUT = 'outside'


def lnp_ref(spec, x):
    """ln p with maximum zero, or OUT"""
    c, p = spec[0], spec[1:]
    if c == 'flat':
        return 0.0 if p[0] <= x <= p[1] else OUT
    if c == 'erf':
        v = 0.5 * (math.erf((p[2] - x) / p[3]) + math.erf((x - p[0]) / p[1]))
        return math.log(v) if v > 0 else LOWVAL
    if c in ('normal', 'normalb'):
        return -0.5 * ((x - p[0]) / p[1]) ** 2
    if c == 'trunc':
        return -0.5 * ((x - p[0]) / p[1]) ** 2 if p[2] <= x <= p[3] else OUT
    if c == 'lognormal':
        y = x - (p[2] or 0.0)
        if y <= 0:
            return OUT
        m, v = lognormal_consts(p[0], p[1])

        def f(ly):
            return -0.5 * (ly - m) ** 2 / v - ly
        return f(math.log(y)) - f(m - v)
    raise ValueError(c)


def mode(spec):
    c, p = spec[0], spec[1:]
    if c in ('flat', 'erf'):
        return 0.5 * (p[0] + p[1 if c == 'flat' else 2])
    if c == 'lognormal':
        m, v = lognormal_consts(p[0], p[1])
        return math.exp(m - v) + (p[2] or 0.0)
    if c == 'trunc':
        return min(max(p[0], p[2]), p[3])
    return p[0]


def support(spec):
    c, p = spec[0], spec[1:]
    if c == 'flat' or c == 'lmb':
        return p[0], p[1]
    if c in ('trunc', 'bounded'):
        return p[2], p[3]
    if c == 'lognormal':
        return (p[2] or 0.0), np.inf
    if c == 'sinh':
        return p[0] - p[1], p[0] + p[1]
    return -np.inf, np.inf


def scale_of(spec):
    c, p = spec[0], spec[1:]
    if c == 'flat':
        return p[1] - p[0]
    if c == 'erf':
        return max(p[1], p[3])
    return p[1]


def points(spec, th):
    lo, hi = support(spec)
    s, m = scale_of(spec), mode(spec)
    pts = set()
    for e in (lo, hi):
        if np.isfinite(e):
            pts |= {e, float(np.nextafter(e, -np.inf)), float(np.nextafter(e, np.inf)),
                    e - 0.01 * s, e + 0.01 * s, e - s, e + s, e - 1e4 * s, e + 1e4 * s}
    ks = (0.0, 1e-8, 0.1, 0.5, 1.0, 2.0, 5.0, 8.0, 30.0)
    if th:
        ks += (1e-4, 0.25, 1.5, 3.0, 6.0, 7.0, 12.0)
    for k in ks:
        pts |= {m + k * s, m - k * s}
    if spec[0] == 'erf':
        p = spec[1:]
        for c, w in ((p[0], p[1]), (p[2], p[3])):
            for k in ks[:-1]:
                pts |= {c + k * w, c - k * w}
    pts |= {0.0}
    return sorted(pts)


SPECS = []
for lo, hi in ((0.0, 1.0), (-10.0, 1e4), (-3.0, -2.0), (0.1, 0.3), (1e-5, 2e-5), (0, 3)):
    SPECS.append(('flat', lo, hi))
for m, s in ((0.0, 1.0), (3.0, 0.1), (-2.0, 50.0), (1e5, 2.0), (0.5, 1e-3), (2, 3)):
    SPECS.append(('normal', m, s))
SPECS.append(('normalb', 0.5, 0.1, 0.0, 1.0))
for a, wa, b, wb in ((-1.0, 0.1, 2.0, 0.1), (-10.0, 0.03, 1e5, 100.0), (0.0, 0.5, 10.0, 0.01), (5.0, 1e-3, 6.0, 1e-2),
                     (0, 1, 20, 2)):
    SPECS.append(('erf', a, wa, b, wb))
for m, s in ((1.0, 0.2), (0.1, 0.5), (100.0, 30.0), (1.0, 3.0), (2, 1)):
    for sh in (None, 0.0, 0.5, -0.3):
        SPECS.append(('lognormal', m, s, sh))
for m, s in ((0.0, 1.0), (3.0, 0.1), (-2.0, 5.0)):
    for lo, hi in ((-1.0, 1.0), (0.0, 5.0), (2.9, 3.05), (-4.0, -1.5)):
        if special.ndtr((hi - m) / s) - special.ndtr((lo - m) / s) > 0.1:
            SPECS.append(('trunc', m, s, lo, hi))
SPECS.append(('trunc', 0, 2, -1, 1))
NODENS = [('lmb', -1.0, 4.0), ('lmb', 0.01, 0.02), ('sinh', 0.0, 1.0), ('sinh', -5.0, 0.2),
          ('bounded', 0.0, 1.0, -0.5, 2.0), ('bounded', 3.0, 0.5, 3.1, 3.3), ('bounded', 0.0, 1.0, -30.0, 0.0)]


def close(a, b, rtol=1e-10, atol=1e-12):
    if a == b:
        return True
    return abs(a - b) <= rtol * abs(b) + atol


def call(f, *a):
    try:
        return f(*a)
    except GMixRangeError:
        return OUT


def k_scalar(case, rec):
    """point by point: every form against the reference"""
    spec = tuple(case['spec'])
    pr = build(spec, np.random.RandomState(1))
    pts = points(spec, case['th'])
    ref = {}
    for x in pts:
        want = lnp_ref(spec, x)
        ref[x] = want
        rec.state(fp(spec, x))
        rec.eval()
        # the scale for rounding: the argument relative to the width
        s = max(abs(x), abs(mode(spec))) / scale_of(spec)
        at = 1e-11 + 1e-14 * s * s
        forms = {}
        for name in ('get_lnprob_scalar', 'get_lnprob'):
            if hasattr(pr, name):
                forms[name] = call(getattr(pr, name), x)
        for name in ('get_prob_scalar', 'get_prob'):
            if hasattr(pr, name):
                forms[name] = call(getattr(pr, name), x)
        for name in ('get_lnprob_array', 'get_prob_array'):
            if hasattr(pr, name):
                r = call(getattr(pr, name), np.array([x]))
                if not isinstance(r, str):
                    r = np.asarray(r)
                    if r.shape != (1,):
                        rec.fail('array-shape', '%s.%s([x]) has shape %s' % (spec, name, r.shape))
                        continue
                    r = r[0]
                forms[name] = r
        rec.trans(len(forms) + 1)
        fd = call(pr.get_fdiff, x)
        for name, got in forms.items():
            isp = 'lnprob' not in name
            if want is OUT:
                ok = got is OUT or (isp and got == 0) or (not isp and not isinstance(got, str) and got <= LOWVAL)
            elif got is OUT:
                ok = False
            elif isp:
                w = math.exp(want) if want > LOWVAL else 0.0
                # the error function differs from zero by rounding far out
                ok = close(got, w, 1e-9 + at, 1e-15)
            else:
                ok = close(got, want, 1e-9, at) or (want < -30 and got < -30 and spec[0] == 'erf')
            if not ok:
                rec.fail('value', '%s.%s(%r) = %r, reference ln p %r' % (spec, name, x, got, want))
                return
        if want is OUT:
            if fd is not OUT:
                rec.fail('fdiff-outside', '%s.get_fdiff(%r) = %r outside of the support' % (spec, x, fd))
                return
        elif fd is OUT:
            rec.fail('fdiff', '%s.get_fdiff(%r) raised inside the support' % (spec, x))
            return
        elif want > -30 or spec[0] != 'erf':
            if not close(fd ** 2, -2 * want, 1e-9, 3 * at + 1e-14):
                rec.fail('fdiff', '%s.get_fdiff(%r)**2 = %r, -2 ln p = %r' % (spec, x, fd ** 2, -2 * want))
                return
            if spec[0] in ('normal', 'normalb', 'trunc') and x != mode(spec) and abs(fd) > 1e-7:
                if (fd > 0) != (x > spec[1]):
                    rec.fail('fdiff-sign', '%s.get_fdiff(%r) = %r' % (spec, x, fd))
                    return
        rec.outcome('outside' if want is OUT else 'inside')
    # the maximum is zero
    m = call(pr.get_lnprob_scalar, mode(spec))
    if m is OUT or (abs(m) > 1e-12 and spec[0] != 'trunc'):
        rec.fail('peak', '%s: ln p at the mode is %r' % (spec, m))
    # arrays: all the points inside, in both orders, as list where accepted, and with
    # one point outside
    inside = [x for x in pts if ref[x] is not OUT]
    outside = [x for x in pts if ref[x] is OUT]
    for name, sc in (('get_lnprob_array', 'get_lnprob_scalar'), ('get_prob_array', 'get_prob_scalar')):
        if not hasattr(pr, name):
            continue
        for order in (inside, inside[::-1], inside[:1] * 3, inside[1:4], []):
            a = np.array(order, dtype=float)
            b = a.copy()
            got = call(getattr(pr, name), a)
            rec.trans()
            rec.trace()
            rec.eval()
            if isinstance(got, str) or np.shape(got) != a.shape:
                rec.fail('array', '%s.%s of %s: %r' % (spec, name, order, got))
                return
            if not np.array_equal(a, b):
                rec.fail('array-input', '%s.%s changed its input' % (spec, name))
                return
            if hasattr(pr, sc):
                want = np.array([getattr(pr, sc)(x) for x in order])
                if not np.allclose(got, want, rtol=1e-12, atol=1e-13):
                    rec.fail('array', '%s.%s differs from the scalar form: %s %s' % (spec, name, got, want))
                    return
        for x in outside:
            for pos in range(3):
                a = np.array(inside[:2])
                a = np.insert(a, min(pos, a.size), x)
                got = call(getattr(pr, name), a)
                rec.trans()
                rec.eval()
                if isinstance(got, str):
                    continue
                bad = got[min(pos, a.size - 1)]
                if not (bad == 0 if 'lnprob' not in name else bad <= LOWVAL):
                    rec.fail('array-outside', '%s.%s(%s) = %s' % (spec, name, a, got))
                    return


def k_curve(case, rec):
    """priors with residuals only"""
    spec = tuple(case['spec'])
    pr = build(spec, np.random.RandomState(1))
    for x in np.linspace(-12, 12, 97):
        rec.trans()
        rec.eval()
        rec.state(fp(spec, x))
        if spec[0] == 'lmb':
            if pr.get_fdiff(x) != 0:
                rec.fail('fdiff', '%s at %s: %s' % (spec, x, pr.get_fdiff(x)))
                return
        elif spec[0] == 'sinh':
            if not close(pr.get_fdiff(x), math.sinh((x - spec[1]) / spec[2]), 1e-9):
                rec.fail('fdiff', '%s at %s: %s' % (spec, x, pr.get_fdiff(x)))
                return
    if spec[0] in ('lmb', 'bounded'):
        lo, hi = support(spec)
        if not pr.has_bounds() or tuple(pr.bounds) != (lo, hi):
            rec.fail('bounds', '%s: %s' % (spec, pr.bounds))
    elif pr.has_bounds():
        rec.fail('bounds', '%s has bounds' % (spec,))
    rec.trace()
    rec.outcome(spec[0])


# ---------------------------------------------------------------------------
# ellipticity, disk and center priors

def ba_ref(sigma, g):
    return 2 * math.log1p(-g * g) - 0.5 * (g / sigma) ** 2 if g * g < 1 else OUT


def k_shape(case, rec):
    sigma, A = case['sigma'], case['A']
    pr = PR.GPriorBA(sigma, rng=np.random.RandomState(1), A=A)
    rim = [0.999, 1 - 1e-9, float(np.nextafter(1, 0)), 1.0, float(np.nextafter(1, 2)), 1.5, 1e10]
    gs = [0.0, 1e-9, 0.01, 0.1, 0.3, 0.5, 0.9, sigma, 2 * sigma, 8 * sigma] + rim
    xs, ys, want = [], [], []
    for g in gs:
        for th in np.arange(case['nth']) * 2 * np.pi / case['nth'] + 0.0:
            g1, g2 = g * math.cos(th), g * math.sin(th)
            if case['nth'] % 4 == 0 and th in (np.pi / 2, np.pi, 3 * np.pi / 2):
                g1, g2 = {1: (0.0, g), 2: (-g, 0.0), 3: (0.0, -g)}[int(round(th / (np.pi / 2)))]
            gsq = g1 * g1 + g2 * g2
            w = OUT if gsq >= 1 else 2 * math.log1p(-gsq) - 0.5 * gsq / sigma ** 2
            got = call(pr.get_lnprob_scalar2d, g1, g2)
            p = pr.get_prob_scalar2d(g1, g2)
            fd = call(pr.get_fdiff, g1, g2)
            rec.trans(3)
            rec.eval()
            rec.state(fp(sigma, A, g1, g2))
            what = 'GPriorBA(%s, A=%s) at %r %r' % (sigma, A, g1, g2)
            at = 1e-12 if gsq < 0.99 else 1e-2   # 1-g^2 by cancellation at the rim
            if (w is OUT) != (got is OUT) or w is not OUT and not close(got, w, 1e-9, at):
                rec.fail('g-lnprob', '%s: %r, expected %r' % (what, got, w))
                return
            wp = 0.0 if w is OUT else A * math.exp(w)
            if not close(p, wp, 1e-9 if gsq < 0.99 else 1e-2, 1e-14 * A):
                rec.fail('g-prob', '%s: %r, expected %r' % (what, p, wp))
                return
            if (fd is OUT) != (w is OUT) or w is not OUT and not close(fd ** 2, -2 * w, 1e-9, 2 * at):
                rec.fail('g-fdiff', '%s: %r, expected ln p %r' % (what, fd, w))
                return
            xs.append(g1)
            ys.append(g2)
            want.append(w)
            rec.outcome('rim' if w is OUT else 'disk')
        if g < 1e5:
            p1 = pr.get_prob_scalar1d(g)
            w1 = 0.0 if ba_ref(sigma, g) is OUT else A * 2 * math.pi * g * math.exp(ba_ref(sigma, g))
            if not close(p1, w1, 1e-9 if g < 0.99 else 1e-2, 1e-14 * A):
                rec.fail('g-prob1d', 'sigma %s g %s: %r, expected %r' % (sigma, g, p1, w1))
                return
    x, y = np.array(xs), np.array(ys)
    ins = np.array([w is not OUT for w in want])
    for sel in (slice(None), slice(None, None, -1), ins, ~ins, slice(0, 1), slice(0, 0)):
        a, b = x[sel].copy(), y[sel].copy()
        lp, p = pr.get_lnprob_array2d(a, b), pr.get_prob_array2d(a, b)
        rec.trans(3)
        rec.trace()
        rec.eval()
        if lp.shape != a.shape or p.shape != a.shape:
            rec.fail('g-array', 'shapes %s %s' % (lp.shape, p.shape))
            return
        if not (np.array_equal(a, x[sel]) and np.array_equal(b, y[sel])):
            rec.fail('g-array-input', 'input changed')
            return
        for i in range(a.size):
            s = call(pr.get_lnprob_scalar2d, a[i], b[i])
            ok = lp[i] <= LOWVAL and p[i] == 0 if s is OUT else (
                close(lp[i], s, 1e-12, 1e-13) and close(p[i], pr.get_prob_scalar2d(a[i], b[i]), 1e-12, 1e-300))
            if not ok:
                rec.fail('g-array', 'sigma %s A %s at %r %r: %r %r, scalar %r' % (sigma, A, a[i], b[i], lp[i], p[i], s))
                return
        fa = pr.get_fdiff(a[:0] if a.size == 0 else a, b)
        for i in range(a.size):
            s = call(pr.get_fdiff, a[i].item(), b[i].item())
            if s is not OUT and not close(fa[i], s, 1e-9, 1e-9):
                rec.fail('g-fdiff-array', 'sigma %s at %r %r: %r, scalar %r' % (sigma, a[i], b[i], fa[i], s))
                return
            if s is OUT and fa[i] ** 2 < -LOWVAL:
                rec.fail('g-fdiff-array', 'sigma %s at %r %r: %r outside of the disk' % (sigma, a[i], b[i], fa[i]))
                return
    g = np.array(gs[:-1])
    p1 = pr.get_prob_array1d(g)
    rec.trans()
    if not np.allclose(p1, [pr.get_prob_scalar1d(v) for v in g], rtol=1e-12, atol=0):
        rec.fail('g-prob1d', 'array %s' % p1)
    if A == 1 and pr.get_lnprob_scalar2d(0.0, 0.0) != 0:
        rec.fail('g-peak', 'ln p(0) = %s' % pr.get_lnprob_scalar2d(0.0, 0.0))


def k_disk(case, rec):
    R = case['r']
    pr = PR.ZDisk2D(R, rng=np.random.RandomState(1))
    rs = [0.0, 0.5 * R, R * (1 - 1e-9), R * (1 + 1e-9), 2 * R, R]
    X, Y, W = [], [], []
    for r in rs:
        got, p = call(pr.get_lnprob_scalar1d, r), pr.get_prob_scalar1d(r)
        rec.trans(2)
        rec.eval()
        w = 0.0 if r < R else OUT
        if (w is OUT) != (got is OUT) or p != (0 if w is OUT else 1) or w is not OUT and got != 0:
            rec.fail('disk1d', 'R %s r %r: %r %r' % (R, r, got, p))
            return
        for th in np.arange(8) * np.pi / 4 + 0.1:
            if r == R:
                continue    # rounding decides
            x, y = r * math.cos(th), r * math.sin(th)
            got, p = call(pr.get_lnprob_scalar2d, x, y), pr.get_prob_scalar2d(x, y)
            rec.trans(2)
            rec.eval()
            rec.state(fp(R, x, y))
            rec.outcome(p)
            if (w is OUT) != (got is OUT) or p != (0 if w is OUT else 1) or w is not OUT and got != 0:
                rec.fail('disk2d', 'R %s at %r %r: %r %r' % (R, x, y, got, p))
                return
            X.append(x)
            Y.append(y)
            W.append(0.0 if w is OUT else 1.0)
    for sl in (slice(None), slice(None, None, -1), slice(0, 1), slice(0, 0)):
        got = pr.get_prob_array2d(np.array(X)[sl], np.array(Y)[sl])
        rec.trans()
        rec.trace()
        if not np.array_equal(got, np.array(W)[sl]):
            rec.fail('disk-array', 'R %s: %s' % (R, got))
            return


def k_cen(case, rec):
    c1, c2, s1, s2 = case['p']
    pr = (PR.CenPrior if case['cls'] == 'CenPrior' else PR.SimpleGauss2D)(c1, c2, s1, s2, rng=np.random.RandomState(1))
    ks = (-8.0, -1.0, -1e-5, 0.0, 0.5, 3.0, 30.0)
    X, Y, W = [], [], []
    for k1, k2 in itertools.product(ks, repeat=2):
        x, y = c1 + k1 * s1, c2 + k2 * s2
        d1, d2 = (x - c1) / s1, (y - c2) / s2
        want = -0.5 * (d1 * d1 + d2 * d2)
        sep = pr.get_lnprob_scalar_sep(x, y)
        fd = pr.get_fdiff(x, y)
        rec.trans(4)
        rec.eval()
        rec.state(fp(case, x, y))
        err = None
        if not close(pr.get_lnprob_scalar(x, y), want, 1e-9):
            err = 'ln p %r, expected %r' % (pr.get_lnprob_scalar(x, y), want)
        elif not close(pr.get_prob_scalar(x, y), math.exp(want), 1e-9, 1e-300):
            err = 'p %r, expected %r' % (pr.get_prob_scalar(x, y), math.exp(want))
        elif not (close(sep[0], -0.5 * d1 * d1, 1e-9) and close(sep[1], -0.5 * d2 * d2, 1e-9)):
            err = 'separate ln p %r' % (sep,)
        elif not (close(fd[0], d1, 1e-9) and close(fd[1], d2, 1e-9)):
            err = 'residuals %r' % (fd,)
        if err:
            rec.fail('cen', '%s at %r %r: %s' % (case, x, y, err))
            return
        X.append(x)
        Y.append(y)
        W.append(want)
    X, Y, W = np.array(X), np.array(Y), np.array(W)
    for sl in (slice(None), slice(None, None, -1), slice(0, 1), slice(0, 0)):
        rec.trans(3)
        rec.trace()
        rec.eval()
        a, b = X[sl].copy(), Y[sl].copy()
        lp, p, fd = pr.get_lnprob_array(a, b), pr.get_prob_array(a, b), pr.get_fdiff(a, b)
        if not (np.allclose(lp, W[sl], rtol=1e-9, atol=1e-12) and np.allclose(p, np.exp(W[sl]), rtol=1e-9)
                and np.allclose(fd[0] ** 2 + fd[1] ** 2, -2 * W[sl], rtol=1e-9, atol=1e-12)):
            rec.fail('cen-array', str(case))
            return
        if not (np.array_equal(a, X[sl]) and np.array_equal(b, Y[sl])):
            rec.fail('cen-array', 'input changed')
    rec.outcome(case['cls'])


# ---------------------------------------------------------------------------
# samples

def isscalar(x):
    return np.ndim(x) == 0


SAMPLERS = {}


def mk(spec, rng):
    c = spec[0]
    if c == 'ba':
        return PR.GPriorBA(spec[1], rng=rng)
    if c == 'gauss':
        return PR.GPriorGauss(spec[1], rng=rng)
    if c == 'disk':
        return PR.ZDisk2D(spec[1], rng=rng)
    if c == 'cen':
        return PR.CenPrior(*spec[1:], rng=rng)
    if c == 'kde1':
        return PR.KDE(data=np.random.RandomState(5).normal(size=30), kde_factor=0.3, rng=rng)
    if c == 'kde2':
        return PR.KDE(data=np.random.RandomState(5).normal(size=(30, 2)), kde_factor=0.3, rng=rng)
    return build(spec, rng)


def draw(spec, pr, how, n):
    """a list of component arrays (or scalars)"""
    r = getattr(pr, how)(n) if n is not None or how in ('sample', 'sample2d', 'sample_brute') or spec[0] == 'disk' else None
    return list(r) if isinstance(r, tuple) else [r]


def insupport(spec, how, comps):
    c = spec[0]
    comps = [np.atleast_1d(x) for x in comps]
    if c in ('ba', 'gauss'):
        g = comps[0] if len(comps) == 1 else np.hypot(*comps)
        return np.all((g < 1.0) & (len(comps) > 1 or np.all(g >= 0)))
    if c == 'disk':
        r = comps[0] if len(comps) == 1 else np.hypot(*comps)
        return np.all((r >= 0) & (r < spec[1] * (1 + 1e-12)))
    if c in ('cen', 'kde1', 'kde2'):
        return True
    lo, hi = support(spec)
    x = comps[0]
    if c == 'erf':
        # zero probability far from the range
        pr = build(spec, np.random.RandomState(1))
        return np.all(pr.get_prob_array(x) > 0)
    if c in ('lognormal', 'bounded'):
        return np.all((x > lo) & (x < hi))
    return np.all((x >= lo) & (x <= hi))


def k_words(case, rec):
    """size, support, determinism over all words of the first draws"""
    spec, how, n = tuple(case['spec']), case['how'], case['n']
    np.random.seed(77)
    state0 = np.random.get_state()[1].copy()
    for word in itertools.product((1e-9, 0.5, 1 - 1e-9), repeat=case['len']):
        rng = Draws(word)
        pr = mk(spec, rng)
        got = draw(spec, pr, how, n)
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp(case, word))
        what = '%s.%s(%s) draws %s' % (spec, how, n, word)
        dims = 1 if spec[0] != 'kde2' else None
        for c in got:
            if n is None:
                ok = isscalar(c) if dims else np.shape(c) == (2,)
            else:
                ok = np.shape(c) == ((n,) if dims else (n, 2))
            if not ok or not np.all(np.isfinite(c)):
                rec.fail('sample-size', '%s: %r' % (what, c))
                return
        if not insupport(spec, how, got):
            rec.fail('sample-support', '%s: %r' % (what, got))
            return
        again = draw(spec, mk(spec, Draws(word)), how, n)
        if not all(np.array_equal(a, b) for a, b in zip(got, again)):
            rec.fail('sample-rng', '%s: %r and then %r' % (what, got, again))
            return
        rec.outcome('%s %s' % (spec[0], how))
    if not np.array_equal(state0, np.random.get_state()[1]):
        rec.fail('global-state', str(case))


def quad(spec, how):
    """mean and standard deviation per component of the reference"""
    c = spec[0]
    if c == 'ba':
        g = np.linspace(0, 1, 20001)[1:-1]
        p = g * np.exp([ba_ref(spec[1], v) for v in g])
        if how == 'sample1d':
            m = (p * g).sum() / p.sum()
            return [(m, math.sqrt((p * (g - m) ** 2).sum() / p.sum()))]
        s = math.sqrt(0.5 * (p * g * g).sum() / p.sum())
        return [(0.0, s)] * 2
    if c == 'gauss':
        g = np.linspace(0, 1 - 1e-4, 20001)
        p = g * np.exp(-0.5 * (g / spec[1]) ** 2)
        s = math.sqrt(0.5 * (p * g * g).sum() / p.sum())
        return [(0.0, s)] * 2
    if c == 'disk':
        if how == 'sample1d':
            return [(2 / 3 * spec[1], spec[1] / math.sqrt(18))]
        return [(0.0, spec[1] / 2)] * 2
    if c == 'cen':
        return [(spec[1], spec[3]), (spec[2], spec[4])]
    p = spec[1:]
    if c == 'sinh':
        return [(p[0], p[1] / math.sqrt(3))]
    if c == 'lmb':
        return [(0.5 * (p[0] + p[1]), (p[1] - p[0]) / math.sqrt(12))]
    if c == 'lognormal':
        m, v = lognormal_consts(p[0], p[1])
        return [(m, math.sqrt(v))]     # of the logarithm
    lo, hi = support(spec)
    if c == 'erf':
        lo, hi = p[0] - 5 * p[1], p[2] + 5 * p[3]
    if c in ('normal', 'normalb'):
        lo, hi = p[0] - 9 * p[1], p[0] + 9 * p[1]
    x = np.linspace(max(lo, p[0] - 9 * p[1]) if c in ('trunc', 'bounded') else lo,
                    min(hi, p[0] + 9 * p[1]) if c in ('trunc', 'bounded') else hi, 40001)
    s2 = spec if c != 'bounded' else ('normal',) + p[:2]
    w = np.exp([v if v is not OUT else -1e9 for v in (lnp_ref(s2, t) for t in x)])
    m = (w * x).sum() / w.sum()
    return [(m, math.sqrt((w * (x - m) ** 2).sum() / w.sum()))]


def k_dist(case, rec):
    """the answers to a complete grid of the first draws follow the density"""
    spec, how = tuple(case['spec']), case['how']
    K, nd = case['K'], case['nd']
    mids = (np.arange(K) + 0.5) / K
    rng = Draws()
    pr = mk(spec, rng)
    if case['warm']:
        draw(spec, pr, how, 3)
    out, used = [], []
    for fr in itertools.product(mids, repeat=nd):
        rng.set(fr)
        got = draw(spec, pr, how, 1)
        out.append([c[0] for c in got])
        used.append(rng.i)
    rec.trans(len(out))
    rec.trace(len(out))
    rec.eval()
    rec.state(fp(case))
    used = np.array(used)
    first = used == used.min()
    if used.min() > nd:
        rec.outcome('more draws than enumerated')
        return
    x = np.array(out)[first]
    if spec[0] == 'lognormal':
        x = np.log(x - (spec[3] or 0))
    rec.outcome('accepted %s' % ('all' if first.all() else 'part'))
    for j, (m, s) in enumerate(quad(spec, how)):
        gm, gs = x[:, j].mean(), x[:, j].std()
        if abs(gm - m) > case['tol'] * s + 1e-9 * abs(m) or abs(gs / s - 1) > case['tol']:
            rec.fail('distribution', '%s.%s component %d: mean %s std %s, expected %s %s (%d of %d accepted)' % (
                spec, how, j, gm, gs, m, s, first.sum(), first.size))
            return
    rec.sample(dict(case=case, accepted=int(first.sum())))


# ---------------------------------------------------------------------------
# histories

def k_history(case, rec):
    """evaluation does not depend on what was done before"""
    spec = tuple(case['spec'])
    for hist in itertools.product(case['ops'], repeat=case['len']):
        hist = tuple(case.get('first', ())) + hist
        pr = mk(spec, np.random.RandomState(4))
        cur = spec
        for op in hist:
            rec.trans()
            if op == 'sample':
                pr.sample2d(2) if spec[0] in ('ba', 'disk') else pr.sample(2)
            elif op == 'sample1d':
                pr.sample1d(2)
            elif op == 'eval':
                evaluate(pr, cur)
            elif op == 'raise':
                try:
                    if spec[0] in ('ba', 'disk'):
                        pr.get_lnprob_scalar2d(1e3, 1e3)
                    else:
                        pr.get_lnprob_scalar(-1e9)
                except GMixRangeError:
                    pass
            elif op.startswith('sigma'):
                pr.set_sigma(float(op[5:]))
                cur = ('ba', float(op[5:]))
            elif op.startswith('pars'):
                pr.set_pars([1.0, float(op[4:])])
                cur = ('ba', float(op[4:]))
            elif op.startswith('limits'):
                lim = (0.2, 0.9) if op[6:] == '1' else (-0.5, 2.0)
                pr.set_limits(lim)
                cur = ('bounded',) + cur[1:3] + lim
        fresh = mk(cur, np.random.RandomState(9))
        rec.trace()
        rec.eval()
        rec.state(fp(spec, hist))
        a, b = evaluate(pr, cur), evaluate(fresh, cur)
        if not np.array_equal(a, b):
            rec.fail('history', '%s after %s: %s, fresh %s' % (spec, hist, a, b))
            return
        # the same random answers give the same samples, up to the accuracy of the
        # maximum found for rejection sampling; demanded only as distribution
        if case.get('dist') and hist[-1] != 'sample':
            pr.rng = Draws()
            K = 24
            acc = []
            for fr in itertools.product((np.arange(K) + 0.5) / K, repeat=2):
                pr.rng.set((0.5,) + fr)
                g = pr.sample1d(1)[0]
                acc.append((pr.rng.i, g))
            n = min(a for a, g in acc)
            x = np.array([g for a, g in acc if a == n])
            (m, s), = quad(cur, 'sample1d')
            rec.trans(len(acc))
            if n == 3 and (abs(x.mean() - m) > 0.08 * s or abs(x.std() / s - 1) > 0.08):
                rec.fail('history-samples', '%s after %s: mean %s std %s, expected %s %s' % (spec, hist, x.mean(), x.std(), m, s))
                return
        rec.outcome(len(hist))


def evaluate(pr, spec):
    if spec[0] in ('ba',):
        g = np.array([0.0, 0.1, 0.4, 0.95])
        return np.concatenate([pr.get_lnprob_array2d(g, 0.1 * g), pr.get_prob_array2d(g, -g), pr.get_prob_array1d(g)])
    if spec[0] == 'disk':
        x = np.array([0.0, 0.3, 0.9, 1.4])
        return pr.get_prob_array2d(x, -x)
    if spec[0] == 'bounded':
        pr.rng = None
        pr.pdf.rng = np.random.RandomState(8)
        return np.concatenate([np.array(pr.bounds, dtype=float), pr.sample(50)])
    m, s = mode(spec), scale_of(spec)
    x = m + s * np.array([0.0, 0.01, 0.02])
    return np.concatenate([pr.get_lnprob_array(x), [pr.get_lnprob_scalar(v) for v in x], [pr.get_fdiff(v) for v in x]])


def k_bad(case, rec):
    """improper construction is refused"""
    rng = np.random.RandomState(1)
    rec.trans()
    rec.eval()
    rec.state(fp(case))
    w = case['w']
    try:
        if w == 'rng':
            build(tuple(case['spec']), None)
        elif w == 'mean':
            PR.LogNormal(case['m'], 1.0, rng=rng)
        elif w == 'limits':
            PR.Bounded1D(PR.Normal(0.0, 1.0, rng=rng), case['lim'])
    except (AssertionError, ValueError) as err:
        rec.outcome(type(err).__name__)
        return
    rec.fail('accepted', str(case))


def k_fit(case, rec):
    """fits of a density recover its parameters and leave the inputs alone"""
    w, p, amp, n = case['w'], case['p'], case['amp'], case['n']
    if w == 'lognormal':
        m, s = p
        x = np.linspace(m - 2.5 * s if m > 3 * s else 0.02 * m, m + 3.5 * s, n)
        y = amp * np.array([math.exp(lnp_ref(('lognormal', m, s, None), v)) for v in x])
        pr = PR.LogNormal(m * case['off'], s / case['off'], rng=np.random.RandomState(4))
        probe = [0.3 * m, m, 2.0 * m]
        before = [pr.get_lnprob_scalar(v) for v in probe]
        x0, y0 = x.copy(), y.copy()
        res = pr.fit(x, y) if not case['aslist'] else pr.fit(list(x), list(y))
        got = res['pars']
        want = [m, s, amp]
        if res['flags'] != 0:
            rec.fail('fit-flags', '%s: flags %s' % (case, res['flags']))
            return
        if [pr.get_lnprob_scalar(v) for v in probe] != before:
            rec.fail('fit-changes-prior', '%s: the fit changed the prior it was made with' % case)
    else:
        x = np.linspace(0.0, 1.0, n + 2)[1:-1]
        y = np.array([amp * 2 * math.pi * g * math.exp(ba_ref(p[0], g)) for g in x])
        # counts in bins: none far out
        x, y = x[y > 1e-3 * y.max()], y[y > 1e-3 * y.max()]
        if case['zeros']:
            # bins without data are not used
            x = np.concatenate([[0.0], x, [0.5]])
            y = np.concatenate([[0.0], y, [0.0]])
        pr = PR.GPriorBA(p[0] * case['off'], rng=np.random.RandomState(4))
        if case['warm']:
            pr.sample1d(5)
        x0, y0 = x.copy(), y.copy()
        guess = [amp * 1.2, p[0] * 0.8] if case['guess'] else None
        with contextlib.redirect_stdout(io.StringIO()):
            if case['aslist']:
                pr.fit(list(x), list(y), guess=guess)
            else:
                getattr(pr, 'fit' if case['guess'] else 'dofit')(x, y, guess=guess)
        got = np.array(pr.fit_pars)
        got[1] = abs(got[1])
        want = [amp, p[0]]
        if np.shape(pr.fit_pars_cov) != (2, 2) or np.shape(pr.fit_perr) != (2,):
            rec.fail('fit-shape', str(case))
        # the prior now is the fitted one
        for g in (0.1, 0.4, 0.8):
            if not close(pr.get_prob_scalar1d(g), amp * 2 * math.pi * g * math.exp(ba_ref(p[0], g)), 1e-3, 1e-6 * amp):
                rec.fail('fit-prior', '%s: density at %s' % (case, g))
        s = pr.sample1d(200)
        if not np.all((s >= 0) & (s < 1)) or abs(s.mean() - quad(('ba', p[0]), 'sample1d')[0][0]) > 0.3 * p[0]:
            rec.fail('fit-sample', '%s: samples of the fitted prior have mean %s' % (case, s.mean()))
    rec.trans()
    rec.trace()
    rec.eval()
    rec.state(fp(case))
    rec.outcome('fit ' + w)
    if not np.array_equal(x, x0) or not np.array_equal(y, y0):
        rec.fail('fit-input', '%s: the data passed were changed' % case)
    if not np.allclose(got, want, rtol=1e-3):
        rec.fail('fit-pars', '%s: %s, expected %s' % (case, got, want))


def k_fdarr(case, rec):
    """residuals of arrays are those of their elements"""
    spec = tuple(case['spec'])
    pr = build(spec, np.random.RandomState(1))
    pts = points(spec, case['th'])
    for order in (pts, pts[::-1], pts[:1], [], pts[2:7]):
        a = np.array(order, float)
        b = a.copy()
        got = pr.get_fdiff(a)
        want = np.array([pr.get_fdiff(float(v)) for v in order])
        rec.trans()
        rec.eval()
        rec.trace()
        rec.state(fp(spec, order))
        if np.shape(got) != a.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-13):
            rec.fail('fdiff-array', '%s: %s, elements give %s' % (spec, got, want))
            return
        if not np.array_equal(a, b):
            rec.fail('fdiff-array', '%s: input changed' % (spec,))
    rec.outcome('fdarr')


KINDS = dict(fit=k_fit, fdarr=k_fdarr, scalar=k_scalar, curve=k_curve, shape=k_shape, disk=k_disk, cen=k_cen, words=k_words,
             dist=k_dist, history=k_history, bad=k_bad)


def cases(tier):
    th = tier == 'thorough'
    for spec in SPECS:
        yield 'scalar', dict(spec=spec, th=th)
    for spec in NODENS:
        yield 'curve', dict(spec=spec)
    for sigma in (1e-3, 0.05, 0.2, 0.3, 0.7, 1.0, 3.0, 10.0):
        for A in (1.0, 7.0, 0.01):
            yield 'shape', dict(sigma=sigma, A=A, nth=24 if th else 12)
    for r in (1.0, 0.3, 17.0, 1e-4, 1e5):
        yield 'disk', dict(r=r)
    for p in ((0.0, 0.0, 1.0, 1.0), (1.0, -2.0, 0.1, 5.0), (30.0, 1e-3, 1e-3, 0.2), (1, 2, 3, 4)):
        for cls in ('CenPrior', 'SimpleGauss2D'):
            yield 'cen', dict(p=p, cls=cls)
    samplers = [(s, 'sample') for s in SPECS + NODENS]
    samplers += [(('ba', s), h) for s in (0.02, 0.05, 0.3, 0.6, 1.0, 5.0) for h in ('sample1d', 'sample2d', 'sample2d_brute')
                 if not (h == 'sample2d_brute' and s < 0.3)]
    samplers += [(('gauss', s), 'sample2d') for s in (0.05, 0.4, 3.0)]
    samplers += [(('disk', r), h) for r in (1.0, 17.0, 1e-4) for h in ('sample1d', 'sample2d')]
    samplers += [(('cen', 1.0, -2.0, 0.1, 5.0), h) for h in ('sample', 'sample2d')]
    samplers += [(('kde1',), 'sample'), (('kde2',), 'sample')]
    for spec, how in samplers:
        for n in (None, 1, 2, 5):
            if n is None and (how == 'sample2d_brute' or how == 'sample1d' and spec[0] == 'ba'):
                continue
            L = 2 if spec[0].startswith('kde') else (6 if th else 4)
            yield 'words', dict(spec=spec, how=how, n=n, len=L)
    for s in SPECS:
        if s[0] == 'lognormal' and s[3] is not None:
            for n in (None, 1, 2, 5):
                yield 'words', dict(spec=s, how='sample_brute', n=n, len=4)
    for s in SPECS:
        if s[0] in ('erf', 'normal', 'normalb'):
            yield 'fdarr', dict(spec=s, th=th)
    for p in ((1.0, 0.2), (0.1, 0.05), (100.0, 30.0), (1.0, 0.6), (2, 1)):
        for amp in (1.0, 7.3, 0.02):
            for n in (20, 51):
                for off in (1.0, 1.4):
                    yield 'fit', dict(w='lognormal', p=p, amp=amp, n=n, off=off, aslist=amp == 7.3)
    for s in (0.05, 0.15, 0.3, 0.6):
        for amp in (1.0, 50.0):
            for n in (20, 60):
                for zeros in (False, True):
                    for guess in (False, True):
                        for warm in (False, True):
                            yield 'fit', dict(w='ba', p=[s], amp=amp, n=n, zeros=zeros, guess=guess, warm=warm,
                                              off=1.3, aslist=n == 60 and guess)
    for s, how in samplers:
        c = s[0]
        if c.startswith('kde') or how == 'sample2d_brute':
            continue
        nd, tol = {'ba': (3 if how == 'sample1d' else 4, 0.05), 'gauss': (2, 0.05), 'disk': (1 if how == 'sample1d' else 2, 0.02),
                   'cen': (2, 0.02), 'flat': (1, 0.02), 'lmb': (1, 0.02), 'sinh': (1, 0.02), 'normal': (1, 0.03),
                   'normalb': (1, 0.03), 'lognormal': (1, 0.03), 'trunc': (1, 0.03), 'bounded': (1, 0.03),
                   'erf': (2, 0.03)}[c]
        K = {1: 2000, 2: 100 if not th else 200, 3: 22 if not th else 40, 4: 10 if not th else 18}[nd]
        if c == 'ba' and s[1] < 0.2:
            continue       # too few of the grid points are accepted
        if nd == 4:
            tol = 0.1
        for warm in (False, True):
            yield 'dist', dict(spec=s, how=how, nd=nd, K=K, tol=tol, warm=warm)
    L = 4 if th else 3
    ops = ('sample', 'eval', 'raise', 'sigma0.1', 'pars0.6', 'sample1d')
    for first in ops:
        yield 'history', dict(spec=('ba', 0.3), ops=ops, first=[first], len=L - 1, dist=1)
    yield 'history', dict(spec=('ba', 0.05), ops=('sample', 'sigma0.3', 'pars0.6'), len=L, dist=1)
    yield 'history', dict(spec=('disk', 1.0), ops=('sample', 'eval', 'raise', 'sample1d'), len=L)
    yield 'history', dict(spec=('bounded', 0.5, 1.0, -1.0, 1.0), ops=('sample', 'eval', 'limits1', 'limits2'), len=L)
    for s in (('flat', 0.0, 1.0), ('normal', 3.0, 0.1), ('erf', -1.0, 0.1, 2.0, 0.1), ('lognormal', 1.0, 0.2, 0.5),
              ('trunc', 0.0, 1.0, -1.0, 1.0)):
        yield 'history', dict(spec=s, ops=('sample', 'eval', 'raise'), len=L)
    for s in SPECS:
        yield 'bad', dict(w='rng', spec=s)
    for m in (0, -1.0):
        yield 'bad', dict(w='mean', m=m)
    for lim in ([1.0], [0.0, 1.0, 2.0], [1.0, 1.0], [2.0, 1.0], 3.0, []):
        yield 'bad', dict(w='limits', lim=lim)
