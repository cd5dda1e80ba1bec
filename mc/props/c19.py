"""
C19  flags are disjoint bits and their text names exactly the bits set
"""
import itertools
import numpy as np
import ngmix
from ngmix import flags as F
from ngmix.fitting import leastsqbound as LB
from mc.core import fp
from mc import data as D
from mc.props.c15 import image, weight, jacobian

LEVEL = 'model_checking'
RULE = (
    'All pairs of named flags; the text of every one of the 2^n values made of the named '
    'bits (n named bits) and of every value with up to three bits of the 32-bit flag word, '
    'for every integer type that holds it and for every small custom table of names; every '
    'flag in the results of all measurement classes over the complete product of image, '
    'weight and option classes and over every answer of a scripted minimizer.'
)
ASSUMPTIONS = ['flag values are 32-bit words (bits above are ignored by design, an existing test demands it)']
CHUNK = 1
CASE_TIMEOUT = 300

ALIASES = {frozenset(('EM_RANGE_ERROR', 'GMIX_RANGE_ERROR')), frozenset(('EM_MAXITER', 'MAXITER')),
           frozenset(('BAD_VAR', 'NONPOS_VAR'))}


def named():
    return {k: v for k, v in vars(F).items() if k.isupper() and isinstance(v, (int, np.integer))}


def words(val, names=None):
    names = F.NAME_MAP if names is None else names
    return [names.get(1 << b, 'bit 2**%d' % b) for b in range(32) if (int(val) >> b) & 1]


def split(text):
    return sorted(text.split('|')) if text else []


def k_table(case, rec):
    nm = named()
    if len(nm) < 16:
        rec.fail('table', 'only %d named flags' % len(nm))
    for k, v in nm.items():
        rec.trans()
        rec.eval()
        rec.state(fp(k, int(v)))
        if v <= 0 or v & (v - 1) or v >= 2 ** 32:
            rec.fail('single-bit', '%s = %s is not a single bit of a 32-bit word' % (k, v))
        d = F.NAME_MAP.get(v)
        if not isinstance(d, str) or not d or '|' in d:
            rec.fail('description', '%s has description %r' % (k, d))
    for a, b in itertools.combinations(sorted(nm), 2):
        rec.trans()
        rec.eval()
        if nm[a] & nm[b] and frozenset((a, b)) not in ALIASES:
            rec.fail('shared-bit', '%s and %s share a bit' % (a, b))
    for al in ALIASES:
        a, b = sorted(al)
        if a in nm and b in nm and nm[a] != nm[b]:
            rec.fail('alias', '%s and %s differ' % (a, b))
    vals = list(F.NAME_MAP.values())
    for a, b in itertools.combinations(range(len(vals)), 2):
        rec.trans()
        if vals[a] == vals[b]:
            rec.fail('description', 'two flags are both described as %r' % vals[a])
    for k in F.NAME_MAP:
        if k <= 0 or k & (k - 1):
            rec.fail('single-bit', 'the table describes %s' % k)
    rec.trace()
    rec.outcome(len(nm))


TYPES = [int, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64]


def as_type(t, v):
    if t is int:
        return int(v)
    info = np.iinfo(t)
    return t(v) if info.min <= v <= info.max else None


def judge(rec, v, text, names=None, how=''):
    rec.eval()
    want = sorted(words(v, names))
    if not isinstance(text, str) or split(text) != want:
        rec.fail('text', 'the text of %s%s is %r, bits %s' % (bin(v), how, text, want))
        return False
    return True


def k_named(case, rec):
    """all values made of named bits"""
    bits = sorted({int(v) for v in F.NAME_MAP})
    hi = case['hi']
    nlow = len(bits) - 4
    for m in range(2 ** nlow):
        v = 0
        for i, b in enumerate(bits[:nlow]):
            if (m >> i) & 1:
                v |= b
        for i, b in enumerate(bits[nlow:]):
            if (hi >> i) & 1:
                v |= b
        rec.trans()
        rec.state(fp('v', v))
        if not judge(rec, v, F.get_flags_str(v)):
            return
    rec.trace()
    rec.outcome('named')


def k_bits(case, rec):
    """up to n bits set, all integer types, scalars and one-element arrays"""
    n = case['n']
    for r in range(n + 1):
        for bs in itertools.combinations(range(32), r):
            if r and bs[0] % 4 != case['mod'] or (not r and case['mod']):
                continue
            v = sum(1 << b for b in bs)
            rec.state(fp('v', v))
            for t in TYPES:
                x = as_type(t, v)
                if x is None:
                    continue
                rec.trans()
                if not judge(rec, v, F.get_flags_str(x), how=' as ' + t.__name__):
                    return
                if t is not int and r < 2:
                    rec.trans()
                    if not judge(rec, v, F.get_flags_str(np.array(x)), how=' as array of ' + t.__name__):
                        return
    rec.trace()
    rec.outcome('bits')


def k_maps(case, rec):
    """custom tables of names"""
    bits = (0, 1, 5, 16, 31)
    before = dict(F.NAME_MAP)
    for sub in itertools.product((0, 1), repeat=len(bits)):
        names = {1 << b: 'custom %d' % b for b, s in zip(bits, sub) if s}
        keep = dict(names)
        for m in range(2 ** len(bits)):
            v = sum(1 << b for i, b in enumerate(bits) if (m >> i) & 1)
            rec.trans(2)
            rec.state(fp('map', sub, v))
            judge(rec, v, F.get_flags_str(v, names), names, ' with a table of %d' % len(names))
            judge(rec, v, F.get_flags_str(np.uint32(v), name_map=names), names, ' with a table of %d' % len(names))
        if names != keep or F.NAME_MAP != before:
            rec.fail('table-changed', 'get_flags_str changed a table')
    for v in (-1, -2, -2 ** 31, np.int32(-5), np.int64(-1), np.int8(-128)):
        rec.trans()
        try:
            F.get_flags_str(v)
            rec.fail('negative', 'the negative value %s is accepted' % v)
        except ValueError:
            rec.outcome('negative')
    rec.trace()


# ---------------------------------------------------------------------------
# flags of results

def monitor(rec, res, what):
    bits = 0
    for k in F.NAME_MAP:
        bits |= k
    found = 0
    for k in list(res.keys()):
        if not (k == 'flags' or k.endswith('_flags')):
            continue
        found += 1
        for v in np.atleast_1d(res[k]):
            rec.eval()
            rec.outcome((k, int(v)))
            if int(v) < 0 or int(v) & ~bits:
                rec.fail('unnamed', '%s: %s = %s has bits without name' % (what, k, v))
                return
        s = k[:-1] + 'str'
        if s in res:
            if split(res[s]) != sorted(words(res[k])):
                rec.fail('result-text', '%s: %s is %r for %s = %s' % (what, s, res[s], k, res[k]))
                return
    if not found:
        rec.fail('no-flags', '%s: the result has no flags' % what)


def mkobs(im, w, jac, psf):
    dims = im.shape
    p = None
    if psf:
        g = ngmix.GMixModel([0, 0, 0.02, 0.01, 3.0 * abs(jac.area), 1.0], 'gauss')
        pim = g.make_image(dims, jacobian=jac)
        p = ngmix.Observation(pim + 0.0, weight=np.ones(dims), jacobian=jac, gmix=g if psf == 2 else None)
    return ngmix.Observation(im, weight=w, jacobian=jac, psf=p)


def measures(jac, th):
    a = abs(jac.area)
    s = np.sqrt(a)
    from ngmix.admom import AdmomFitter
    from ngmix.em.em import EMFitter, EMFitterFixCen, EMFitterFixCov, EMFitterFluxOnly, prep_obs
    from ngmix import prepsfmom
    out = []
    for T in (0.5, 5.0, 100.0):
        for kw in ({}, dict(maxiter=1), dict(maxiter=3), dict(shiftmax=0.1), dict(cenonly=True), dict(etol=1e-12)):
            out.append(('admom %s %s' % (T, kw), 0, lambda o, T=T, kw=kw: AdmomFitter(**kw).go(
                o, guess=ngmix.GMixModel([0, 0, 0, 0, T * a, 1.0], 'gauss'))))
    out.append(('admom g', 0, lambda o: AdmomFitter().go(o, guess=ngmix.GMixModel([0, 0, .9, 0, 5 * a, 1.0], 'gauss'))))
    for f in (0.01, 2.0, 50.0):
        for ho in (False, True):
            out.append(('gaussmom %s %s' % (f, ho), 0, lambda o, f=f, ho=ho: ngmix.gaussmom.GaussMom(
                f * s, with_higher_order=ho).go(o)))
    for cls in (prepsfmom.PGaussMom, prepsfmom.KSigmaMom):
        for f in (2.5, 5.0):
            for ps in (0, 1):
                out.append(('%s %s %d' % (cls.__name__, f, ps), ps, lambda o, cls=cls, f=f, ps=ps: cls(f * s).go(
                    o, no_psf=not ps)))
    for model in ('gauss', 'exp'):
        for kw in ({}, dict(maxfev=3), dict(xtol=0.0, ftol=0.0, maxfev=40)):
            for ps in (0, 2):
                out.append(('Fitter %s %s %d' % (model, kw, ps), ps, lambda o, m=model, kw=kw: ngmix.fitting.Fitter(
                    model=m, fit_pars=kw).go(obs=o, guess=[0, 0, .01, 0, 4 * a, 1.0])))
    out.append(('Coellip', 0, lambda o: ngmix.fitting.CoellipFitter(ngauss=2, fit_pars=dict(maxfev=60)).go(
        obs=o, guess=[0, 0, .01, 0, 4 * a, 8 * a, .5, .5])))

    def em(cls, o, ng, kw, g0):
        ob, sky = prep_obs(o)
        f = cls(**kw)
        return f.go(ob, guess=ngmix.GMix(pars=g0[:6 * ng]), sky=sky)
    g0 = [.5, 0, 0, 2 * a, 0, 2 * a, .5, .3 * s, 0, 4 * a, 0, 4 * a]
    for cls in (EMFitter, EMFitterFixCen, EMFitterFixCov, EMFitterFluxOnly):
        for kw in ({}, dict(maxiter=2), dict(tol=1e-12, maxiter=20), dict(miniter=1, tol=1.0)):
            for ng in (1, 2):
                out.append(('%s %s %d' % (cls.__name__, kw, ng), 0, lambda o, cls=cls, ng=ng, kw=kw: em(cls, o, ng, kw, g0)))
    for np_ in (True, False):
        out.append(('PSFFlux %s' % np_, 2, lambda o, n=np_: ngmix.fitting.PSFFluxFitter(normalize_psf=n).go(obs=o)))
    return out


def k_measure(case, rec):
    dims = (13, 13)
    jac = jacobian(case['jac'], 6.1, 5.8)
    for ik in case['images']:
        for wk in case['weights']:
            im = image(ik, dims, jac)
            if wk == 'none':
                w = np.zeros(dims)
            elif wk == 'single':
                w = np.zeros(dims)
                w[6, 6] = 1.0
            elif wk == 'tiny':
                w = np.full(dims, 1e-30)
            elif wk == 'nan':
                w = np.full(dims, 1.0)
                w[5, 5] = np.nan
            else:
                w = weight(wk, dims)
            for name, ps, f in measures(jac, False):
                rec.trans()
                rec.state(fp(case['jac'], ik, wk, name))
                try:
                    with np.errstate(all='ignore'):
                        o = mkobs(im, w, jac, ps)
                        res = f(o)
                except Exception as err:
                    # whether it may raise is decided elsewhere
                    rec.outcome(('raised', type(err).__name__))
                    continue
                rec.trace()
                monitor(rec, res, '%s on %s, weights %s, jacobian %s' % (name, ik, wk, case['jac']))


def k_moments(case, rec):
    """sign classes of sums and covariances"""
    from ngmix.moments import make_mom_result
    vals = (1.0, 0.0, -1.0, np.nan, np.inf)
    for size in (6, 17):
        for mf, mt, m1 in itertools.product([vals[case['mf']]], vals, vals):
            for vf, vt, v0, cr in itertools.product(vals, vals, (1.0, -1.0, np.nan), (0.0, 3.0, np.nan)):
                s = np.ones(size) * 0.1
                s[5], s[4], s[2] = mf, mt, m1
                c = np.eye(size) * 0.1
                c[5, 5], c[4, 4], c[0, 0], c[4, 5], c[5, 4] = vf, vt, v0, cr, cr
                rec.trans()
                rec.state(fp('mom', size, mf, mt, m1, vf, vt, v0, cr))
                with np.errstate(all='ignore'):
                    res = make_mom_result(s, c)
                monitor(rec, res, 'make_mom_result %s' % ((size, mf, mt, m1, vf, vt, v0, cr),))
        rec.trace()


def k_minimizer(case, rec):
    """every answer of a scripted minimizer"""
    real = LB.leastsqbound
    covs = {'none': None, 'ok': np.eye(2), 'neg': -np.eye(2), 'off': np.array([[1., 2.], [2., 1.]]),
            'nan': np.full((2, 2), np.nan), 'inf': np.full((2, 2), np.inf), 'zero': np.zeros((2, 2))}
    try:
        for ier in range(0, 9):
            for ck, cov in covs.items():
                for r in (1.0, 0.0, np.nan, np.inf):
                    for npri in (0, 1, 7):
                        LB.leastsqbound = lambda func, guess, **kw: (
                            np.array(guess), None if cov is None else cov.copy(), {'nfev': 1, 'fvec': func(guess)}, 'msg', ier)
                        rec.trans()
                        rec.state(fp('min', ier, ck, r, npri))
                        try:
                            with np.errstate(all='ignore'):
                                res = LB.run_leastsq(lambda p: np.full(9, r), np.ones(2), npri)
                        except Exception as err:
                            rec.outcome(('raised', type(err).__name__))
                            continue
                        rec.trace()
                        monitor(rec, res, 'minimizer status %d, covariance %s, residual %s' % (ier, ck, r))
        for err in (ValueError('x'), ZeroDivisionError('x'), ValueError('NaNs'), ValueError('infs'),
                    np.linalg.LinAlgError('x'), ngmix.GMixRangeError('x')):
            def bad(func, guess, **kw):
                raise err
            LB.leastsqbound = bad
            rec.trans()
            try:
                res = LB.run_leastsq(lambda p: np.ones(9), np.ones(2), 0)
                monitor(rec, res, 'minimizer raises %r' % err)
            except Exception as e:
                rec.outcome(('raised', type(e).__name__))
    finally:
        LB.leastsqbound = real


def k_gaussap(case, rec):
    from ngmix.gaussap import get_gaussap_flux
    rows = [[0, 0, 0, 0, 4.0, 1.0], [0, 0, 1.2, 0, 4.0, 1.0], [0, 0, 0, 0, -4.0, 1.0], [0, 0, 0.9, 0.5, 4.0, 1.0],
            [0, 0, 0, np.nan, 4.0, 1.0]]
    for model in ('gauss', 'exp', 'dev'):
        for t in itertools.product(range(len(rows)), repeat=2):
            for mask in (None, [True, False], [False, False]):
                pars = np.array([rows[i] for i in t])
                rec.trans()
                rec.state(fp('ap', model, t, mask))
                try:
                    with np.errstate(all='ignore'):
                        fl, flags = get_gaussap_flux(pars, model, 2.0, mask=None if mask is None else np.array(mask))
                except Exception as err:
                    rec.outcome(('raised', type(err).__name__))
                    continue
                monitor(rec, dict(flags=flags.ravel()), 'get_gaussap_flux %s' % (t,))
                rec.trace()


KINDS = {'table': k_table, 'named': k_named, 'bits': k_bits, 'maps': k_maps, 'measure': k_measure,
         'moments': k_moments, 'minimizer': k_minimizer, 'gaussap': k_gaussap}


def warmup():
    jac = jacobian('unit', 6, 6)
    o = mkobs(image('gauss', (13, 13), jac), np.ones((13, 13)), jac, 2)
    for name, ps, f in measures(jac, False):
        try:
            f(o)
        except Exception:
            pass


def cases(tier):
    th = tier == 'thorough'
    yield 'table', {}
    for hi in range(16):
        yield 'named', dict(hi=hi)
    for mod in range(4):
        yield 'bits', dict(n=4 if th else 3, mod=mod)
    yield 'maps', {}
    yield 'minimizer', {}
    for mf in range(5):
        yield 'moments', dict(mf=mf)
    yield 'gaussap', {}
    images = ['gauss', 'ell', 'thin', 'small', 'big', 'noisy', 'noise', 'offset', 'two', 'neg', 'hollow', 'ring', 'zero',
              'flat', 'pixel', 'line', 'nan']
    for im in images:
        for j in ('unit', 'small', 'shear', 'flip') if th else ('unit', 'shear'):
            for w in ('flat', 'varied', 'holes', 'none', 'single', 'tiny', 'nan'):
                yield 'measure', dict(images=[im], jac=j, weights=[w])
