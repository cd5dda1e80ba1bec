"""
C13  the least-squares wrapper reports every minimizer outcome, bounds hold
"""
import itertools
import math
import warnings
import numpy as np
import scipy.optimize
import ngmix
from scipy.optimize import _minpack
from ngmix import flags as F
from ngmix.defaults import PDEF, CDEF
from ngmix.fitting import leastsqbound as LB
from mc.core import fp
from mc import data as D
from mc.props.c09 import image

LEVEL = 'model_checking'
RULE = (
    'The minimizer is the environment and answers from a script: every status code, every '
    'class of covariance and of Jacobian factor, every class of residuals, for all small '
    'numbers of parameters, data and priors, in real and k space; an exception or a '
    'non-finite residual injected at every evaluation of a real minimization; every scripted '
    'sequence of internal coordinates for every combination of bounds; real minimizations for '
    'the product of bound kinds, positions of the minimum and of the start.  A monitor checks '
    'every residual evaluation against the bounds and a reference model of the wrapper gives '
    'the expected flags, parameters, errors and covariance.'
)
ASSUMPTIONS = ['the guess lies within the bounds', 'improper input (fewer residuals than parameters) raises']

# first index of the permutations of this scipy
BASE = int(min(scipy.optimize.leastsq(lambda p: np.array([p[0], 2 * p[1], 1.0]), [1.0, 1.0],
                                      full_output=1)[2]['ipvt']))
KEYS = ('flags', 'pars', 'pars_err', 'pars_cov', 'pars_cov0')


class InjErr(Exception):
    pass


def wellformed(rec, res, npars, ctx):
    for k in KEYS + ('errmsg', 'nfev'):
        if k not in res:
            rec.fail('missing-entry', '%s missing: %s' % (k, ctx))
            return False
    ok = True
    for k, shp in (('pars', (npars,)), ('pars_err', (npars,)), ('pars_cov', (npars, npars))):
        if np.shape(res[k]) != shp:
            rec.fail('bad-shape', '%s has shape %s: %s' % (k, np.shape(res[k]), ctx))
            ok = False
    if ok and res['flags'] == 0:
        for k in ('pars', 'pars_err', 'pars_cov'):
            if not np.all(np.isfinite(res[k])):
                rec.fail('unflagged', '%s not finite with flags 0: %s' % (k, ctx))
                ok = False
        if ok and np.any(np.diag(res['pars_cov']) < 0):
            rec.fail('unflagged', 'negative variance with flags 0: %s' % ctx)
        if ok and not np.allclose(np.asarray(res['pars_err']) ** 2, np.diag(res['pars_cov']), rtol=1e-8):
            rec.fail('errors', 'errors are not the roots of the covariance diagonal: %s' % ctx)
    if ok and res['flags'] != 0 and not np.all(np.asarray(res['pars_err']) == CDEF):
        rec.fail('errors', 'errors of an unusable fit are not the default: %s %s' % (res['pars_err'], ctx))
    return ok


def check_ier(rec, ier, flags, ctx, report=False):
    """
    status codes above 4.  No description of the named bits may be wrong:
    4 = call limit (MAXITER); 6, 7, 8: tolerances too small
    """
    if flags == 0:
        rec.fail('status-unflagged', 'status %d gives flags 0: %s' % (ier, ctx))
        return
    if ier == 5 and flags == F.MAXITER:
        return
    if flags == 2 ** (ier - 5):
        # the bit of another, named cause; reported once, by the kind "ier"
        if report:
            rec.fail('status-bit-of-other-cause', 'minimizer status %d is reported as %r' % (
                ier, F.get_flags_str(flags)), case=dict(ier=ier), kind='ier')
        return
    named = 0
    for k in F.NAME_MAP:
        named |= k
    if flags & named:
        rec.fail('status-flag', 'status %d gives flags %d: %s' % (ier, flags, ctx))


def k_ier(case, rec):
    """which flag stands for a status above 4"""
    real = LB.leastsqbound
    LB.leastsqbound = lambda func, guess, **kw: (guess, None, {'nfev': 1}, 'msg', case['ier'])
    try:
        res = LB.run_leastsq(lambda p: np.ones(9), np.ones(2), 0)
    finally:
        LB.leastsqbound = real
    rec.trans()
    rec.trace()
    rec.state(fp('ier', case['ier'], res['flags']))
    check_ier(rec, case['ier'], res['flags'], case, report=True)


# ---------------------------------------------------------------------------
# scripted leastsqbound

def cov_of(kind, n):
    if kind == 'none':
        return None
    a = np.eye(n) * 0.5
    if kind == 'full':
        for i in range(n - 1):
            a[i, i + 1] = a[i + 1, i] = 0.1
    elif kind == 'negdiag':
        a[n - 1, n - 1] = -0.5
    elif kind == 'allneg':
        a = -a
    elif kind == 'negeig':
        a[0, -1] = a[-1, 0] = 2.0
    elif kind == 'zero':
        a = a * 0
    elif kind == 'nan':
        a[0, -1] = np.nan
        a[-1, 0] = np.nan
    elif kind == 'inf':
        a[-1, -1] = np.inf
    elif kind == 'tiny':
        a = a * 1e-290
    elif kind == 'huge':
        a = a * 1e290
    return a


COVS = ['none', 'diag', 'full', 'negdiag', 'allneg', 'negeig', 'zero', 'nan', 'inf', 'tiny', 'huge']


def resid(kind, n):
    r = 0.5 + np.arange(n) % 3
    if kind == 'zero':
        r = np.zeros(n)
    elif kind == 'nan' and n:
        r[-1] = np.nan
    elif kind == 'inf' and n:
        r[-1] = np.inf
    elif kind == '-inf' and n:
        r[-1] = -np.inf
    return r


def want_cov(cov, fac):
    """expected flags for the scaled covariance"""
    if not np.isfinite(fac) or not np.all(np.isfinite(cov)):
        return F.EIG_NOTFINITE
    c = cov * fac
    fl = 0
    if np.any(np.linalg.eigvalsh(c) < 0):
        fl |= F.LM_NEG_COV_EIG
    if np.any(np.diag(c) < 0):
        fl |= F.LM_NEG_COV_DIAG
    return fl


def k_answers(case, rec):
    npars, ier = case['npars'], case['ier']
    calls = []
    real = LB.leastsqbound
    p0 = np.arange(npars) * 0.1 + 1.0
    best = np.arange(npars) * 0.1 + 2.0
    box = {}

    def fake(func, guess, **kw):
        calls.append((guess, kw))
        return best.copy(), box['cov'], {'nfev': 7}, 'msg', ier

    LB.leastsqbound = fake
    try:
        for covk, nprior, dof, rk, pk, kspace in itertools.product(
                COVS, (0, 1, 4), (-2, -1, 0, 1, 7), ('norm', 'zero', 'nan', 'inf', '-inf'),
                ('small', 'large', 'nan'), (False, True)):
            if ier > 4 and (covk not in ('none', 'diag', 'nan') or rk != 'norm' or pk != 'small'):
                continue
            ndata = dof + npars
            if kspace:
                ndata *= 2
            if ndata < 0 or (nprior == 0 and pk != 'small'):
                continue
            if covk == 'negeig' and npars == 1:
                continue
            if ndata == 0 and rk != 'norm':
                continue
            fd = np.zeros(nprior + ndata)
            fd[:nprior] = {'small': 0.01, 'large': 1e5, 'nan': np.nan}[pk]
            fd[nprior:] = resid(rk, ndata)
            cov = cov_of(covk, npars)
            box['cov'] = None if cov is None else cov.copy()
            seen = []

            def func(p):
                seen.append(np.array(p))
                return fd.copy()

            ctx = dict(ier=ier, npars=npars, cov=covk, nprior=nprior, dof=dof, resid=rk, prior=pk, k=kspace)
            n0 = len(calls)
            with np.errstate(all='ignore'):
                res = LB.run_leastsq(func, p0, nprior, k_space=kspace, maxfev=10, ftol=1e-3, xtol=1e-3)
            rec.trans()
            rec.trace()
            if len(calls) == n0:
                rec.cap('scripted minimizer not called: binding lost')
                return
            rec.state(fp(*[str(v) for v in ctx.values()]))
            if not wellformed(rec, res, npars, ctx):
                continue
            fl = res['flags']
            if ier > 4:
                check_ier(rec, ier, fl, ctx)
                if not np.all(np.asarray(res['pars']) == PDEF) or not np.all(np.asarray(res['pars_cov']) == CDEF):
                    rec.fail('defaults', 'pars or covariance of a failed minimization: %s' % ctx)
                continue
            if not np.array_equal(res['pars'], best):
                rec.fail('pars', 'parameters %s are not those of the minimizer: %s' % (res['pars'], ctx))
            if cov is None:
                want = F.LM_SINGULAR_MATRIX
            elif dof <= 0:
                want = F.ZERO_DOF
            else:
                with np.errstate(all='ignore'):
                    s2 = np.sum(fd[nprior:] ** 2) / dof
                    want = want_cov(cov, s2)
                    pc = cov * s2
            if fl != want:
                rec.fail('flags' if fl and want else 'flags-status', 'flags %s, expected %s: %s' % (
                    F.get_flags_str(fl), F.get_flags_str(want), ctx))
                continue
            if want in (F.LM_SINGULAR_MATRIX, F.ZERO_DOF):
                if not np.all(np.asarray(res['pars_cov']) == CDEF):
                    rec.fail('defaults', 'covariance %s: %s' % (res['pars_cov'], ctx))
            elif want == 0:
                if not np.allclose(res['pars_cov'], pc, rtol=1e-9, atol=0):
                    rec.fail('scaling', 'covariance %s, expected %s: %s' % (res['pars_cov'], pc, ctx))
            if cov is not None and not np.array_equal(res['pars_cov0'], cov, equal_nan=True):
                rec.fail('cov0', 'pars_cov0 is not the covariance of the minimizer: %s' % ctx)
            rec.outcome('%d:%s' % (ier, F.get_flags_str(fl)))
    finally:
        LB.leastsqbound = real


def k_improper(case, rec):
    """status 0 and inconsistent input must raise, not return a result"""
    real = LB.leastsqbound

    def fake(func, guess, **kw):
        return guess, None, {'nfev': 1}, 'Improper input parameters.', 0
    LB.leastsqbound = fake
    try:
        try:
            LB.run_leastsq(lambda p: np.zeros(5), np.zeros(2), 0)
            rec.fail('improper', 'status 0 gave a result')
        except ValueError:
            pass
    finally:
        LB.leastsqbound = real
    for args, kw in (((lambda p: np.zeros(1), np.zeros(3), 0), {}),
                     ((lambda p: np.zeros(1), np.zeros(3), 0), {'bounds': [(None, None)] * 3}),
                     ((lambda p: np.zeros(9), np.zeros(3), 0), {'bounds': [(None, None)] * 2})):
        try:
            LB.run_leastsq(*args, **kw)
            rec.fail('improper', 'inconsistent sizes gave a result')
        except (TypeError, ValueError):
            pass
        rec.trans()
    rec.trace()
    rec.state('improper')


# ---------------------------------------------------------------------------
# scripted MINPACK: factor of the Jacobian and status

FJ = ['diag', 'tri', 'singular', 'zero', 'nan', 'inf', 'tiny', 'huge', 'nearsing']


def fjac_of(kind, n, m):
    r = np.eye(n)
    if kind == 'tri':
        for i in range(n - 1):
            r[i, i + 1] = 0.4
    elif kind == 'singular':
        r[n - 1, n - 1] = 0.0
    elif kind == 'zero':
        r[:] = 0
    elif kind == 'nan':
        r[0, n - 1] = np.nan
    elif kind == 'inf':
        r[0, 0] = np.inf
    elif kind == 'tiny':
        r *= 1e-120
    elif kind == 'huge':
        r *= 1e120
    elif kind == 'nearsing':
        r[n - 1, n - 1] = 1e-15
        r[0, n - 1] = 1.0 if n > 1 else 1e-15
    out = np.zeros((n, m))
    out[:, :n] = r.T
    return out


def k_minpack(case, rec):
    """answers of the C minimizer, through leastsq and through the bounded version"""
    n, info, bk = case['n'], case['info'], case['bounds']
    m = n + 6
    x0 = np.full(n, 1.0)
    bounds = {'none': None, 'open': [(None, None)] * n, 'lower': [(0.0, None)] * n,
              'both': [(0.0, 4.0)] * n}[bk]
    real = _minpack._lmdif
    used = []

    def fake(func, i0, args, full_output, ftol, xtol, gtol, maxfev, epsfcn, factor, diag):
        used.append(1)
        i0 = np.array(i0, float)
        return (i0, dict(fvec=np.zeros(m), nfev=3, fjac=box['f'], ipvt=np.arange(BASE, n + BASE, dtype='i4'),
                         qtf=np.zeros(n)), info)
    box = {}
    _minpack._lmdif = fake
    try:
        for k, r in itertools.product(FJ, ('norm', 'zero')):
            box['f'] = fjac_of(k, n, m)
            ctx = dict(case, fjac=k, resid=r)
            with np.errstate(all='ignore'):
                try:
                    res = LB.run_leastsq(lambda p: resid(r, m), x0.copy(), 0, bounds=bounds)
                except ValueError as e:
                    rec.fail('minpack-raise', '%s: %s' % (e, ctx))
                    continue
            rec.trans()
            rec.trace()
            if not used:
                rec.cap('scripted MINPACK not called: binding lost')
                return
            rec.state(fp(n, info, bk, k, r))
            if not wellformed(rec, res, n, ctx):
                continue
            rec.outcome('%s:%d' % (k, res['flags']))
            if info > 4:
                check_ier(rec, info, res['flags'], ctx)
                continue
            if k in ('singular', 'zero', 'nan', 'inf') and res['flags'] == 0 and r == 'norm' and \
                    not (k == 'inf' and np.all(np.isfinite(res['pars_err']))):
                rec.fail('minpack-unflagged', 'flags 0: %s' % ctx)
            if k in ('diag', 'tri'):
                if res['flags'] != 0:
                    rec.fail('minpack-flagged', 'flags %s: %s' % (F.get_flags_str(res['flags']), ctx))
                    continue
                if r == 'norm':
                    # chain rule of the transformations at x0 = 1
                    g = {'none': 1.0, 'open': 1.0, 'lower': math.sqrt(3.0) / 2, 'both': 2.0 * math.sqrt(0.75)}[bk]
                    j = fjac_of(k, n, m).T[:n, :] / g
                    cov = np.linalg.inv(j.T @ j) * np.sum(resid(r, m) ** 2) / 6
                    if not np.allclose(res['pars_cov'], cov, rtol=1e-7):
                        rec.fail('minpack-cov', 'covariance %s, expected %s: %s' % (res['pars_cov'], cov, ctx))
                if not np.allclose(res['pars'], x0, rtol=1e-9):
                    rec.fail('minpack-pars', 'parameters %s: %s' % (res['pars'], ctx))
    finally:
        _minpack._lmdif = real


# ---------------------------------------------------------------------------
# scripted internal coordinates: bounds and transformations

BOUNDS = [None, 'l', 'u', 'b']
EDGES = [-1e10, -1.0e3, -1.0, -0.7, -0.1, -1e-3, 0.0, 1e-8, 1e-3, 0.1, 0.3, 0.7, 1.0, 1.1, 3.3, 1.0e3, 1e10]
INTERNAL = [0.0, 1e-300, -1e-300, 1e-9, -1e-9, 1e-5, 0.3, -0.3, 1.0, -1.0, math.pi / 2, -math.pi / 2,
            math.pi, -math.pi, 1.5 * math.pi, np.nextafter(math.pi / 2, 9), np.nextafter(math.pi / 2, 0),
            10.0, -10.0, 1e3, -1e3, 1e8, -1e8, 1e16]


def inside(lo, hi):
    """points within the bounds, the bounds included"""
    out = []
    if lo is None and hi is None:
        return [0.0, 1.0, -3.0e5]
    if hi is None:
        w = [0.0, 1e-12, 1e-6, 0.1, 1.0, 1e4]
        return [lo + x for x in w]
    if lo is None:
        w = [0.0, 1e-12, 1e-6, 0.1, 1.0, 1e4]
        return [hi - x for x in w]
    for f in (0.0, 1e-9, 0.1, 0.5, 0.9, 1.0):
        out.append(min(max(lo + f * (hi - lo), lo), hi))
    return out


def inb(x, lo, hi):
    return (lo is None or x >= lo) and (hi is None or x <= hi)


def k_transform(case, rec):
    """every internal coordinate visited for one pair of bounds"""
    lo, hi = case['lo'], case['hi']
    real = _minpack._lmdif
    box = {}

    def fake(func, i0, args, full_output, ftol, xtol, gtol, maxfev, epsfcn, factor, diag):
        box['used'] = True
        i0 = np.array(i0, float)
        box['i0'] = i0.copy()
        box['x'] = []
        func(i0.copy(), *args)
        for v in INTERNAL:
            for other in (i0[1],):
                func(np.array([v, other]), *args)
        return (np.array([box['ret'], i0[1]]),
                dict(fvec=np.zeros(8), nfev=3, fjac=np.eye(2, 8), ipvt=np.array([BASE, BASE + 1], 'i4'),
                     qtf=np.zeros(2)), 1)

    _minpack._lmdif = fake
    try:
        for x in inside(lo, hi):
            for ret in [None] + INTERNAL:
                # the second parameter has other bounds: entries must not be mixed
                box.clear()
                seen = []

                def func(p):
                    seen.append(np.array(p))
                    return np.zeros(8) + 1.0
                box['ret'] = 0.0 if ret is None else ret
                with np.errstate(all='ignore'):
                    out = LB.leastsqbound(func, np.array([x, 0.6]), bounds=[(lo, hi), (0.5, None)], full_output=1)
                rec.trans(len(seen))
                if 'used' not in box:
                    rec.cap('scripted MINPACK not called: binding lost')
                    return
                rec.trace()
                rec.state(fp(lo, hi, x, box['ret']))
                for p in seen:
                    if not inb(p[0], lo, hi):
                        rec.fail('bound-violated', 'evaluated at %r outside (%r, %r)' % (p[0], lo, hi))
                        break
                    if not inb(p[1], 0.5, None):
                        rec.fail('bound-violated', 'second parameter %r' % p[1])
                        break
                if not inb(out[0][0], lo, hi):
                    rec.fail('bound-violated', 'result %r outside (%r, %r)' % (out[0][0], lo, hi))
                # the start is a fixed point of the two transformations
                n = len(seen) - len(INTERNAL) - 1
                st = seen[n]
                scale = max(1.0, abs(lo or 0.0), abs(hi or 0.0), abs(x)) if (lo is None) != (hi is None) else \
                    (abs(x) if lo is None else max(hi - lo, abs(lo), abs(hi)))
                if not abs(st[0] - x) <= 1e-9 * max(scale, 1e-300) or not abs(st[1] - 0.6) < 1e-9:
                    rec.fail('not-inverse', 'start %r becomes %r for bounds (%r, %r)' % (x, st[0], lo, hi))
                # monotone in the internal coordinate between 0 and pi/2, so that all of
                # the allowed range is reachable
                if lo is None and hi is None:
                    if any(a != b[0] for a, b in zip(INTERNAL, seen[n + 1:])):
                        rec.fail('open-changed', 'parameter without bounds was changed')
                rec.eval(len(seen))
    finally:
        _minpack._lmdif = real


# ---------------------------------------------------------------------------
# real minimizations

def line_problem(target, m=9):
    """linear least squares with solution target"""
    A = np.zeros((m, len(target)))
    for i in range(m):
        for j in range(len(target)):
            A[i, j] = math.cos(0.7 * i * (j + 1)) + 0.3 * (i == j)
    y = A @ np.array(target) + 0.01 * D.noise((m,), 3)
    return A, y


def k_bounds(case, rec):
    """real minimization with a monitor on every evaluation"""
    bnd = [tuple(b) for b in case['bounds']]
    target, start = case['target'], case['start']
    A, y = line_problem(target)
    seen = []

    def func(p):
        p = np.array(p)
        seen.append(p.copy())
        return A @ p - y
    with np.errstate(all='ignore'):
        if case['via'] == 'run':
            res = LB.run_leastsq(func, np.array(start), 0, bounds=bnd, ftol=1e-10, xtol=1e-10, maxfev=500)
            x = res['pars']
        else:
            x, cov, inf, msg, ier = LB.leastsqbound(func, np.array(start), bounds=bnd, full_output=1,
                                                    ftol=1e-10, xtol=1e-10, maxfev=500)
            res = None
    rec.trace()
    rec.trans(len(seen))
    rec.eval(len(seen))
    rec.state(fp(bnd, target, start, case['via']))
    for p in seen:
        for v, (lo, hi) in zip(p, bnd):
            if not inb(v, lo, hi):
                rec.fail('bound-violated', 'evaluated at %r outside (%r, %r)' % (v, lo, hi))
                return
    if res is not None:
        wellformed(rec, res, len(target), case)
        rec.outcome(F.get_flags_str(res['flags']) or 'ok')
        if res['flags'] & ~(0x7) and np.all(np.asarray(res['pars']) == PDEF):
            return
        if np.all(np.asarray(x) == PDEF):
            return
    for v, (lo, hi) in zip(x, bnd):
        if not inb(v, lo, hi):
            rec.fail('bound-violated', 'result %r outside (%r, %r)' % (v, lo, hi))
    sol = np.linalg.lstsq(A, y, rcond=None)[0]
    margin = [min(1e9 if lo is None else s - lo, 1e9 if hi is None else hi - s) for s, (lo, hi) in zip(sol, bnd)]
    startm = [min(1e9 if lo is None else s - lo, 1e9 if hi is None else hi - s) for s, (lo, hi) in zip(start, bnd)]
    if min(margin) > 0.05 and min(startm) > 0.05:
        # minimum inside: same answer as without bounds
        if res is not None and res['flags'] != 0:
            rec.fail('inside-flagged', 'flags %s with the minimum inside the bounds' % F.get_flags_str(res['flags']))
            return
        if not np.allclose(x, sol, rtol=1e-4, atol=1e-4):
            rec.fail('inside-pars', 'solution %s, expected %s' % (x, sol))
        c0 = np.linalg.inv(A.T @ A)
        if res is not None:
            s2 = np.sum((A @ sol - y) ** 2) / (len(y) - len(sol))
            if not np.allclose(res['pars_cov'], c0 * s2, rtol=2e-2, atol=2e-2 * np.abs(c0 * s2).max()):
                rec.fail('inside-cov', 'covariance %s, expected %s' % (res['pars_cov'], c0 * s2))


def k_direct(case, rec):
    """
    every option of the wrapper on a linear problem: with bounds of any kind away
    from the minimum the answer is the one of the unbounded minimizer of scipy,
    whose answer without bounds it is
    """
    n, deriv, argkind, mf, bk = (case[k] for k in ('n', 'deriv', 'args', 'maxfev', 'bounds'))
    target = [0.4, 1.2, -0.7][:n]
    A, y = line_problem(target)
    m = len(y)
    off = {'none': (), 'tuple': (0.25, 2.0), 'bare': 0.25}[argkind]
    tup = off if isinstance(off, tuple) else (off,)
    bnd = {'no': None, 'open': [(None, None)] * n,
           'both': [(t - 3, t + 2.5) for t in target], 'lower': [(t - 1.5, None) for t in target],
           'upper': [(None, t + 1.7) for t in target],
           'mix': [((t - 3, t + 2.5), (None, t + 2.1), (t - 1.9, None))[i] for i, t in enumerate(target)]}[bk]
    ncall = [0, 0]

    def func(p, *a):
        if a != tup:
            rec.fail('args', 'extra arguments %s, expected %s' % (a, tup))
        if bnd is not None:
            for v, (lo, hi) in zip(p, bnd):
                if not inb(v, lo, hi):
                    rec.fail('bound-violated', 'evaluated at %r outside (%r, %r)' % (v, lo, hi))
        ncall[0] += 1
        return (A @ np.asarray(p) - y) * (1 + sum(a))

    def jac(p, *a):
        if a != tup:
            rec.fail('args', 'extra arguments of the derivative %s, expected %s' % (a, tup))
        ncall[1] += 1
        return (A if deriv == 'rows' else A.T.copy()) * (1 + sum(a))
    kw = dict(ftol=1e-12, xtol=1e-12, maxfev=mf)
    if deriv != 'est':
        kw.update(Dfun=jac, col_deriv=(deriv == 'cols'))
    if case['diag']:
        kw.update(diag=[1.0, 2.0, 0.5][:n], factor=10.0)
    if case['eps']:
        kw.update(epsfcn=1e-10)
    start = np.array([t + d for t, d in zip(target, (0.3, -0.2, 0.5))])
    s0 = start.copy()
    x, cov, inf, msg, ier = LB.leastsqbound(func, start, args=off, bounds=bnd, full_output=1, **kw)
    used = tuple(ncall)
    ref = scipy.optimize.leastsq(func, s0.copy(), args=off, full_output=1, **kw)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        short = LB.leastsqbound(func, start, args=off, bounds=bnd, full_output=0, **kw)
    rec.trans(ncall[0] + ncall[1])
    rec.trace(3)
    rec.state(fp(case))
    rec.eval()
    rec.outcome(ier)
    if not np.array_equal(start, s0):
        rec.fail('start', 'the start was modified')
    if deriv != 'est' and not used[1]:
        rec.fail('derivative', 'the derivative was not used: %s' % case)
    if len(short) != 2 or not np.array_equal(short[0], x) or short[1] != ier:
        rec.fail('short', 'without full output %s, with it %s %s' % (short, x, ier))
    if (ier in (5, 6, 7, 8)) != bool([z for z in w if z.category is RuntimeWarning]):
        rec.fail('short', 'status %d with warnings %s' % (ier, [str(z.message) for z in w]))
    if mf == 2:
        # too few evaluations: said so
        if ier != 5 and deriv == 'est' or (ier == 5) == (ier in (1, 2, 3, 4)):
            rec.fail('limit', 'status %d after at most %d evaluations' % (ier, mf))
        if ier == 5 and cov is not None and bnd is not None:
            rec.fail('limit', 'covariance with status 5')
        if used[0] > 2 + n + 2:
            rec.fail('limit', '%d evaluations for a limit of %d' % (used[0], mf))
        return
    if ier not in (1, 2, 3, 4):
        rec.fail('status', 'status %d of a linear problem: %s %s' % (ier, msg, case))
        return
    sol = np.linalg.lstsq(A, y, rcond=None)[0]
    c0 = np.linalg.inv(A.T @ A) / (1 + sum(tup)) ** 2
    if not np.allclose(x, sol, rtol=1e-6, atol=1e-6) or not np.allclose(x, ref[0], rtol=1e-6, atol=1e-6):
        rec.fail('direct-pars', '%s, expected %s; %s' % (x, sol, case))
    if cov is None or not np.allclose(cov, c0, rtol=1e-4, atol=1e-5 * np.abs(c0).max()):
        rec.fail('direct-cov', '%s, expected %s; %s' % (cov, c0, case))
    if not np.allclose(inf['fvec'], func(x, *tup), rtol=1e-8, atol=1e-8):
        rec.fail('direct-fvec', 'residuals %s are not those of the solution; %s' % (inf['fvec'], case))
    if deriv == 'est' and abs(inf['nfev'] - used[0]) > 2 or deriv != 'est' and abs(inf['nfev'] - used[0]) > 2:
        rec.fail('direct-nfev', '%d evaluations reported, %d made; %s' % (inf['nfev'], used[0], case))


def k_wrong(case, rec):
    """input the wrapper cannot use raises before any minimization"""
    A, y = line_problem([0.4, 1.2])

    def func(p, *a):
        return A[:, :len(p)] @ p - y
    b = case['bounds']
    for via in ('direct', 'run'):
        seen = []
        try:
            if via == 'direct':
                out = LB.leastsqbound(func, np.array(case['start']), bounds=b, full_output=1, **case['kw'])
                if out[-1] == 0:
                    raise ValueError(out[-2])
            else:
                LB.run_leastsq(func, np.array(case['start']), 0, bounds=b, **case['kw'])
            if case['raises']:
                rec.fail('accepted', '%s accepted by %s' % (case, via))
        except (ValueError, TypeError) as e:
            if not case['raises']:
                rec.fail('refused', '%s refused by %s: %s' % (case, via, e))
        rec.trans()
        rec.eval()
    rec.trace()
    rec.state(fp(case))
    rec.outcome('wrong')


def k_inject(case, rec):
    """exception or bad residual at evaluation k of a real minimization"""
    what, bk, nprior = case['what'], case['bounds'], case['nprior']
    n = 3
    A, y = line_problem([0.4, 1.2, 2.0])
    bounds = {'none': None, 'open': [(None, None)] * 3, 'mixed': [(None, None), (0.0, None), (0.0, 5.0)]}[bk]
    errs = {'nans': ValueError('array must not contain infs or NaNs'), 'nans2': ValueError('NaNs'),
            'infs': ValueError('there are infs'), 'value': ValueError('something else'),
            'zero': ZeroDivisionError('division by zero'), 'other': InjErr('x'), 'key': KeyError('k'),
            'range': ngmix.GMixRangeError('r')}

    def run(k):
        cnt = [0]

        def func(p):
            cnt[0] += 1
            hit = cnt[0] == k or (case['stay'] and cnt[0] >= k)
            if hit and what in errs:
                raise errs[what]
            p = np.array(p)
            f = np.concatenate([0.01 * np.ones(nprior), A @ p - y + 0.05 * (p[0] ** 2)])
            if hit:
                if what == 'rnan':
                    f[-1] = np.nan
                elif what == 'rallnan':
                    f[:] = np.nan
                elif what == 'rinf':
                    f[nprior:] = np.inf
                elif what == 'rninf':
                    f[:] = -np.inf
                elif what == 'big':
                    f[:] = 1e200
            return f
        kw = {} if bounds is None else {'bounds': bounds}
        with np.errstate(all='ignore'):
            try:
                res = LB.run_leastsq(func, np.array([0.1, 0.5, 1.0]), nprior, ftol=1e-5, xtol=1e-5,
                                     maxfev=200, **kw)
                return res, None, cnt[0]
            except Exception as e:
                return None, e, cnt[0]

    base, e, total = run(10 ** 9)
    if e is not None or base['flags'] != 0:
        rec.fail('base', 'plain minimization failed: %s %s' % (base, e))
        return
    for k in range(1, total + 3):
        res, e, cnt = run(k)
        rec.trans(cnt)
        rec.trace()
        rec.state(fp(what, bk, nprior, case['stay'], k))
        ctx = dict(case, k=k)
        hit = cnt >= k
        rec.outcome('raised' if e is not None else F.get_flags_str(res['flags']) or 'ok')
        if what in ('value', 'other', 'key', 'range'):
            if hit and e is not errs[what]:
                rec.fail('inject-swallowed', 'error %r became %r %r' % (errs[what], e, res and res['flags']))
            elif not hit and e is not None:
                rec.fail('inject-spurious', repr(e))
            continue
        if e is not None:
            rec.fail('inject-raise', '%s at evaluation %d raised %r' % (what, k, e))
            continue
        if not wellformed(rec, res, n, ctx):
            continue
        if what in errs and hit:
            want = F.DIV_ZERO if what == 'zero' else F.LM_FUNC_NOTFINITE
            if res['flags'] != want:
                rec.fail('inject-flags', 'flags %s, expected %s: %s' % (
                    F.get_flags_str(res['flags']), F.get_flags_str(want), ctx))
            if not np.all(np.asarray(res['pars']) == PDEF) or not np.all(np.asarray(res['pars_cov']) == CDEF):
                rec.fail('inject-defaults', 'parameters of a failed fit: %s' % res['pars'])
        elif not hit:
            if res['flags'] != 0 or not np.allclose(res['pars'], base['pars']):
                rec.fail('inject-after', 'result differs although nothing was injected')


def k_budget(case, rec):
    """real fitters with every budget of evaluations: never an incomplete result"""
    ob = mkob(case['npix'], case['model'])
    prior = mkprior(case['model']) if case['prior'] else None
    pars = guess_of(case['model'])
    fitter = ngmix.fitting.Fitter(model=case['model'], prior=prior,
                                  fit_pars=dict(maxfev=case['maxfev'], ftol=1e-6, xtol=1e-6))
    rec.trace()
    rec.trans()
    rec.state(fp(case))
    try:
        res = fitter.go(obs=ob, guess=pars)
    except TypeError:
        # fewer residuals than parameters
        nres = case['npix'] + (len(pars) if prior else 0)
        if nres >= len(pars):
            rec.fail('budget-typeerror', 'TypeError for %d residuals' % nres)
        rec.outcome('improper')
        return
    if not wellformed(rec, res, len(pars), case):
        return
    rec.outcome(F.get_flags_str(res['flags']) or 'ok')
    dof = case['npix'] - len(pars)
    if dof <= 0 and res['flags'] == 0:
        rec.fail('budget-dof', 'flags 0 with %d data for %d parameters' % (case['npix'], len(pars)))
    if res['nfev'] < case['maxfev'] - 1 and dof >= 5 and res['flags'] & 1:
        rec.fail('budget-flag', 'call limit reported after %s calls' % res['nfev'])
    if res['nfev'] > case['maxfev'] and res['flags'] == 0:
        rec.fail('budget-unflagged', '%s evaluations of %d and flags 0' % (res['nfev'], case['maxfev']))
    if res['flags'] == 0:
        for k in ('g', 'T', 'flux', 's2n', 'lnprob', 'chi2per', 'dof', 'npix', 'g_cov', 's2n_numer', 'pars_err'):
            if k not in res or not np.all(np.isfinite(res[k])):
                rec.fail('budget-stat', '%s missing or not finite with flags 0' % k)
        if res['dof'] != dof:
            rec.fail('budget-dofval', 'dof %s expected %s' % (res['dof'], dof))
        # covariance scaled by the data only
        fd = res.calc_fdiff(res['pars'])
        s2 = np.sum(fd[len(fd) - case['npix']:] ** 2) / dof
        if not np.allclose(res['pars_cov'], res['pars_cov0'] * s2, rtol=1e-6):
            rec.fail('budget-scale', 'covariance is not scaled by chi2/dof of the data')


def mkob(npix, model):
    n = 9
    j = ngmix.DiagonalJacobian(row=4.0, col=4.0, scale=0.4)
    im = image('pos', n, j) + 0.01 * D.noise((n, n), 1)
    w = np.zeros(n * n)
    # the central pixels first
    r = np.array([(i - 4) ** 2 + (k - 4) ** 2 + 0.01 * i + 0.001 * k for i in range(n) for k in range(n)])
    w[np.argsort(r)[:npix]] = 1e4
    return ngmix.Observation(im, weight=w.reshape(n, n), jacobian=j)


def guess_of(model):
    if model == 'bdf':
        return np.array([0.02, 0.03, 0.01, 0.02, 1.0, 0.5, 1.2])
    return np.array([0.02, 0.03, 0.01, 0.02, 1.0, 1.2])


def mkprior(model):
    rng = np.random.RandomState(5)
    cen = ngmix.priors.CenPrior(0.0, 0.0, 0.4, 0.4, rng=rng)
    g = ngmix.priors.GPriorBA(0.3, rng=rng)
    T = ngmix.priors.FlatPrior(-0.1, 100.0, rng=rng)
    Fx = ngmix.priors.FlatPrior(0.0, 1000.0, rng=rng)
    if model == 'bdf':
        return ngmix.joint_prior.PriorBDFSep(cen, g, T, ngmix.priors.FlatPrior(0.0, 1.0, rng=rng), Fx)
    return ngmix.joint_prior.PriorSimpleSep(cen, g, T, Fx)


KINDS = dict(answers=k_answers, improper=k_improper, minpack=k_minpack, transform=k_transform,
             bounds=k_bounds, direct=k_direct, wrong=k_wrong, inject=k_inject, budget=k_budget, ier=k_ier)
CHUNK = 1


def warmup():
    for m in ('gauss', 'bdf'):
        ngmix.fitting.Fitter(model=m).go(obs=mkob(81, m), guess=guess_of(m))


def cases(tier):
    thorough = tier == 'thorough'
    for npars in (1, 2, 5) + ((3, 6) if thorough else ()):
        for ier in range(1, 9):
            yield 'answers', dict(npars=npars, ier=ier)
    yield 'improper', dict()
    for ier in (5, 6, 7, 8):
        yield 'ier', dict(ier=ier)
    for n in (1, 2, 4):
        for info in range(1, 9):
            for b in ('none', 'open', 'lower', 'both'):
                yield 'minpack', dict(n=n, info=info, bounds=b)
    ed = EDGES
    yield 'transform', dict(lo=None, hi=None)
    for e in ed:
        yield 'transform', dict(lo=e, hi=None)
        yield 'transform', dict(lo=None, hi=e)
    for a, b in itertools.combinations(ed, 2):
        if thorough or b - a < 1e5:
            yield 'transform', dict(lo=a, hi=b)
    # real minimizations: two parameters, kinds of bounds x position of the minimum x start
    per = []
    for lo, hi in ((None, None), (0.1, None), (None, 1.1), (0.1, 1.1), (-0.7, 0.3), (-3.0, 4.0)):
        for t in (-1.3, 0.1, 0.25, 0.6, 1.1, 2.3):
            for s in ([0.1] if lo is None and hi is None else
                      [x for x in (lo, hi, (0.2 if (lo or -1) < 0.2 < (hi or 1) else None)) if x is not None]):
                per.append((lo, hi, t, s))
    for a in per:
        for b in per if thorough else per[::3]:
            yield 'bounds', dict(bounds=[a[:2], b[:2]], target=[a[2], b[2]], start=[a[3], b[3]], via='run')
        yield 'bounds', dict(bounds=[a[:2]], target=[a[2]], start=[a[3]], via='run')
        yield 'bounds', dict(bounds=[a[:2]], target=[a[2]], start=[a[3]], via='direct')
    for n in (1, 2, 3):
        for deriv in ('est', 'rows', 'cols'):
            for bk in ('no', 'open', 'both', 'lower', 'upper', 'mix'):
                for args in ('none', 'tuple', 'bare'):
                    for mf in (0, 2, 400):
                        for diag in (False, True):
                            for eps in (False, True) if deriv == 'est' else (False,):
                                yield 'direct', dict(n=n, deriv=deriv, bounds=bk, args=args, maxfev=mf, diag=diag, eps=eps)
    for b, s, r in (([(0, 1)], [0.2, 0.3], True), ([(0, 1)] * 3, [0.2, 0.3], True), ([], [0.2, 0.3], True),
                    ([(0, 1)] * 2, [0.2, 0.3], False), ([(0, None)], [0.2], False)):
        yield 'wrong', dict(bounds=b, start=s, raises=r, kw={})
    for b in (None, [(None, None)] * 2, [(0, 1)] * 2, [(0, None)] * 2, [(None, 1)] * 2):
        for kw in (dict(ftol=-1.0), dict(xtol=-1.0), dict(gtol=-1.0), dict(factor=0.0), dict(factor=-2.0),
                   dict(diag=[1.0, 0.0]), dict(diag=[-1.0, 1.0]), dict(diag=[1.0])):
            yield 'wrong', dict(bounds=b, start=[0.2, 0.3], raises=True, kw=kw)
        yield 'wrong', dict(bounds=b, start=[0.2, 0.3], raises=False, kw=dict(diag=[1.0, 2.0]))
        if b:
            yield 'wrong', dict(bounds=b * 5, start=[0.2, 0.3] * 5, raises=True, kw={})
    for what in ('nans', 'nans2', 'infs', 'value', 'zero', 'other', 'key', 'range', 'rnan', 'rallnan',
                 'rinf', 'rninf', 'big'):
        for b in ('none', 'open', 'mixed'):
            for npr in (0, 2):
                for stay in (False, True):
                    yield 'inject', dict(what=what, bounds=b, nprior=npr, stay=stay)
    for model in ('gauss', 'bdf'):
        for prior in (False, True):
            for npix in (1, 3, 5, 6, 7, 8, 12, 81):
                for mf in (list(range(1, 40 if not thorough else 120, 1 if thorough else 4)) + [4000]):
                    yield 'budget', dict(model=model, prior=prior, npix=npix, maxfev=mf)
