"""
C18  joint priors combine their components slot by slot
"""
import itertools
import numpy as np
from ngmix import joint_prior as JP, priors as PR
from ngmix.defaults import LOWVAL
from ngmix.gexceptions import GMixRangeError
from mc.core import fp

LEVEL = 'model_checking'
RULE = (
    'Every joint prior x number of bands x way of passing the flux priors x assignment of '
    'component kinds to slots (complete for up to three slots, constant and one and two '
    'slots different beyond), each slot with its own disjoint support.  For each: the base '
    'point, every slot moved, every pair of slots moved, every slot and every pair of '
    'slots out of range, in scalar and array form (all row orders of small tables); all '
    'subsets of bounded components; samples of every size where each component has its '
    'own random state, so that the slot must hold exactly what that component draws on '
    'its own; and all histories of evaluations, samples and width estimates to a depth. '
    'Oracle: the slot table written out here, applied to the components themselves.'
)
ASSUMPTIONS = ['components are the classes of ngmix.priors with the methods the joint prior needs',
               'finite parameters']
CHUNK = 8
CASE_TIMEOUT = 200

OUT = 'outside'

# name: number of one dimensional slots before the fluxes
FAM = dict(simple=1, galsim=1, bd=3, bdf=2, spergel=2, co1=1, co2=2, co3=3, co4=4, co5=5)
KINDS1 = ['flat', 'normal', 'normalb', 'lognormal', 'erf', 'trunc']
KINDSF = ['lmb', 'sinh']    # residual form only


def slots(fam, nband):
    """kind of each parameter: (component, position in the component)"""
    if fam.startswith('co'):
        n = int(fam[2:])
        one = [0] * n + [1] * n
    else:
        one = list(range(FAM[fam] + nband))
    return one


def ncomp(fam, nband):
    return 2 if fam.startswith('co') else FAM[fam] + nband


def comp(kind, k, seed=0):
    rng = np.random.RandomState(1000 + 17 * k + seed)
    m = 3.0 * k + 1.0
    if kind == 'flat':
        return PR.FlatPrior(m - 0.5, m + 0.6, rng=rng)
    if kind == 'normal':
        return PR.Normal(m, 0.1 + 0.02 * k, rng=rng)
    if kind == 'normalb':
        return PR.Normal(m, 0.12 + 0.02 * k, rng=rng, bounds=(m - 0.4 - 0.01 * k, m + 0.6))
    if kind == 'lognormal':
        return PR.LogNormal(0.6, 0.1 + 0.01 * k, rng=rng, shift=m - 0.5)
    if kind == 'erf':
        return PR.TwoSidedErf(m - 0.5, 0.02, m + 0.6, 0.03 + 0.001 * k, rng=rng)
    if kind == 'trunc':
        return PR.TruncatedGaussian(m + 0.1, 0.2 + 0.02 * k, m - 0.5, m + 0.6, rng=rng)
    if kind == 'lmb':
        return PR.LMBounds(m - 0.5, m + 0.6 + 0.01 * k, rng=rng)
    if kind == 'sinh':
        return PR.Sinh(m, 0.5, rng=rng)
    if kind == 'limit':
        return PR.LimitPDF(PR.Normal(m, 0.3, rng=rng), [m - 0.3 - 0.01 * k, m + 0.5])
    if kind == 'bounded':
        return PR.Bounded1D(PR.Normal(m, 0.3, rng=rng), (m - 0.3 - 0.01 * k, m + 0.5))
    raise ValueError(kind)


def support(kind, k):
    m = 3.0 * k + 1.0
    if kind in ('flat', 'trunc', 'lmb'):
        return m - 0.5, m + 0.6 + (0.01 * k if kind == 'lmb' else 0)
    if kind == 'lognormal':
        return m - 0.5, m + 1.4
    if kind == 'sinh':
        return m - 0.5, m + 0.5
    return m - 1.4, m + 1.4


def cens(kind, seed=0):
    rng = np.random.RandomState(77 + seed)
    if kind == 'cen':
        return PR.CenPrior(0.3, -0.2, 0.1, 0.25, rng=rng)
    return PR.SimpleGauss2D(0.3, -0.2, 0.1, 0.25, rng=rng)


def gs(seed=0):
    return PR.GPriorBA(0.25, rng=np.random.RandomState(99 + seed))


class Parts(object):
    """components of a joint prior, and the prior"""
    def __init__(self, fam, nband, form, kinds, cen='cen', seed=0, shared=None):
        self.fam, self.nband, self.kinds = fam, nband, kinds
        self.cen, self.g = cens(cen, seed), gs(seed)
        self.one = [comp(k, i, seed) for i, k in enumerate(kinds)]
        if shared is not None:
            for i in shared[1:]:
                self.one[i] = self.one[shared[0]]
        n = FAM[fam] if not fam.startswith('co') else 1
        F = self.one[n:]
        if form == 'obj':
            assert len(F) == 1
            F = F[0]
        elif form == 'tuple':
            F = tuple(F)
        self.F = F
        self.Fcopy = list(F) if isinstance(F, (list, tuple)) else None
        a = self.one
        if fam == 'simple':
            self.p = JP.PriorSimpleSep(self.cen, self.g, a[0], F)
        elif fam == 'galsim':
            self.p = JP.PriorGalsimSimpleSep(self.cen, self.g, a[0], F)
        elif fam == 'bd':
            self.p = JP.PriorBDSep(self.cen, self.g, a[0], a[1], a[2], F)
        elif fam == 'bdf':
            self.p = JP.PriorBDFSep(self.cen, self.g, a[0], a[1], F)
        elif fam == 'spergel':
            self.p = JP.PriorSpergelSep(self.cen, self.g, a[0], a[1], F)
        else:
            self.p = JP.PriorCoellipSame(int(fam[2:]), self.cen, self.g, a[0], F)
        self.slots = slots(fam, nband)
        self.npars = 4 + len(self.slots)

    def terms(self, pars):
        """ln p of each constraint from the components; raises when out of range"""
        t = list(self.cen.get_lnprob_scalar_sep(pars[0], pars[1]))
        t.append(self.g.get_lnprob_scalar2d(pars[2], pars[3]))
        for i, c in enumerate(self.slots):
            t.append(self.one[c].get_lnprob_scalar(pars[4 + i]))
        return np.array(t, dtype=float)

    def squares(self, pars):
        """squared residuals from the components"""
        if self.fam in ('bd', 'bdf'):
            t = list(self.cen.get_fdiff(pars[0], pars[1]))
            t.append(self.g.get_fdiff(pars[2], pars[3]))
            for i, c in enumerate(self.slots):
                t.append(self.one[c].get_fdiff(pars[4 + i]))
            return np.array(t, dtype=float) ** 2
        return np.maximum(-2 * self.terms(pars), 0)


def out(f, *a):
    try:
        return f(*a)
    except GMixRangeError:
        return OUT


def points(P):
    """base point, moves, and out of range points, with the slots out of range"""
    base = np.array([0.33, -0.11, 0.12, -0.07] + [3.0 * c + 1.0 + 0.03 * (i + 1)
                                                  for i, c in enumerate(P.slots)])
    moves = [[0.09, -0.3], [0.2, -0.4], [-0.2, 0.3], [0.25, -0.33]] + [[0.17, -0.21]] * len(P.slots)
    outs = [[], [], [0.999], [-1.001]]
    for i, c in enumerate(P.slots):
        k = P.kinds[c]
        lo, hi = support(k, c)
        o = []
        if k in ('flat', 'trunc'):     # LMBounds leaves the range to the minimizer, Sinh has none
            o = [lo - 1e-3, hi + 1e-3]
        elif k == 'lognormal':
            o = [lo, lo - 0.2]
        outs.append(o)
    ok, bad = [base], []
    n = P.npars
    for i in range(n):
        for d in moves[i]:
            x = base.copy()
            x[i] += d
            ok.append(x)
    for i, j in itertools.combinations(range(n), 2):
        x = base.copy()
        x[i] += moves[i][0]
        x[j] += moves[j][1]
        ok.append(x)
    for i in range(n):
        for v in outs[i]:
            x = base.copy()
            x[i] = v
            bad.append(x)
    for i, j in itertools.combinations(range(n), 2):
        if outs[i] and outs[j]:
            x = base.copy()
            x[i], x[j] = outs[i][0], outs[j][-1]
            bad.append(x)
    return ok, bad


def close(a, b, tol=1e-12):
    return np.allclose(a, b, rtol=tol, atol=tol)


def tag(P):
    return '%s, %d bands, %s' % (P.fam, P.nband, ','.join(P.kinds))


def judge(P, rec, only_fdiff=False):
    p = P.p
    ok, bad = points(P)
    want = []
    for x in ok:
        y = x.copy()
        rec.eval()
        sq = P.squares(x)
        if not only_fdiff:
            w = P.terms(x).sum()
            want.append(w)
            got = out(p.get_lnprob_scalar, x)
            pr = out(p.get_prob_scalar, x)
            rec.trans(2)
            if got is OUT or not close(got, w):
                return rec.fail('lnprob', '%s at %s: ln p %s, sum of the components %s' % (tag(P), x.tolist(), got, w))
            if not close(pr, np.exp(w)):
                return rec.fail('prob', '%s at %s: p %s, exp of the sum %s' % (tag(P), x.tolist(), pr, np.exp(w)))
        fd = np.full(P.npars + 5, -77.0)
        n = out(p.fill_fdiff, x, fd)
        rec.trans()
        if n != P.npars - 1:
            return rec.fail('nfdiff', '%s: fill_fdiff returned %s for %d parameters' % (tag(P), n, P.npars))
        if not np.all(fd[n:] == -77.0):
            return rec.fail('fdiff-tail', '%s: fill_fdiff changed entries after those it counted' % tag(P))
        if not close(np.sort(fd[:n] ** 2), np.sort(sq), 1e-10):
            return rec.fail('fdiff', '%s at %s: squared residuals %s, components %s' % (
                tag(P), x.tolist(), (fd[:n] ** 2).tolist(), sq.tolist()))
        if not np.array_equal(x, y):
            return rec.fail('input', '%s: the parameters were changed' % tag(P))
        rec.state(fp(P.fam, P.nband, P.kinds, x))
    rec.trace(len(ok))
    for x in bad:
        rec.eval()
        rec.state(fp(P.fam, P.nband, P.kinds, x))
        fd = np.zeros(P.npars + 5)
        got = out(p.fill_fdiff, x, fd)
        rec.trans()
        if got is not OUT:
            return rec.fail('range-fdiff', '%s at %s: fill_fdiff accepted an out of range value' % (tag(P), x.tolist()))
        if only_fdiff:
            continue
        for f in (p.get_lnprob_scalar, p.get_prob_scalar):
            got = out(f, x)
            rec.trans()
            if got is not OUT:
                return rec.fail('range', '%s at %s: %s is %s for an out of range value' % (
                    tag(P), x.tolist(), f.__name__, got))
        for pos in (0, 1, 2):
            t = np.array(ok[:2])
            t = np.insert(t, pos, x, axis=0)
            got = out(p.get_lnprob_array, t)
            rec.trans()
            if got is not OUT:
                if not got[pos] <= LOWVAL:
                    return rec.fail('range-array', '%s: row %d out of range, ln p %s' % (tag(P), pos, got))
                if not close(np.delete(got, pos), want[:2]):
                    return rec.fail('range-array', '%s: another row is out of range, ln p %s want %s' % (
                        tag(P), got, want[:2]))
            pa = out(p.get_prob_array, t)
            if pa is not OUT and pa[pos] != 0:
                return rec.fail('range-array', '%s: row %d out of range, p %s' % (tag(P), pos, pa))
    rec.trace(len(bad))
    if only_fdiff:
        return
    n = len(ok)
    tables = [list(range(n)), list(range(n))[::-1], [0], [n - 1], [2, 2, 1]]
    tables += [list(t) for t in itertools.permutations(range(3))]
    for t in tables:
        a = np.array([ok[i] for i in t])
        b = a.copy()
        for order in 'CF':
            a = np.array(a, order=order)
            got, pa = p.get_lnprob_array(a), p.get_prob_array(a)
            rec.trans(2)
            rec.eval()
            w = np.array([want[i] for i in t])
            if np.shape(got) != w.shape or not close(got, w):
                return rec.fail('array', '%s rows %s: ln p %s, by row %s' % (tag(P), t, got, w))
            if not close(pa, np.exp(w)):
                return rec.fail('array', '%s rows %s: p %s, by row %s' % (tag(P), t, pa, np.exp(w)))
            if not np.array_equal(a, b):
                return rec.fail('input', '%s: the table was changed' % tag(P))
    rec.trace(len(tables))
    rec.outcome(P.fam)


def k_eval(case, rec):
    for form in case['forms']:
        for cen in case.get('cen', ['cen']):
            P = Parts(case['fam'], case['nband'], form, case['kinds'], cen)
            judge(P, rec)
            if P.Fcopy is not None and (len(P.F) != len(P.Fcopy) or any(x is not y for x, y in zip(P.F, P.Fcopy))):
                rec.fail('input', '%s: the list of flux priors was changed' % tag(P))


def k_fdiff(case, rec):
    judge(Parts(case['fam'], case['nband'], 'list', case['kinds']), rec, only_fdiff=True)


def k_shared(case, rec):
    """the same object in several slots"""
    for sh in case['shared']:
        P = Parts(case['fam'], case['nband'], 'list', case['kinds'], shared=sh)
        # points around the support of the shared one
        for i, c in enumerate(P.slots):
            if c in sh:
                P.slots[i] = sh[0]
        P.kinds = list(P.kinds)
        judge(P, rec)


def k_bounds(case, rec):
    """all subsets of bounded slots"""
    fam, nband = case['fam'], case['nband']
    n = ncomp(fam, nband)
    for mask in itertools.product((0, 1), repeat=n):
        for bk in (['normalb'] if fam not in ('bd', 'bdf') else ['normalb', 'lmb']):
            kinds = [bk if m else 'normal' for m in mask]
            P = Parts(fam, nband, case['form'], kinds)
            b = P.p.bounds
            rec.trans()
            rec.eval()
            rec.trace()
            rec.state(fp('bounds', fam, nband, kinds))
            rec.outcome(sum(mask))
            if not any(mask):
                if b is not None and any(x not in ((None, None), None) for x in map(tuple, b)):
                    rec.fail('bounds', '%s: bounds %s without bounded component' % (tag(P), b))
                continue
            want = [(None, None)] * 4
            for c in P.slots:
                want.append(tuple(P.one[c].bounds) if mask[c] else (None, None))
            if b is None or len(b) != len(want) or any(tuple(x) != y for x, y in zip(b, want)):
                rec.fail('bounds', '%s: bounds %s, components %s' % (tag(P), b, want))


def own(P, n):
    """what the components draw by themselves, as columns (coellip: any order within its slots)"""
    cols = list(P.cen.sample(n)) + list(P.g.sample2d(n))
    for c in P.slots:
        cols.append(P.one[c].sample(n))
    return [np.atleast_1d(np.asarray(c, dtype=float)) for c in cols]


def k_sample(case, rec):
    """histories of samples and evaluations; each component has its own random state"""
    fam, nband, kinds = case['fam'], case['nband'], case['kinds']
    cen = case.get('cen', 'cen')
    ops = case['ops']
    for seed in case['seeds']:
        for hist in itertools.product(ops, repeat=case['depth']):
            P = Parts(fam, nband, 'list', kinds, cen, seed)
            Q = Parts(fam, nband, 'list', kinds, cen, seed)    # reference components
            rec.trace()
            kept = []
            for op in hist:
                rec.trans()
                rec.eval()
                rec.state(fp(fam, nband, kinds, seed, hist))
                if op == 'eval':
                    x = points(P)[0][0]
                    if not close(P.p.get_lnprob_scalar(x), Q.terms(x).sum()):
                        return rec.fail('history', '%s: ln p depends on what was sampled' % tag(P))
                    continue
                if op == 'widths':
                    w = P.p.get_widths(10)
                    if np.shape(w) != (P.npars,) or not np.all(np.isfinite(w)) or not np.all(w > 0):
                        return rec.fail('widths', '%s: %s' % (tag(P), w))
                    # the reference draws the same the first time
                    if 'widths' not in hist[:len(kept)]:
                        own(Q, 10)
                    kept.append(None)
                    continue
                n = op
                s = P.p.sample(n)
                kept.append(None)
                shape = (P.npars,) if n is None else (n, P.npars)
                if s.shape != shape:
                    return rec.fail('sample-shape', '%s: sample(%s) has shape %s' % (tag(P), n, s.shape))
                cols = own(Q, 1 if n is None else n)
                t = np.atleast_2d(s)
                groups = [[i] for i in range(4)]
                for c in range(ncomp(fam, nband)):
                    groups.append([4 + i for i, q in enumerate(P.slots) if q == c])
                for gr in groups:
                    a = np.sort(t[:, gr].ravel())
                    b = np.sort(np.concatenate([cols[i] for i in gr]))
                    if not np.array_equal(a, b):
                        return rec.fail('sample-slot', '%s: sample(%s) history %s slots %s hold %s, the component draws %s'
                                        % (tag(P), n, hist, gr, a.tolist(), b.tolist()))
                for row in t:
                    lnp = out(P.p.get_lnprob_scalar, row)
                    if lnp is OUT or not np.isfinite(lnp):
                        return rec.fail('sample-support', '%s: sample %s has ln p %s' % (tag(P), row.tolist(), lnp))
                if len(t):
                    la = out(P.p.get_lnprob_array, t)
                    if la is OUT or not np.all(np.isfinite(la)):
                        return rec.fail('sample-support', '%s: samples have ln p %s' % (tag(P), la))
                rec.outcome('%s %s' % (fam, n))


def k_args(case, rec):
    """wrong lengths and numbers of bands of the co-elliptical prior"""
    for ng in range(1, 6):
        P = Parts('co%d' % ng, 1, 'obj', ['normal', 'normal'])
        base = points(P)[0][0]
        for n in list(range(0, P.npars)) + [P.npars + 1, P.npars + 3]:
            x = np.resize(base, n)
            fd = np.full(30, 5.0)
            for name, f in (('get_lnprob_scalar', lambda: P.p.get_lnprob_scalar(x)),
                            ('get_prob_scalar', lambda: P.p.get_prob_scalar(x)),
                            ('fill_fdiff', lambda: P.p.fill_fdiff(x, fd)),
                            ('get_lnprob_array', lambda: P.p.get_lnprob_array(np.array([x, x]))),
                            ('get_prob_array', lambda: P.p.get_prob_array(np.array([x, x])))):
                rec.trans()
                rec.eval()
                rec.state(fp('args', ng, n, name))
                try:
                    f()
                    rec.fail('length', 'coellip %d: %s accepted %d parameters' % (ng, name, n))
                except ValueError:
                    rec.outcome('raised')
            if not np.all(fd == 5.0):
                rec.fail('length', 'coellip %d: fill_fdiff wrote before rejecting' % ng)
        for nb in (2, 3):
            rec.trans()
            try:
                JP.PriorCoellipSame(ng, P.cen, P.g, P.one[0], [P.one[1]] * nb)
                rec.fail('nband', 'coellip accepted %d bands' % nb)
            except ValueError:
                rec.trace()


def k_fit(case, rec):
    """a fit with the prior respects the bounds of the components, in their slots"""
    import ngmix
    fam, nband = case['fam'], case['nband']
    model = case['model']
    rng = np.random.RandomState(3)
    j = ngmix.DiagonalJacobian(row=8, col=8, scale=0.3)
    pars = case['truth']
    obs = ngmix.MultiBandObsList()
    for b in range(nband):
        p1 = pars[:len(pars) - nband] + [pars[len(pars) - nband + b]] if not fam.startswith('co') else pars
        if fam.startswith('co'):
            gm = ngmix.gmix.GMixCoellip(p1)
        else:
            gm = ngmix.GMixModel(p1, model) if model != 'bd' else ngmix.GMixModel(p1, 'bd')
        im = gm.make_image((17, 17), jacobian=j)
        ol = ngmix.ObsList()
        ol.append(ngmix.Observation(im + 1e-3 * rng.normal(size=im.shape), weight=im * 0 + 1e6, jacobian=j))
        obs.append(ol)
    for mask in itertools.product((0, -1, 1), repeat=len(pars) - 4):
        if sum(m != 0 for m in mask) != 1:
            continue
        one = []
        limits = [None] * 4
        for i, m in enumerate(mask):
            t = pars[4 + i]
            bd = None
            if m == -1:     # the truth is above the range
                bd = (0.5 * t, 0.9 * t) if t > 0 else (-2.0 - abs(t), t - 0.05)
            if m == 1:
                bd = (1.1 * t, 1.5 * t) if t > 0 else (t + 0.05, t + 0.3)
            limits.append(bd)
            mid = t if bd is None else 0.5 * (bd[0] + bd[1])
            one.append(PR.Normal(mid, 10.0, rng=rng, bounds=bd))
        cen, g = cens('cen'), gs()
        nf = nband
        if fam == 'simple':
            pr = JP.PriorSimpleSep(cen, g, one[0], one[1:])
        elif fam == 'bd':
            pr = JP.PriorBDSep(cen, g, one[0], one[1], one[2], one[3:])
        elif fam == 'bdf':
            pr = JP.PriorBDFSep(cen, g, one[0], one[1], one[2:])
        guess = np.array(pars)
        for i, bd in enumerate(limits):
            if bd is not None:
                guess[i] = 0.5 * (bd[0] + bd[1])
        guess[:4] += 0.01
        f = ngmix.fitting.Fitter(model=model, prior=pr, fit_pars=dict(maxfev=400))
        res = f.go(obs=obs, guess=guess)
        rec.trans()
        rec.trace()
        rec.eval()
        rec.state(fp('fit', fam, nband, mask))
        rec.outcome((fam, res['flags'] == 0))
        if np.all(res['pars'] < -9e9):
            continue      # no answer
        for i, bd in enumerate(limits):
            if bd is not None and not (bd[0] - 1e-9 <= res['pars'][i] <= bd[1] + 1e-9):
                rec.fail('fit-bounds', '%s %d bands: parameter %d is %g, its component is bounded by %s' % (
                    fam, nf, i, res['pars'][i], bd))


KINDS = {'eval': k_eval, 'fdiff': k_fdiff, 'shared': k_shared, 'bounds': k_bounds, 'sample': k_sample,
         'args': k_args, 'fit': k_fit}


def assignments(n, kinds, full):
    """every assignment for few slots, else constants with one and two slots different"""
    if n <= full:
        yield from (list(t) for t in itertools.product(kinds, repeat=n))
        return
    seen = set()
    for k in kinds:
        base = [k] * n
        todo = [base]
        for i in range(n):
            for q in kinds:
                a = list(base)
                a[i] = q
                todo.append(a)
        if full > 2:
            for i, l in itertools.combinations(range(n), 2):
                for q, r in itertools.product(kinds, repeat=2):
                    a = list(base)
                    a[i], a[l] = q, r
                    todo.append(a)
        for a in todo:
            if tuple(a) not in seen:
                seen.add(tuple(a))
                yield a
    for s in range(len(kinds)):
        a = [kinds[(s + i) % len(kinds)] for i in range(n)]
        if tuple(a) not in seen:
            yield a


def cases(tier):
    th = tier == 'thorough'
    for fam in FAM:
        co = fam.startswith('co')
        for nband in ((1,) if co else (1, 2, 3) + ((4, 5) if th else ())):
            n = ncomp(fam, nband)
            forms = ['list']
            if nband == 1:
                forms.append('obj')
            if fam in ('bd', 'bdf'):
                forms.append('tuple')
            full = 4 if th else (2 if not co else 1)
            for a in assignments(n, KINDS1, full):
                yield 'eval', dict(fam=fam, nband=nband, forms=forms if a == [a[0]] * n else forms[:1], kinds=a)
            for cen in ('cen', 'gauss2d'):
                yield 'eval', dict(fam=fam, nband=nband, forms=forms, cen=[cen], kinds=[KINDS1[i % 6] for i in range(n)])
                yield 'sample', dict(fam=fam, nband=nband, kinds=[KINDS1[i % 6] for i in range(n)], cen=cen,
                                     ops=[None, 1, 2, 5, 'eval', 'widths'], depth=3 if th else 2,
                                     seeds=[0, 1, 2] if th else [0])
            for k in KINDS1:
                yield 'sample', dict(fam=fam, nband=nband, kinds=[k] * n, ops=[None, 1, 3, 300], depth=1,
                                     seeds=[0, 1, 2, 3, 4] if th else [0, 1])
            for form in forms:
                yield 'bounds', dict(fam=fam, nband=nband, form=form)
            if fam in ('bd', 'bdf'):
                for a in assignments(n, KINDSF + ['normal'], 3):
                    if 'lmb' in a or 'sinh' in a:
                        yield 'fdiff', dict(fam=fam, nband=nband, kinds=a)
            sh = [list(c) for r in range(2, n + 1) for c in itertools.combinations(range(n), r)]
            if n > 1:
                yield 'shared', dict(fam=fam, nband=nband, kinds=['trunc'] * n, shared=sh)
                yield 'shared', dict(fam=fam, nband=nband, kinds=['normal'] * n, shared=sh)
    yield 'args', {}
    yield 'fit', dict(fam='simple', nband=1, model='exp', truth=[0.05, -0.1, 0.1, 0.05, 1.5, 2.0])
    yield 'fit', dict(fam='simple', nband=2, model='gauss', truth=[0.05, -0.1, 0.1, 0.05, 1.5, 2.0, 3.0])
    yield 'fit', dict(fam='bdf', nband=2, model='bdf', truth=[0.05, -0.1, 0.1, 0.05, 1.5, 0.4, 2.0, 3.0])
    yield 'fit', dict(fam='bd', nband=1, model='bd', truth=[0.05, -0.1, 0.1, 0.05, 1.5, -0.1, 0.4, 2.0])
    if th:
        yield 'fit', dict(fam='simple', nband=3, model='dev', truth=[0.05, -0.1, 0.1, 0.05, 1.5, 2.0, 3.0, 4.0])
        yield 'fit', dict(fam='bd', nband=2, model='bd', truth=[0.05, -0.1, 0.1, 0.05, 1.5, -0.1, 0.4, 2.0, 3.0])
