"""
C12  runners and bootstrappers follow the retry and failure protocol
"""
import itertools
import numpy as np
import ngmix
from ngmix import Observation, ObsList, MultiBandObsList
from ngmix.runners import Runner, PSFRunner, run_fitter, run_psf_fitter
from ngmix.bootstrap import Bootstrapper, bootstrap, remove_failed_psf_obs
from ngmix.metacal import MetacalBootstrapper, metacal_bootstrap
from ngmix.gexceptions import BootPSFFailure, GMixRangeError, NGmixBaseException
from mc.core import fp
from mc import data as D
from mc.props.c09 import image

LEVEL = 'model_checking'
RULE = (
    'The fitters and guessers are replaced by an environment that answers every call from a '
    'script; the real runners and bootstrappers run against every script: all outcome '
    'sequences (success, failure, failure with a mixture, exception in the fitter or guesser) '
    'to the stated number of tries; all assignments of outcomes to the psf observations of '
    'every structure of bands and epochs; all histories of bootstraps with one object; all '
    'assignments over the metacal images.  A reference model of the protocol gives the '
    'expected calls, arguments, stored results, mixtures, remaining epochs and exception.  '
    'The same with the real adaptive-moments, gaussian-moments and least-squares fitters, '
    'every subset of psf images made unusable, compared with the direct fit of the '
    'remaining epochs.'
)
ASSUMPTIONS = ['every observation given to a bootstrapper has a psf', 'ntry at least 1']


class FitterError(Exception):
    pass


class Res(dict):
    """result without a mixture"""


class GRes(dict):
    """result with a mixture"""

    def get_gmix(self):
        if self['flags'] != 0:
            raise GMixRangeError('failed')
        return ngmix.GMixModel([0.0, 0.0, 0.0, 0.0, self['T'], 1.0], 'gauss')


# outcome -> flags, has mixture, raises
#   o ok with mixture     n ok without mixture
#   f failed with get_gmix    F failed without     x fitter raises   g guesser raises
OUT = {'o': (0, True), 'n': (0, False), 'f': (3, True), 'F': (4, False)}


class Env(object):
    """scripted fitter and guesser; script: key -> outcome list"""

    def __init__(self, script, tag, default=None):
        self.script = {k: list(v) for k, v in script.items()}
        self.tag = tag
        self.default = default
        self.calls = []
        self.guesses = []
        self.count = {}

    def pos(self, key):
        return self.count.get(key, 0)

    def outcome(self, key):
        s = self.script.get(key, self.default)
        if s is None:
            raise AssertionError('fitter called for unexpected key %r' % (key,))
        i = self.pos(key)
        return s[min(i, len(s) - 1)]

    def guesser(self, obs, **kw):
        key = self.tag(obs)
        if self.outcome(key) == 'g':
            self.count[key] = self.pos(key) + 1
            self.guesses.append((key, None))
            raise FitterError('guesser')
        g = np.array([float(len(self.guesses))])
        self.guesses.append((key, g))
        return g

    def go(self, obs, guess=None, **kw):
        key = self.tag(obs)
        o = self.outcome(key)
        i = self.pos(key)
        self.count[key] = i + 1
        if o == 'x':
            self.calls.append((key, obs, guess, None))
            raise FitterError('fitter')
        flags, hasg = OUT[o]
        r = (GRes if hasg else Res)(flags=flags, T=1.0 + len(self.calls), key=repr(key), i=i)
        self.calls.append((key, obs, guess, r))
        return r


# ---------------------------------------------------------------------------


def k_retry(case, rec):
    """one observation, all outcome sequences"""
    outs, ntry, useg, via, struct = (case[k] for k in ('outs', 'ntry', 'guesser', 'via', 'struct'))
    ob = mkobs(struct, psf=via in ('psf', 'psffunc'))
    one = isinstance(ob, Observation)
    env = Env({'k': outs}, lambda o: 'k')
    guesser = env.guesser if useg else None
    kw = dict(fitter=env, guesser=guesser, ntry=ntry)
    if via == 'runner':
        f = Runner(**kw).go
    elif via == 'func':
        def f(obs):
            return run_fitter(obs=obs, **kw)
    elif via == 'psf':
        f = PSFRunner(**kw).go
    elif via == 'psffunc':
        def f(obs):
            return run_psf_fitter(obs=obs, **kw)
    target = ob.psf if (via in ('psf', 'psffunc')) else ob
    # model
    n, err = 0, None
    for o in outs[:ntry]:
        if o == 'g' and not useg:
            o = 'x'
        n += 1
        if o in 'xg':
            err = o
            break
        if OUT[o][0] == 0:
            break
    env.script['k'] = [('x' if o == 'g' and not useg else o) for o in outs]
    try:
        res, got = f(obs=ob), None
    except FitterError as e:
        res, got = None, str(e)
    rec.trans(n)
    rec.trace()
    want = {None: None, 'x': 'fitter', 'g': 'guesser'}[err]
    if got != want:
        rec.fail('retry-error', 'raised %s, expected %s' % (got, want))
        return
    nfit = n - (1 if err == 'g' else 0)
    if len(env.calls) != nfit:
        rec.fail('retry-count', '%d fits, expected %d for %s ntry %d' % (len(env.calls), nfit, outs, ntry))
        return
    if useg and len(env.guesses) != n:
        rec.fail('retry-guess', '%d guesses for %d attempts' % (len(env.guesses), n))
        return
    for i, c in enumerate(env.calls):
        if one and c[1] is not target:
            rec.fail('retry-obs', 'attempt %d was given another observation' % i)
        if not one and c[1] is not ob:
            rec.fail('retry-obs', 'attempt %d was given another observation' % i)
        if useg:
            if c[2] is None or float(np.ravel(c[2])[0]) != i:
                rec.fail('retry-guess', 'attempt %d used guess %r' % (i, c[2]))
        elif c[2] is not None:
            rec.fail('retry-guess', 'guess without a guesser')
    if got is None and (res is not env.calls[-1][3]):
        rec.fail('retry-result', 'result is not that of the last attempt')
    rec.state(fp(outs, ntry, useg, via, n, want))
    rec.outcome(want or res['flags'])


# ---------------------------------------------------------------------------
# structures:  'o' single, [n] obslist, [[n, m]] multiband

def mkone(band, epoch, psf=True, real=False):
    j = ngmix.DiagonalJacobian(row=4.0, col=4.0, scale=0.3)
    n = 9
    p = None
    if psf:
        pj = ngmix.DiagonalJacobian(row=6.0, col=6.0, scale=0.3)
        pim = image('round', 13, pj, T=0.5) + 1e-3 * D.noise((13, 13), 10 * band + epoch)
        p = Observation(pim, weight=np.full((13, 13), 1e6), jacobian=pj, meta={'tag': (band, epoch)})
    im = image('pos', n, j) + 1e-3 * D.noise((n, n), 50 + 10 * band + epoch)
    return Observation(im, weight=np.full((n, n), 1e6), jacobian=j, psf=p,
                       meta={'tag': (band, epoch)})


def mkobs(struct, psf=True):
    if struct == 'o':
        return mkone(0, 0, psf)
    if isinstance(struct, int):
        ol = ObsList(meta={'list': 0})
        for e in range(struct):
            ol.append(mkone(0, e, psf))
        return ol
    mb = MultiBandObsList(meta={'mb': 1})
    for b, n in enumerate(struct):
        ol = ObsList(meta={'list': b})
        for e in range(n):
            ol.append(mkone(b, e, psf))
        mb.append(ol)
    return mb


def keys(struct):
    if struct == 'o':
        return [(0, 0)]
    if isinstance(struct, int):
        return [(0, e) for e in range(struct)]
    return [(b, e) for b, n in enumerate(struct) for e in range(n)]


def leaves(ob):
    """dict (band, epoch) -> observation, by position"""
    if isinstance(ob, Observation):
        return {(0, 0): ob}
    if isinstance(ob, ObsList):
        return {(0, e): o for e, o in enumerate(ob)}
    return {(b, e): o for b, ol in enumerate(ob) for e, o in enumerate(ol)}


def nest(struct, d):
    """results by key in the documented nesting"""
    if struct == 'o':
        return d[(0, 0)]
    if isinstance(struct, int):
        return [d[(0, e)] for e in range(struct)]
    return [[d[(b, e)] for e in range(n)] for b, n in enumerate(struct)]


def ident(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    return a is b


def shape(ob):
    """structure with the identities of the observations"""
    if isinstance(ob, Observation):
        return ('o', id(ob))
    if isinstance(ob, ObsList):
        return ('l', [id(o) for o in ob], dict(ob.meta))
    return ('m', [shape(o) for o in ob], dict(ob.meta))


def want_after(scripts, ntry):
    """key -> (ncalls, outcome)"""
    r = {}
    for k, outs in scripts.items():
        for i in range(ntry):
            o = outs[min(i, len(outs) - 1)]
            if o in 'on':
                break
        r[k] = (i + 1, o)
    return r


def k_psf(case, rec):
    """PSFRunner over a structure, outcomes per psf"""
    struct, outs, ntry, set_result, stale, nopsf = (
        case[k] for k in ('struct', 'outs', 'ntry', 'set_result', 'stale', 'nopsf'))
    ob = mkobs(struct, psf=not nopsf)
    ks = keys(struct)
    lv = leaves(ob)
    scripts = dict(zip(ks, [list(o) for o in outs]))
    old = {}
    for k in ks:
        t = lv[k] if nopsf else lv[k].psf
        if stale:
            t.set_gmix(ngmix.GMixModel([0, 0, 0, 0, 9.0, 1.0], 'gauss'))
            t.meta['result'] = {'flags': 77}
        old[k] = t
    before = shape(ob)
    snap = D.snap(ob)
    env = Env(scripts, lambda o: o.meta['tag'])
    guesser = env.guesser if case['guesser'] else None
    r = PSFRunner(fitter=env, guesser=guesser, ntry=ntry, set_result=set_result)
    res = r.go(obs=ob)
    rec.trace()
    want = want_after(scripts, ntry)
    rec.trans(sum(w[0] for w in want.values()))
    last = {}
    cnt = {}
    for k, o, g, rr in env.calls:
        last[k] = rr
        cnt[k] = cnt.get(k, 0) + 1
        if o is not old[k]:
            rec.fail('psf-fit-obs', 'the fitter was not given the psf observation of %s' % (k,))
    for k in ks:
        if cnt.get(k, 0) != want[k][0]:
            rec.fail('psf-count', '%s: %s fits, expected %s' % (k, cnt.get(k, 0), want[k][0]))
            return
    if not ident(res, nest(struct, last)):
        rec.fail('psf-results', 'returned results do not follow the structure')
    lv2 = leaves(ob)
    for k in ks:
        t = lv2[k] if nopsf else lv2[k].psf
        oc = want[k][1]
        if set_result:
            if t.meta.get('result') is not last[k]:
                rec.fail('psf-meta', '%s: stored result is not the one of the last attempt' % (k,))
        elif (t.meta.get('result', None) != ({'flags': 77} if stale else None)):
            rec.fail('psf-meta', '%s: result set although set_result is False' % (k,))
        sets = set_result and oc == 'o'
        if sets:
            if not t.has_gmix() or not np.allclose(t.gmix.get_full_pars(),
                                                   last[k].get_gmix().get_full_pars()):
                rec.fail('psf-gmix', '%s: mixture of a successful fit not set' % (k,))
        elif stale:
            if not t.has_gmix() or abs(t.gmix.get_T() - 9.0) > 1e-12:
                rec.fail('psf-gmix', '%s: mixture changed for outcome %s' % (k, oc))
        elif t.has_gmix():
            rec.fail('psf-gmix', '%s: mixture set for outcome %s' % (k, oc))
    if shape(ob) != before:
        rec.fail('psf-structure', 'the structure of the caller changed')
    rec.eval(len(ks))
    after = strip(D.snap(ob))
    d = D.diff(after, strip(snap))
    if d:
        rec.fail('psf-modified', 'something else was modified: %s' % d)
    rec.state(fp(struct, outs, ntry, set_result, stale, nopsf))
    rec.outcome('%d ok of %d' % (sum(w[1] in 'on' for w in want.values()), len(ks)))


def strip(s):
    """snapshot without psf results and mixtures"""
    if isinstance(s, dict):
        return {k: strip(v) for k, v in s.items() if k not in ('result', 'gmix')}
    if isinstance(s, list):
        return [strip(v) for v in s]
    return s


# ---------------------------------------------------------------------------
# bootstrap


def boot_model(struct, oc, ignore, has_psf_runner):
    """None if BootPSFFailure is required, otherwise remaining keys"""
    ks = keys(struct)
    if not has_psf_runner or not ignore:
        return ks
    good = [k for k in ks if oc[k] in 'on']
    bands = sorted(set(k[0] for k in ks))
    for b in bands:
        if not any(k[0] == b for k in good):
            return None
    return good


def check_seen(rec, seen, ob, struct, keep, lv):
    """the object fitter saw exactly the remaining epochs, in order"""
    if type(seen) is not type(ob):
        rec.fail('boot-type', 'object fit given a %s for a %s' % (type(seen).__name__, type(ob).__name__))
        return
    if isinstance(seen, Observation):
        if seen is not ob:
            rec.fail('boot-obs', 'object fit given another observation')
        return
    if seen.meta.get('mb' if isinstance(seen, MultiBandObsList) else 'list') != \
            ob.meta.get('mb' if isinstance(seen, MultiBandObsList) else 'list'):
        rec.fail('boot-meta', 'list meta lost')
    if isinstance(seen, ObsList):
        got = [list(seen)]
        nb = 1
    else:
        got = [list(o) for o in seen]
        nb = len(struct)
        for b, o in enumerate(seen):
            if o.meta.get('list') != b:
                rec.fail('boot-meta', 'meta of the list of band %d lost' % b)
    want = [[lv[k] for k in keep if k[0] == b] for b in range(nb)]
    if not ident(got, want):
        rec.fail('boot-epochs', 'object fit saw %s, expected %s' % (
            [[o.meta['tag'] for o in x] for x in got], keep))


def k_boot(case, rec):
    """histories of bootstraps with one object and one set of observations"""
    struct, hist, ignore, via = (case[k] for k in ('struct', 'hist', 'ignore', 'via'))
    ks = keys(struct)
    ob = mkobs(struct)
    lv = leaves(ob)
    before = shape(ob)
    snap = strip(D.snap(ob))
    penv = Env({}, lambda o: o.meta['tag'])
    oenv = Env({}, lambda o: 'obj')
    pr = PSFRunner(fitter=penv, ntry=case.get('ntry', 1)) if via != 'nopsfrunner' else None
    ru = Runner(fitter=oenv, ntry=2)
    if via == 'class' or via == 'nopsfrunner':
        bs = Bootstrapper(runner=ru, psf_runner=pr, ignore_failed_psf=ignore)
        go = bs.go
        if bs.fitter is not oenv:
            rec.fail('boot-fitter', 'fitter attribute')
    else:
        def go(obs):
            return bootstrap(obs=obs, runner=ru, psf_runner=pr, ignore_failed_psf=ignore)
    for outs, obj in hist:
        penv.script = {k: [o] for k, o in zip(ks, outs)}
        oenv.script = {'obj': list(obj)}
        penv.count, oenv.count = {}, {}
        penv.calls, oenv.calls = [], []
        oc = dict(zip(ks, outs))
        raised = None
        keep = boot_model(struct, oc, ignore, pr is not None)
        try:
            res = go(obs=ob)
        except BootPSFFailure:
            raised = 'psf'
        except FitterError:
            raised = 'fitter'
        rec.trans(len(penv.calls) + len(oenv.calls))
        if pr is not None and any(o == 'x' for o in outs):
            want = 'fitter'
        elif keep is None:
            want = 'psf'
        elif 'x' in obj[:2] and not obj[0] in 'on':
            want = 'fitter'
        else:
            want = None
        if raised != want:
            rec.fail('boot-raise', 'psf outcomes %s object %s ignore %s: raised %s, expected %s' % (
                outs, obj, ignore, raised, want))
            return
        if want is None:
            nobj = 1 if obj[0] in 'on' else 2
            if len(oenv.calls) != nobj:
                rec.fail('boot-count', '%d object fits' % len(oenv.calls))
                return
            if res is not oenv.calls[-1][3]:
                rec.fail('boot-result', 'not the result of the object fit')
            for c in oenv.calls:
                check_seen(rec, c[1], ob, struct, keep, lv)
        elif want == 'psf' and oenv.calls:
            rec.fail('boot-after-failure', 'the object was fit although no psf is good')
        if shape(ob) != before:
            rec.fail('boot-structure', 'the structure of the caller changed')
            return
        rec.outcome(want or 'ok')
        rec.state(fp(struct, outs, obj, ignore, via))
    if D.diff(strip(D.snap(ob)), snap):
        rec.fail('boot-modified', 'input modified: %s' % D.diff(strip(D.snap(ob)), snap))
    rec.trace()


def k_remove(case, rec):
    """remove_failed_psf_obs alone, results already present"""
    struct, outs = case['struct'], case['outs']
    ob = mkobs(struct)
    lv = leaves(ob)
    ks = keys(struct)
    for k, o in zip(ks, outs):
        lv[k].psf.meta['result'] = {'flags': o}
    before = shape(ob)
    oc = {k: ('o' if o == 0 else 'F') for k, o in zip(ks, outs)}
    keep = boot_model(struct, oc, True, True)
    try:
        new = remove_failed_psf_obs(ob)
    except BootPSFFailure:
        new = None
    rec.trans()
    rec.trace()
    if (new is None) != (keep is None):
        rec.fail('remove-raise', 'flags %s: %s' % (outs, 'raised' if new is None else 'did not raise'))
        return
    if new is not None:
        check_seen(rec, new, ob, struct, keep, lv)
    if shape(ob) != before:
        rec.fail('remove-structure', 'the structure of the caller changed')
    rec.state(fp(struct, outs))


# ---------------------------------------------------------------------------
# metacal

def k_metacal(case, rec):
    """scripted fitters on the metacal images; fault: (type index, key) -> outcome"""
    struct, types, ignore, via = (case[k] for k in ('struct', 'types', 'ignore', 'via'))
    ks = keys(struct)
    ob = mkobs(struct)
    lv = leaves(ob)
    before = shape(ob)
    snap = D.snap(ob)
    fault = {(t, tuple(k)): o for t, k, o in case['fault']}
    objf = case['objfault']
    calls = []      # (tag)
    state = {}

    class PF(object):
        # the images are processed one metacal type after the other; the type
        # being processed is the number of complete passes over the epochs
        def go(self, obs, **kw):
            tag = obs.meta['tag']
            n = state.get(tag, 0)
            state[tag] = n + 1
            o = fault.get((n, tag), 'o')
            if o == 'x':
                raise FitterError('psf')
            fl, hasg = OUT[o]
            r = (GRes if hasg else Res)(flags=fl, T=1.0)
            calls.append(('p', n, tag))
            return r

    seen = []

    class OF(object):
        def go(self, obs, **kw):
            n = len(seen)
            o = objf if n == case['objat'] else 'o'
            if o == 'x':
                seen.append((obs, None))
                raise FitterError('obj')
            r = Res(flags=OUT[o][0], n=n)
            seen.append((obs, r))
            return r

    pr = PSFRunner(fitter=PF()) if case['psfrunner'] else None
    ru = Runner(fitter=OF())
    rng = np.random.RandomState(3)
    kw = dict(types=list(types), psf='gauss', fixnoise=False)
    raised = None
    try:
        if via == 'class':
            mb = MetacalBootstrapper(runner=ru, psf_runner=pr, ignore_failed_psf=ignore,
                                     rng=rng, **kw)
            resdict, obsdict = mb.go(obs=ob)
        else:
            resdict, obsdict = metacal_bootstrap(obs=ob, runner=ru, psf_runner=pr,
                                                 ignore_failed_psf=ignore, rng=rng, **kw)
    except BootPSFFailure:
        raised = 'psf'
    except FitterError:
        raised = 'fitter'
    rec.trace()
    rec.trans(len(calls) + len(seen))
    # model: types in some order, pass number = position in that order
    want = None
    keeps = []
    for n in range(len(types)):
        oc = {k: fault.get((n, k), 'o') for k in ks}
        if pr is not None and any(o == 'x' for o in oc.values()):
            want = 'fitter'
            break
        keep = boot_model(struct, oc, ignore, pr is not None)
        if keep is None:
            want = 'psf'
            break
        keeps.append(keep)
        if objf == 'x' and n == case['objat']:
            want = 'fitter'
            break
    if raised != want:
        rec.fail('metacal-raise', 'raised %s, expected %s for %s' % (raised, want, case['fault']))
        return
    if want is None and len(seen) != len(keeps):
        rec.fail('metacal-count', '%d object fits, expected %d' % (len(seen), len(keeps)))
        return
    for (o, r), keep in zip(seen, keeps):
        got = sorted((leaf.meta['tag']) for leaf in leaves(o).values())
        if got != sorted(keep):
            rec.fail('metacal-epochs', 'object fit saw %s, expected %s' % (got, keep))
            return
        if o is ob or any(x is y for x in leaves(o).values() for y in lv.values()):
            rec.fail('metacal-input', 'object fit given an input observation')
    if want is None:
        if set(resdict) != set(types) or set(obsdict) != set(types):
            rec.fail('metacal-keys', '%s %s' % (sorted(resdict), sorted(obsdict)))
            return
        for t in types:
            # the result belongs to the observations of that type
            m = [i for i, (o, r) in enumerate(seen) if r is resdict[t]]
            if len(m) != 1:
                rec.fail('metacal-result', 'type %s has no result of its own' % t)
                continue
            so = leaves(seen[m[0]][0])
            oo = {o.meta['tag']: o for o in leaves(obsdict[t]).values()}
            if set(oo) != set(ks):
                rec.fail('metacal-obsdict', 'type %s: epochs of the returned observations %s' % (t, sorted(oo)))
                continue
            for o in so.values():
                if o is not oo[o.meta['tag']]:
                    rec.fail('metacal-result', 'type %s was fit with other observations' % t)
                    break
        if len(types) > 1:
            ims = [leaves(obsdict[t])[ks[0]].image for t in types]
            if any(np.array_equal(a, b) for a, b in itertools.combinations(ims, 2)):
                rec.fail('metacal-images', 'two types have the same image')
    if shape(ob) != before or D.diff(D.snap(ob), snap):
        rec.fail('metacal-modified', 'input modified: %s' % D.diff(D.snap(ob), snap))
    rec.state(fp(struct, types, case['fault'], ignore, objf, case['objat'], case['psfrunner']))
    rec.outcome(want or 'ok')


# ---------------------------------------------------------------------------
# real fitters


def mkfit(name):
    if name == 'admom':
        return PSFRunner(fitter=ngmix.admom.AdmomFitter(rng=np.random.RandomState(1)),
                         guesser=ngmix.guessers.GMixPSFGuesser(rng=np.random.RandomState(2), ngauss=1))
    if name == 'coellip':
        return PSFRunner(
            fitter=ngmix.fitting.CoellipFitter(ngauss=1),
            guesser=ngmix.guessers.CoellipPSFGuesser(rng=np.random.RandomState(2), ngauss=1))
    if name == 'em':
        return PSFRunner(
            fitter=ngmix.em.EMFitter(),
            guesser=ngmix.guessers.GMixPSFGuesser(rng=np.random.RandomState(2), ngauss=1))
    raise ValueError(name)


class FixedGuess(object):
    def __init__(self, nband):
        self.nband = nband

    def __call__(self, obs):
        return np.array([0.01, -0.01, 0.02, 0.01, 1.2] + [1.0] * self.nband)


def k_real(case, rec):
    """bad psfs by data; equal to the fit of the remaining epochs"""
    struct, bad, psffit, ignore = (case[k] for k in ('struct', 'bad', 'psffit', 'ignore'))
    ks = keys(struct)
    ob = mkobs(struct)
    lv = leaves(ob)
    badk = [k for k, b in zip(ks, bad) if b]
    for k in badk:
        p = lv[k].psf
        with p.writeable():
            p.image[:, :] = np.nan
    before = shape(ob)
    snap = strip(D.snap(ob))
    nband = len(struct) if isinstance(struct, list) else 1
    ru = Runner(fitter=ngmix.fitting.Fitter(model='gauss'), guesser=FixedGuess(nband), ntry=1)
    bs = Bootstrapper(runner=ru, psf_runner=mkfit(psffit), ignore_failed_psf=ignore)
    oc = {k: ('F' if k in badk else 'o') for k in ks}
    keep = boot_model(struct, oc, ignore, True)
    raised = None
    res = None
    try:
        res = bs.go(obs=ob)
    except BootPSFFailure:
        raised = 'psf'
    except (NGmixBaseException, ValueError, AttributeError, RuntimeError) as e:
        raised = 'other'
        err = e
    rec.trace()
    for k in ks:
        fl = leaves(ob)[k].psf.meta['result']['flags']
        if (fl != 0) != (k in badk):
            rec.fail('real-psf-status', 'psf of %s: flags %s' % (k, fl))
            return
        if lv[k].psf.has_gmix() != (k not in badk):
            rec.fail('real-psf-gmix', 'psf of %s' % (k,))
    if shape(ob) != before:
        rec.fail('real-structure', 'structure changed')
    if D.diff(strip(D.snap(ob)), snap):
        rec.fail('real-modified', 'input modified')
    rec.state(fp(struct, bad, psffit, ignore))
    rec.outcome(raised or 'ok')
    if not ignore and badk:
        # all epochs go to the object fit, whatever it makes of them
        if raised == 'psf':
            rec.fail('real-raise', 'BootPSFFailure although failed psfs are not ignored')
        return
    if keep is None:
        if raised != 'psf':
            rec.fail('real-raise', 'expected BootPSFFailure, got %s' % raised)
        return
    if raised:
        rec.fail('real-raise', 'raised %s %r' % (raised, err if raised == 'other' else ''))
        return
    # direct fit of a new list of the remaining epochs
    if struct == 'o':
        new = ob
    elif isinstance(struct, int):
        new = ObsList()
        for k in keep:
            new.append(lv[k])
    else:
        new = MultiBandObsList()
        for b in range(nband):
            ol = ObsList()
            for k in keep:
                if k[0] == b:
                    ol.append(lv[k])
            new.append(ol)
    ref = ngmix.fitting.Fitter(model='gauss').go(obs=new, guess=FixedGuess(nband)(new))
    rec.trans(2)
    if ref['flags'] != res['flags']:
        rec.fail('real-result', 'flags %s, direct fit %s' % (res['flags'], ref['flags']))
        return
    if ref['flags'] == 0:
        for k in ('pars', 'pars_err', 'chi2per', 's2n', 'npix'):
            if k in ref and not np.allclose(np.asarray(res[k], float), np.asarray(ref[k], float),
                                            rtol=1e-6, atol=1e-9):
                rec.fail('real-result', '%s: %s, direct fit %s' % (k, res[k], ref[k]))


# ---------------------------------------------------------------------------

KINDS = dict(retry=k_retry, psf=k_psf, boot=k_boot, remove=k_remove, metacal=k_metacal, real=k_real)
CHUNK = 32


def warmup():
    ob = mkobs('o')
    mkfit('admom').go(ob)
    mkfit('coellip').go(ob)
    mkfit('em').go(ob)
    ngmix.fitting.Fitter(model='gauss').go(obs=ob, guess=FixedGuess(1)(ob))


STRUCTS = ['o', 1, 2, 3, [1], [2], [1, 1], [2, 1], [1, 2], [2, 2], [1, 1, 1]]


def cases(tier):
    thorough = tier == 'thorough'
    n = 5 if thorough else 4
    alpha = 'onfFxg'
    for ntry in range(1, n + 1):
        # outcomes after a success or an exception are never reached
        seqs = ['']
        for i in range(ntry):
            seqs = [s + a for s in seqs if not s or s[-1] in 'fF' for a in alpha] + \
                   [s for s in seqs if s and s[-1] not in 'fF']
        for s in seqs:
            # one more success after the last, must not be used
            for g in (True, False):
                for via in ('runner', 'func', 'psf', 'psffunc'):
                    yield 'retry', dict(outs=list(s) + ['o'], ntry=ntry, guesser=g, via=via, struct='o')
                if len(s) <= 2:
                    for st in (2, [1, 1]):
                        yield 'retry', dict(outs=list(s) + ['o'], ntry=ntry, guesser=g,
                                            via='runner', struct=st)
    structs = STRUCTS + ([4, [2, 3], [3, 2], [1, 2, 2]] if thorough else [])
    for st in structs:
        ks = keys(st)
        two = ['o', 'n', 'f', 'F'] if len(ks) <= 3 or thorough and len(ks) <= 4 else ['o', 'F']
        for outs in itertools.product(two, repeat=len(ks)):
            for sr in (True, False):
                for stale in (True, False):
                    for nopsf in (False, True):
                        if (nopsf or not sr) and len(ks) > 2:
                            continue
                        yield 'psf', dict(struct=st, outs=[[o] for o in outs], ntry=1, set_result=sr,
                                          stale=stale, nopsf=nopsf, guesser=False)
        # retries per psf
        seqs = ['oF', 'FoF', 'FFo', 'fnF']
        if len(ks) <= 3:
            for outs in itertools.product(seqs, repeat=len(ks)):
                for g in (True, False):
                    yield 'psf', dict(struct=st, outs=[list(o) for o in outs], ntry=2, set_result=True,
                                      stale=False, nopsf=False, guesser=g)
        for outs in itertools.product([0, 1, 4], repeat=len(ks)):
            if len(ks) <= 4:
                yield 'remove', dict(struct=st, outs=list(outs))
        # bootstraps
        al = ['o', 'n', 'F', 'x'] if len(ks) <= 3 else ['o', 'F']
        for outs in itertools.product(al, repeat=len(ks)):
            for ignore in (True, False):
                for via in ('class', 'func', 'nopsfrunner'):
                    for obj in ('o', 'Fo', 'FF', 'Fx', 'x'):
                        if obj not in ('o', 'Fo') and (via != 'class' or 'x' in outs):
                            continue
                        yield 'boot', dict(struct=st, hist=[[list(outs), obj]], ignore=ignore, via=via)
        # histories with one bootstrapper
        if len(ks) <= (4 if thorough else 3):
            depth = 3 if len(ks) <= 2 else 2
            vecs = [list(o) for o in itertools.product('oF', repeat=len(ks))]
            for d in range(2, depth + 1):
                for h in itertools.product(vecs, repeat=d):
                    for ignore in (True, False):
                        yield 'boot', dict(struct=st, hist=[[v, 'o'] for v in h], ignore=ignore, via='class')
    # metacal
    types = ['noshear', '1p', '2m']
    for st in ('o', 2, [1, 1]) + (([2, 1], 3) if thorough else ()):
        ks = keys(st)
        one = [[t, list(k), o] for t in range(len(types)) for k in ks for o in 'Fxn']
        sets = [[]] + [[a] for a in one] + [
            [a, b] for a, b in itertools.combinations(one, 2) if (a[0], a[1]) != (b[0], b[1])
            and (a[2] == b[2] == 'F' or thorough)]
        for s in sets:
            for ignore in (True, False):
                yield 'metacal', dict(struct=st, types=types, fault=s, ignore=ignore,
                                      via='class' if len(s) % 2 else 'func', objfault='o', objat=0,
                                      psfrunner=True)
        for at in range(3):
            for o in 'Fx':
                for pr in (True, False):
                    for via in ('class', 'func'):
                        yield 'metacal', dict(struct=st, types=types, fault=[], ignore=True, via=via,
                                              objfault=o, objat=at, psfrunner=pr)
    for psffit in ('admom', 'coellip', 'em'):
        for st in ['o', 2, 3, [1, 1], [2, 1], [2, 2]] + ([[1, 2, 1], 4, [2, 3]] if thorough else []):
            ks = keys(st)
            for bad in itertools.product([0, 1], repeat=len(ks)):
                for ignore in (True, False):
                    if len(ks) > 3 and not ignore and sum(bad) > 1:
                        continue
                    yield 'real', dict(struct=st, bad=list(bad), psffit=psffit, ignore=ignore)
