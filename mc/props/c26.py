"""
C26  an interrupted measurement leaves no trace

Crash points: every call that the python code of ngmix makes while it measures
(to its own functions, compiled functions, numpy, scipy or galsim) is a point
where an exception can come up.  It is raised there in place of the call.
"""
import ast
import itertools
import sys
import warnings
import numpy as np
import ngmix
import ngmix.metacal.metacal
from mc.core import fp
from mc import data as D
from mc.props import c14, c23
from mc.props.c10 import off, setting
from mc.props.c14 import REG, Inputs, Entry, eq, snap, reduce

LEVEL = 'model_checking'
RULE = (
    'Every measurement of the registry of C14 (and metacal objects, metacal and psf runners) is '
    'interrupted by an exception in place of a call made by the python code of ngmix: every '
    'call of every line that the measurement makes (the first times and the last time that it '
    'is made), with empty caches, and with caches off.  Then the inputs and the global '
    'generator are compared with what they were, and the same object measures again, another '
    'input and the same one, compared with fresh objects on fresh inputs.'
)
ASSUMPTIONS = [
    'exceptions arrive at calls; not inside galsim, scipy, numpy or compiled functions, and not in clean-up code',
    'the random state is set again after the interruption',
]
CHUNK = 1
CASE_TIMEOUT = 600
TOOL = 3
MON = sys.monitoring
EV = MON.events


class Memory(MemoryError):
    pass


# ---------------------------------------------------------------------------
# lines of clean-up code, where no exception is raised

_clean = {}


def clean_lines(fn):
    if fn not in _clean:
        s = set()
        try:
            tree = ast.parse(open(fn).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            body = []
            if isinstance(n, ast.Try):
                body = list(n.finalbody) + [x for h in n.handlers for x in h.body]
            elif isinstance(n, ast.FunctionDef) and n.name in ('__exit__', '__del__'):
                body = n.body
            for b in body:
                s.update(range(b.lineno, b.end_lineno + 1))
        _clean[fn] = s
    return _clean[fn]


def in_cleanup(f):
    while f is not None:
        fn = f.f_code.co_filename
        if '/ngmix/' in fn and f.f_lineno in clean_lines(fn):
            return True
        f = f.f_back
    return False


class Run(object):
    """one measurement with a fault at the given occurrence of a call"""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.visits = {}
        self.fired = None

    def call(self, code, off, func, arg0):
        if self.fired is not None:
            return
        key = (code, off)
        n = self.visits.get(key, 0)
        self.visits[key] = n + 1
        if self.at is not None and key == self.at[0] and n == self.at[1]:
            if in_cleanup(sys._getframe(2)):
                return
            self.fired = getattr(func, '__name__', None) or type(func).__name__
            raise self.exc


CUR = [None]
INST = [False]


def monitor(code, off, func, arg0):
    r = CUR[0]
    if r is not None:
        r.call(code, off, func, arg0)


def install():
    if not INST[0]:
        MON.use_tool_id(TOOL, 'verif-faults')
        MON.register_callback(TOOL, EV.CALL, monitor)
        for c in c23.codes():
            MON.set_local_events(TOOL, c, EV.CALL)
        INST[0] = True


def where(key):
    code, off = key
    pos = list(code.co_positions())
    return '%s:%s' % (code.co_qualname, off), pos[off // 2][0]


# ---------------------------------------------------------------------------
# further measurements

REG2 = dict(REG)


def mcal_obj(cls):
    def run(o, obs, **kw):
        name, rng = obs.meta['name'], o[1]
        if name not in o[0]:
            k = dict(rng=rng) if cls == 'MetacalFitGaussPSF' else {}
            o[0][name] = getattr(ngmix.metacal.metacal, cls)(obs, **k)
        out = o[0][name].get_all(0.01, types=['noshear', '1p', '2m', '1p_psf'] if cls == 'MetacalDilatePSF' else ['noshear', '1p', '2m'])
        return [[k, out[k]] for k in sorted(out)]
    return Entry(lambda rng: ({}, rng), run, 'AB')


for _c in ('MetacalDilatePSF', 'MetacalGaussPSF', 'MetacalFitGaussPSF'):
    REG2['obj-' + _c] = mcal_obj(_c)


def _psfrunner(rng):
    return ngmix.runners.PSFRunner(
        fitter=ngmix.admom.AdmomFitter(rng=rng), guesser=ngmix.guessers.GMixPSFGuesser(rng=rng, ngauss=1), ntry=2)


def _mcboot(rng):
    g = ngmix.guessers
    return ngmix.metacal.MetacalBootstrapper(
        runner=ngmix.runners.Runner(fitter=ngmix.gaussmom.GaussMom(fwhm=1.2)), psf_runner=_psfrunner(rng),
        rng=rng, types=['noshear', '1p'])


def _mcgo(o, obs):
    r, od = o.go(obs)
    return [[k, r[k], od[k]] for k in sorted(r)]


REG2['psfrunner'] = Entry(_psfrunner, lambda o, obs: o.go(obs=obs), 'ABL', effects=True)
REG2['mcboot'] = Entry(_mcboot, _mcgo, 'AB')
CACHED = {'pgauss', 'ksigma', 'metacal', 'obj-MetacalDilatePSF', 'obj-MetacalFitGaussPSF', 'mcboot'}
SLOW = {'metacal', 'metacal-noise', 'galsim-spergel', 'galsim-moffat', 'galsim-mb', 'galsim-kobs', 'boot',
        'galsim-exp', 'mcboot', 'obj-MetacalDilatePSF', 'obj-MetacalGaussPSF', 'obj-MetacalFitGaussPSF'}


def docall(e, o, obs, args):
    try:
        res = e.run(o, obs, **args)
    except Exception as err:
        return ('raised', type(err).__name__)
    return reduce(res)


_ref = {}


def reference(name, k):
    if (name, k) not in _ref:
        e = REG2[name]
        off()
        rng = np.random.RandomState(3)
        o = e.make(rng)
        obs, args = Inputs().get(k), e.args(k)
        rng.seed(11)
        _ref[name, k] = docall(e, o, obs, args)
    return _ref[name, k]


def points(name, k, pre, cache, first):
    """the calls that the measurement makes: (call, occurrence)"""
    e = REG2[name]
    setting(7 if cache else 0)
    rng = np.random.RandomState(3)
    o = e.make(rng)
    inp = Inputs()
    if pre:
        rng.seed(11)
        docall(e, o, inp.get(pre), e.args(pre))
    obs, args = inp.get(k), e.args(k)
    rng.seed(11)
    r = CUR[0] = Run()
    try:
        docall(e, o, obs, args)
    finally:
        CUR[0] = None
    out = []
    for key, n in r.visits.items():
        out += [(key, i) for i in sorted(set(range(min(n, first))) | {n - 1})]
    return out


def once(name, k, k2, pre, cache, at, exc, rec):
    e = REG2[name]
    setting(7 if cache else 0)
    rng = np.random.RandomState(3)
    o = e.make(rng)
    inp = Inputs()
    if pre:
        rng.seed(11)
        docall(e, o, inp.get(pre), e.args(pre))
    obs, args = inp.get(k), e.args(k)
    if e.effects:
        from mc.props.c12 import strip
    else:
        strip = lambda x: x
    before = strip(snap(dict(obs=obs, args=args)))
    g0, err0, warn0 = c14.gstate(), np.geterr(), list(warnings.filters)
    rng.seed(11)
    r = CUR[0] = Run(at, exc)
    try:
        out = docall(e, o, obs, args)
    except BaseException as err:
        if err is not exc:
            raise
        out = 'interrupted'
    finally:
        CUR[0] = None
    if r.fired is None:
        return
    rec.trans()
    rec.eval()
    w, line = where(at[0])
    msg = '%s on %s%s%s, %s in place of call %d of %s in %s (line %d)' % (
        name, k, ' after %s' % pre if pre else '', ', caches on' if cache else '', type(exc).__name__, at[1], r.fired, w, line)
    rec.state(fp(name, k, pre, cache, w, at[1], type(exc).__name__))
    rec.outcome('%s:%s' % (name, out if isinstance(out, str) else 'handled'))
    fn = at[0][0].co_qualname
    d = D.diff(before, strip(snap(dict(obs=obs, args=args))))
    if d:
        rec.fail('input:%s:%s' % (name, fn), '%s: the input was changed: %s' % (msg, d))
        return
    if not c14.sameg(g0, c14.gstate()):
        rec.fail('global-rng:%s' % name, '%s: the global generator was advanced' % msg)
        return
    if np.geterr() != err0 or list(warnings.filters) != warn0:
        rec.fail('settings:%s:%s' % (name, fn), '%s: settings of numpy or warnings changed' % msg)
        return
    for kk in ([k2] if k2 else []) + [k]:
        rng.seed(11)
        a = e.args(kk)
        red = docall(e, o, inp.get(kk), args if kk == k else a)
        rec.trans()
        d = eq(red, reference(name, kk))
        if d:
            rec.fail('again:%s:%s' % (name, fn), '%s: the next measurement of %s differs: %s' % (msg, kk, d))
            return


def k_fault(case, rec):
    install()
    name, k = case['entry'], case['input']
    e = REG2[name]
    ks = [x for x in e.inputs if x != k and x not in 'LMCN']
    pre = case.get('pre')
    k2 = pre or (ks[0] if ks and name not in SLOW else None)
    reference(name, k)
    if k2:
        reference(name, k2)
    exc = {'int': KeyboardInterrupt, 'mem': Memory}[case['exc']]
    pts = points(name, k, pre, case['cache'], case['first'])
    i, n = case.get('part', [0, 1])
    try:
        for at in pts[i::n]:
            once(name, k, k2, pre, case['cache'], at, exc('verif'), rec)
    finally:
        off()
    rec.trace()


KINDS = {'fault': k_fault}


def warmup():
    for n, e in REG2.items():
        reference(n, list(e.inputs)[0])
    install()


def cases(tier):
    th = tier == 'thorough'
    for n, e in REG2.items():
        ins = [k for k in e.inputs if th or k in ('A', 'KA', 'M') or k == 'L' and n in ('boot', 'psfrunner')]
        for k in ins:
            parts = (16 if n in CACHED and n in SLOW else 8 if n in SLOW else 1) * (2 if th else 1)
            for cache in ((False, True) if th or n not in SLOW else (True,)) if n in CACHED else (False,):
                # the second kind of exception after another measurement
                others = [x for x in e.inputs if x != k and x not in 'LMCN'] or [k]
                for ex, pre in (('int', None), ('mem', others[0]), ('mem', k)) if th or n not in SLOW else (('int', None),):
                    if pre == k and not th and n not in ('pgauss', 'ksigma', 'psfrunner'):
                        continue
                    for p in range(parts):
                        yield 'fault', dict(entry=n, input=k, cache=cache, exc=ex, pre=pre, part=[p, parts],
                                            first=6 if th else (1 if n in SLOW else 2))
