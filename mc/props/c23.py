"""
C23  measurements in concurrent threads

Two real threads run two measurements under a controlled scheduler: only one
thread runs at a time, and control changes hands at the preemption points of
the schedule.  A preemption point is the start of a line (or of a function) of
the python code of ngmix; compiled functions are atomic, they hold the
interpreter lock.
"""
import itertools
import sys
import threading
import types
import numpy as np
import ngmix
import ngmix.metacal.metacal
from mc.core import fp
from mc import data as D
from mc.props import c14
from mc.props.c14 import REG, Inputs, eq, snap, reduce

LEVEL = 'model_checking'
RULE = (
    'Every measurement of the registry of C14 in two threads, on two observations and on one '
    'shared observation, and every pair of measurements that share caches, under a controlled '
    'scheduler: every schedule with one preemption at a line of the ngmix python code (first '
    'visits of each line up to a bound), every schedule with two preemptions at function '
    'entries, in both orders, with caches on, off, empty and filled.  Each result is compared '
    'with that of the measurement running alone, inputs with what they were.'
)
ASSUMPTIONS = [
    'each thread has its own fitter, prior and random state; observations may be shared',
    'compiled functions do not release the interpreter lock, so they are atomic',
    'preemption inside galsim, scipy and numpy is not explored',
]
CHUNK = 1
CASE_TIMEOUT = 600

TOOL = 4
MON = sys.monitoring
EV = MON.events


def codes():
    """all code objects of the python code of ngmix"""
    out = []
    seen = set()

    def add(c):
        if c in seen or '/ngmix/' not in c.co_filename or '/tests/' in c.co_filename:
            return
        seen.add(c)
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    def obj(x, depth=0):
        x = getattr(x, '__wrapped__', x)
        if isinstance(x, (staticmethod, classmethod)):
            x = x.__func__
        if isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                if f is not None:
                    obj(f)
        elif isinstance(x, types.FunctionType):
            add(x.__code__)
            while hasattr(x, '__wrapped__'):
                x = x.__wrapped__
                if isinstance(x, types.FunctionType):
                    add(x.__code__)
        elif isinstance(x, type) and depth == 0 and str(getattr(x, '__module__', '')).startswith('ngmix'):
            for v in vars(x).values():
                obj(v, 1)

    for name, mod in sorted(sys.modules.items()):
        if mod is None or not (name == 'ngmix' or name.startswith('ngmix.')) or '.tests' in name:
            continue
        for v in list(vars(mod).values()):
            obj(v)
    return out


CURRENT = [None]
INSTALLED = [None]


def monitor(code, key):
    s = CURRENT[0]
    if s is not None:
        s.point(code, key)


def install(level):
    """preemption points at lines or at function entries, for this process"""
    if INSTALLED[0] == level:
        return
    if INSTALLED[0] is None:
        MON.use_tool_id(TOOL, 'verif')
    for ev in (EV.LINE, EV.PY_START):
        MON.register_callback(TOOL, ev, monitor)
    for c in codes():
        MON.set_local_events(TOOL, c, EV.LINE if level == 'line' else EV.PY_START)
    INSTALLED[0] = level


class Sched(object):
    """runs two functions in two threads, handing over at the given points"""

    def __init__(self, fns, order, plan, level, maxvisit):
        # plan: {(thread, number of the point): True}
        self.fns, self.order, self.plan = fns, order, plan
        self.level, self.maxvisit = level, maxvisit
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.count = [0, 0]
        self.visits = [{}, {}]
        self.out = [None, None]
        self.err = [None, None]
        self.switched = 0
        self.who = {}
        self.where = {}

    def point(self, code, key):
        w = self.who.get(threading.get_ident())
        if w is None:
            return
        v = self.visits[w]
        n = v.get((code, key), 0)
        v[(code, key)] = n + 1
        if n >= self.maxvisit:
            return
        i = self.count[w]
        self.count[w] = i + 1
        if (w, i) in self.plan:
            o = 1 - w
            if not self.done[o]:
                self.switched += 1
                self.where[(w, i)] = '%s:%d' % (code.co_name, key)
                self.sem[o].release()
                # a lock held by this thread would block the other one: go on
                self.sem[w].acquire(timeout=3.0)

    def body(self, w):
        self.sem[w].acquire()
        self.who[threading.get_ident()] = w
        try:
            self.out[w] = self.fns[w]()
        except BaseException as err:
            self.err[w] = err
        self.who.pop(threading.get_ident(), None)
        self.done[w] = True
        self.sem[1 - w].release()

    def run(self):
        install(self.level)
        CURRENT[0] = self
        try:
            ts = [threading.Thread(target=self.body, args=(w,), daemon=True) for w in (0, 1)]
            for t in ts:
                t.start()
            self.sem[self.order].release()
            for t in ts:
                t.join(200)
            if any(t.is_alive() for t in ts):
                raise RuntimeError('scheduler: the threads did not end')
        finally:
            CURRENT[0] = None
        for e in self.err:
            if e is not None:
                raise e
        return self.out


INP = {}


def inputs(name, k, slot):
    key = (k, slot)
    if key not in INP:
        INP[key] = Inputs().get(k)
    return INP[key]


def task(name, obs, k):
    if name.startswith('cache-'):
        return toggle(name == 'cache-on')
    e = REG[name]
    rng = np.random.RandomState(3)
    o = e.make(rng)
    args = e.args(k)
    rng.seed(11)

    def f():
        return c14.call(e, o, obs, args)[1]
    return f


def caches(state):
    """all caches off, on (kept) or on and empty"""
    mm, pm = ngmix.metacal.metacal, ngmix.prepsfmom
    if state in ('off', 'clear'):
        mm.turn_off_galsim_caching()
        pm.turn_off_fft_caching()
        pm.turn_off_kernel_caching()
    if state in ('on', 'clear'):
        mm.turn_on_galsim_caching()
        pm.turn_on_fft_caching()
        pm.turn_on_kernel_caching()


def toggle(on):
    def f():
        for i in range(2):
            caches('on' if on else 'off')
            caches('off' if on else 'on')
            caches('on' if on else 'off')
        return 'toggled'
    return f


def k_pair(case, rec):
    (n1, k1), (n2, k2) = case['pair']
    shared = case['shared']
    level, mv = case['level'], case['mv']
    names, ks = (n1, n2), (k1, k2)
    if shared:
        obs = [inputs(n1, k1, 's')] * 2
    else:
        obs = [inputs(n1, k1, 0), inputs(n2, k2, 1)]
    before = [snap(o) for o in obs]
    refs = [('value', 'toggled') if n.startswith('cache-') else c14.reference(n, k) for n, k in zip(names, ks)]

    effects = any(n in REG and REG[n].effects for n in names)

    def schedule(order, plan):
        use = [Inputs().get(k) for k in ks] if effects else obs
        s = Sched([task(n, o, k) for n, o, k in zip(names, use, ks)], order, plan, level, mv)
        out = s.run()
        rec.trans(1 + s.switched)
        rec.eval(2)
        for w in (0, 1):
            d = None if names[w].startswith('cache-') else eq(out[w], refs[w])
            if d:
                rec.fail('thread:%s' % names[w], '%s on %s with %s on %s in another thread%s, switching at %s (first: %d): %s' % (
                    names[w], ks[w], names[1 - w], ks[1 - w], ', same observation' if shared else '',
                    sorted(s.where.items()), order, d))
                return None
        return s
    st = case.get('cache')
    try:
        if st:
            caches(st)
        base = schedule(0, {})
        if base is None:
            return
        base2 = schedule(1, {})
        if base2 is None:
            return
        n = [max(a, b) for a, b in zip(base.count, base2.count)]
        rec.outcome((n1, n2, level))
        plans = []
        lo, hi = case.get('part', (0, 1))
        for w in case.get('first', (0, 1)):
            for i in range(n[w]):
                if case['bound'] == 1:
                    plans.append((w, {(w, i): True}))
                else:
                    for j in range(n[1 - w]):
                        plans.append((w, {(w, i): True, (1 - w, j): True}))
        for q, (w, plan) in enumerate(plans):
            if q % hi != lo:
                continue
            if st and (st == 'clear' or 'cache-' in n1 + n2):
                caches(st)
            s = schedule(w, plan)
            rec.trace()
            if s is None:
                return
            rec.state(fp(n1, k1, n2, k2, shared, st, w, sorted(s.where.items())))
    finally:
        if st:
            caches('off')
    for o, b in zip(obs, before):
        d = D.diff(snap(o), b)
        if d:
            rec.fail('input', '%s and %s modified their input: %s' % (n1, n2, d))


KINDS = dict(pair=k_pair)


def warmup():
    c14.warmup()


CACHED = ('metacal', 'metacal-noise', 'pgauss', 'ksigma')
HEAVY = ('metacal', 'metacal-noise', 'galsim-spergel', 'galsim-moffat', 'galsim-mb', 'boot')
# the others run the same python code as one of these
LINES = ('fit-gauss', 'fit-coellip', 'psfflux', 'tflux', 'galsim-kobs', 'galsim-psfflux', 'em', 'em-fluxonly',
         'admom-T', 'find_cen', 'gaussmom', 'pgauss', 'ksigma', 'wmom', 'g-tpsffluxprior', 'g-bdf', 'g-pars', 'g-prior',
         'g-gmixpsf31', 'g-coellippsf', 'sim', 'make_kobs', 'gaussap')
TWO = ('gaussmom', 'wmom', 'g-tflux', 'g-pars', 'g-bd', 'gaussap', 'g-gmixpsf10')


def cases(tier):
    th = tier == 'thorough'

    def split(n, **k):
        for i in range(n):
            yield 'pair', dict(k, part=[i, n])
    for n, e in REG.items():
        ins = [k for k in e.inputs if k in ('A', 'B', 'KA', 'KB')]
        a, b = (n, ins[0]), (n, ins[-1])
        line = n in LINES or (th and n not in HEAVY)
        lv = 'line' if line or th else 'call'
        parts = 4 if n in HEAVY or line and n.startswith(('fit', 'galsim', 'runner')) else 2
        if th or not n.startswith('metacal'):
            for c in split(parts * (4 if th else 1), pair=[a, b], shared=False, level=lv, mv=2 if th else 1, bound=1,
                           first=[0, 1] if th or not (line or n in HEAVY) else [0]):
                yield c
        if not e.effects and (th or n != 'metacal'):
            for c in split(parts, pair=[a, a], shared=True, level='line' if th else 'call', mv=1, bound=1, first=[0]):
                yield c
        if n in TWO or (th and n not in HEAVY):
            for c in split(16 if th else 2, pair=[a, b], shared=False, level='call', mv=1, bound=2, first=[0]):
                yield c
    for n in CACHED:
        k = REG[n].inputs[0]
        k2 = REG[n].inputs[1]
        m = 'metacal-noise' if n == 'metacal' else 'metacal' if 'metacal' in n else 'ksigma' if n == 'pgauss' else 'pgauss'
        lv = 'call' if 'metacal' in n and not th else 'line'
        for st in ('on', 'clear'):
            # the same data (one cache entry), other data, the other measurement
            for other, sh in (((n, k), True), ((n, k2), False), ((m, k), True)):
                if not th and 'metacal' in n and (other[0] != n or sh is False or n == 'metacal-noise' or st == 'on'):
                    continue
                for c in split(4, pair=[(n, k), other], shared=sh, level=lv, mv=1, bound=1, cache=st, first=[0]):
                    yield c
        for tg in ('cache-on', 'cache-off'):
            st = 'off' if tg == 'cache-on' else 'clear'
            for c in split(4, pair=[(n, k), (tg, k)], shared=True, level=lv, mv=1, bound=1, cache=st, first=[0, 1]):
                yield c
            if 'metacal' not in n or th:
                for c in split(4, pair=[(n, k), (tg, k)], shared=True, level='call', mv=1, bound=2, cache=st, first=[0, 1]):
                    yield c
    names = [n for n in REG if n not in HEAVY and not REG[n].effects and 'A' in REG[n].inputs]
    for a, b in itertools.combinations(names, 2):
        if th and not (a.startswith('g-') and b.startswith('g-')):
            yield 'pair', dict(pair=[(a, 'A'), (b, 'A')], shared=True, level='call', mv=1, bound=1, first=[0, 1])
