"""
Common machinery of the checks.

A property module (mc/props/cNN.py) provides

  LEVEL       evidence level
  RULE        one paragraph: alphabet, bound, oracle
  ASSUMPTIONS list of strings
  KINDS       dict kind -> function(case, rec)
  cases(tier) generator of (kind, case); the cases are JSON-able and form the
              finite space that is enumerated completely

The function of a kind executes the real code for that case and compares it
with the reference model.  It reports through `rec`:

  rec.fail(sig, msg, case=None, kind=None)   property broken
  rec.state(fingerprint)                     a state was visited
  rec.trans(n=1)                             n operations executed on the code
  rec.trace(n=1)                             n histories run on the code and
                                             compared with the model
  rec.outcome(x)                             an observed outcome class
  rec.eval(n=1)                              n evaluations of the oracle

A failing case is written to replays/ and can be run alone with
  ./check <ID> --replay <path>
"""
import collections
import contextlib
import hashlib
import itertools
import json
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.json')

CASE_TIMEOUT = 120      # s for one case, python-level alarm
MAX_REPORT = 12


class CaseTimeout(Exception):
    pass


def fp(*items):
    """stable fingerprint of (nested) python/numpy data"""
    h = hashlib.blake2b(digest_size=12)
    for it in items:
        _fp(it, h)
    return h.hexdigest()


def _fp(x, h):
    import numpy as np
    if x is None or isinstance(x, (bool, int, str, bytes, float)):
        h.update(repr(x).encode())
    elif isinstance(x, np.ndarray):
        h.update(str(x.dtype).encode())
        h.update(str(x.shape).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
        h.update(str(x.dtype).encode())
        h.update(x.tobytes())
    elif isinstance(x, dict):
        h.update(b'{')
        for k in sorted(x, key=repr):
            _fp(k, h)
            _fp(x[k], h)
        h.update(b'}')
    elif hasattr(x, '__wrapped__') or callable(x):
        h.update(getattr(x, '__qualname__', type(x).__name__).encode())
    elif hasattr(x, '__dict__') and not isinstance(x, type):
        h.update(type(x).__name__.encode())
        _fp(dict(vars(x)), h)
        if isinstance(x, list):
            _fp(list(x), h)
    elif isinstance(x, (list, tuple)):
        h.update(b'[')
        for y in x:
            _fp(y, h)
        h.update(b']')
    elif isinstance(x, (set, frozenset)):
        _fp(sorted(x, key=repr), h)
    else:
        h.update(repr(x).encode())


class Rec(object):
    """what one or more cases covered and found"""

    def __init__(self):
        self.states = set()
        self.ntrans = 0
        self.ntrace = 0
        self.neval = 0
        self.outcomes = collections.Counter()
        self.fails = []
        self.samples = []
        self.groups = collections.Counter()
        self.caps = []
        self.kind = None
        self.case = None

    def fail(self, sig, msg, case=None, kind=None):
        if len(self.fails) < 200:
            self.fails.append(dict(
                sig=str(sig), msg=str(msg)[:2000],
                kind=kind or self.kind,
                case=self.case if case is None else case,
            ))

    def state(self, *x):
        if len(x) == 1 and isinstance(x[0], str):
            self.states.add(x[0])
        else:
            self.states.add(fp(*x))

    def trans(self, n=1):
        self.ntrans += n

    def trace(self, n=1):
        self.ntrace += n

    def eval(self, n=1):
        self.neval += n

    def outcome(self, x):
        self.outcomes[str(x)] += 1

    def group(self, name, n=1):
        self.groups[name] += n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def cap(self, what):
        self.caps.append(what)

    def merge(self, o):
        self.states |= o.states
        self.ntrans += o.ntrans
        self.ntrace += o.ntrace
        self.neval += o.neval
        self.outcomes.update(o.outcomes)
        self.groups.update(o.groups)
        self.fails += o.fails
        if len(self.samples) < 12:
            self.samples += o.samples[:2]
        self.caps += o.caps


def run_case(mod, kind, case, rec):
    """run one case; an unexpected exception of the code is a failure"""
    rec.kind, rec.case = kind, case
    tmo = getattr(mod, 'CASE_TIMEOUT', CASE_TIMEOUT)

    def onalarm(signum, frame):
        raise CaseTimeout('case did not finish in %d s' % tmo)

    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(tmo)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.KINDS[kind](case, rec)
    except CaseTimeout as err:
        rec.fail('hang', str(err))
    except Exception as err:
        tb = traceback.format_exc().strip().split('\n')
        rec.fail('unexpected-exception:%s' % type(err).__name__,
                 'unexpected %s: %s | %s' % (type(err).__name__, err,
                                             ' / '.join(tb[-7:])))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    rec.group(kind)


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for e in json.load(f)['findings']:
                if e['property'] == pid and e['status'] == 'known':
                    out.append(e)
    return out


def match_known(known, f):
    for e in known:
        if e['sig'] == f['sig'] and ('case' not in e or e['case'] == f['case']):
            return e
    return None


# ---------------------------------------------------------------------------
# helpers for the property modules


def sequences(alphabet, depth, min_depth=1):
    """all sequences over the alphabet, shortest first"""
    for d in range(min_depth, depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            yield list(s)


def bfs(ops, depth, build, rec, canon, check, prefix=()):
    """
    Breadth first search over operation histories of a real object.

    build(trace) makes a fresh (impl, model) and replays the trace on both;
    check(pair, trace) compares and returns True if they agree; canon(pair)
    is the key for merging.  A history is extended only if its state is new.
    """
    seen = set()
    frontier = collections.deque([list(prefix)])
    first = True
    while frontier:
        hist = frontier.popleft()
        pair = build(hist)
        ok = check(pair, hist)
        rec.trace()
        rec.trans(max(1, len(hist)))
        k = canon(pair)
        if k in seen and not first:
            continue
        first = False
        seen.add(k)
        rec.state(k)
        if not ok or len(hist) >= depth:
            continue
        for op in ops:
            frontier.append(hist + [op])
    return len(seen)


@contextlib.contextmanager
def quiet():
    """send what C or python code prints to stdout to /dev/null"""
    with open(os.devnull, 'w') as f:
        sys.stdout.flush()
        old = os.dup(1)
        try:
            os.dup2(f.fileno(), 1)
            yield
        finally:
            sys.stdout.flush()
            os.dup2(old, 1)
            os.close(old)


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)
