"""
Runs one check.  Cases are enumerated in forked workers; the parent turns
crashes and hangs of the code under test into violations too.
"""
import argparse
import glob
import importlib
import json
import mmap
import multiprocessing as mp
import multiprocessing.connection
import os
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# development only: where evidence and replays of planted bugs go
OUT = os.environ.get('VERIF_DEV_OUT', HERE)
sys.path.insert(0, HERE)
from mc import core  # noqa

NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 1)
# development only: how many failures of a worker end the run early
STOP = int(os.environ.get('VERIF_DEV_STOP', '60'))
TOTAL = {'quick': 800, 'thorough': 10800}


def write_replay(pid, n, f):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as fo:
        json.dump(dict(property=pid, kind=f['kind'], case=core.jsonable(f['case']),
                       sig=f['sig'], msg=f['msg'],
                       how='./check %s --replay %s' % (pid, path)), fo, indent=1)
    return path


def worker(mod, wid, conn, shm):
    """takes chunks of case indices from the supervisor"""
    cases = mod._CASES
    rec = core.Rec()
    known = core.load_known(mod.__name__.split('.')[-1].upper())
    try:
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            for i in chunk:
                shm[wid * 8:wid * 8 + 8] = struct.pack('q', i)
                kind, case = cases[i]
                core.run_case(mod, kind, case, rec)
            shm[wid * 8:wid * 8 + 8] = struct.pack('q', -1)
            conn.send(sum(core.match_known(known, f) is None for f in rec.fails))
        conn.send(rec)
    except EOFError:
        pass
    except BaseException:
        traceback.print_exc()
        os._exit(3)
    os._exit(0)


def supervise(pid, tier):
    """run all cases; returns module, Rec"""
    mod = importlib.import_module('mc.props.%s' % pid.lower())
    if hasattr(mod, 'warmup'):
        try:
            mod.warmup()
        except Exception:
            # whatever is wrong will show in the cases
            pass
    # canonical JSON form, so that a replayed case is the same case
    cases = [(k, json.loads(json.dumps(c))) for k, c in mod.cases(tier)]
    mod._CASES = cases
    n = len(cases)
    total = core.Rec()
    deadline = time.time() + TOTAL[tier]
    nw = min(NPROC, max(1, n))
    shm = mmap.mmap(-1, 8 * nw)
    for w in range(nw):
        shm[w * 8:w * 8 + 8] = struct.pack('q', -1)
    ctx = mp.get_context('fork')
    chunk = max(1, min(getattr(mod, 'CHUNK', 64), n // (nw * 4) or 1))
    todo = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
    todo.reverse()
    live = {}
    sys.stdout.flush()
    for w in range(nw):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(mod, w, b, shm))
        p.start()
        b.close()
        live[a] = (w, p)
        a.send(todo.pop() if todo else None)
    stop = False
    ended_early = False

    def current(w):
        return struct.unpack('q', shm[w * 8:w * 8 + 8])[0]

    def dead(c, sig, msg):
        w, p = live.pop(c)
        i = current(w)
        kind, case = cases[i] if i >= 0 else (None, None)
        total.fails.append(dict(sig=sig, kind=kind, case=case, msg=msg))

    while live:
        for c in mp.connection.wait(list(live), timeout=5):
            w, p = live[c]
            try:
                msg = c.recv()
            except (EOFError, ConnectionResetError):
                p.join(5)
                dead(c, 'crash', 'the process died (exit code %s)' % p.exitcode)
                stop = True
                continue
            if isinstance(msg, int):
                if msg >= STOP:
                    stop = True
                c.send(todo.pop() if todo and not stop else None)
            else:
                total.merge(msg)
                del live[c]
        if time.time() > deadline and live:
            ended_early = True
            for c, (w, p) in list(live.items()):
                if todo:
                    # simply not finished: say so, it is no verdict
                    total.cap('time limit: stopped with cases left')
                    live.pop(c)
                else:
                    dead(c, 'hang', 'the code did not return')
                p.kill()
            break
    total.ncases = n
    total.left = sum(len(t) for t in todo)
    total.ended_early = ended_early
    return mod, total


def report(pid, tier, seed, mod, rec, wall):
    known = core.load_known(pid)
    viol, kn = [], {}
    for f in rec.fails:
        e = core.match_known(known, f)
        if e is not None:
            kn.setdefault(e['id'], (e, f))
        else:
            viol.append(f)
    # smallest case first, one per signature
    viol.sort(key=lambda f: (len(json.dumps(core.jsonable(f['case']))), f['sig']))
    seen = set()
    out = []
    for f in viol:
        if f['sig'] not in seen:
            seen.add(f['sig'])
            out.append(f)
    for fname in glob.glob(os.path.join(OUT, 'replays', '%s-*.json' % pid)):
        os.unlink(fname)
    for i, f in enumerate(out[:core.MAX_REPORT]):
        path = write_replay(pid, i, f)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s' % (f['sig'], f['msg'][:900]))
    for e, f in kn.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    exhaustive = not (rec.caps or rec.ended_early or rec.left)
    cov = dict(
        states=len(rec.states), transitions=rec.ntrans,
        traces_validated_against_impl=rec.ntrace,
        evaluations=rec.neval,
        distinct_nontrivial=len(rec.states),
        rule=mod.RULE,
        samples=core.jsonable(rec.samples[:6]) or [core.jsonable(c) for c in mod._CASES[:3]],
        cases=rec.ncases,
        cases_by_kind=dict(rec.groups),
        distinct_outcomes=len(rec.outcomes),
        outcomes=dict(sorted(rec.outcomes.items(), key=lambda x: -x[1])[:40]),
        exhaustive=exhaustive,
        caps=sorted(set(rec.caps)),
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(viol),
              known_findings=sorted(kn))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: cases=%d %s states=%d transitions=%d traces=%d evals=%d outcomes=%d '
          'violations=%d known=%d wall=%.1fs%s' % (
              pid, tier, rec.ncases, dict(rec.groups), len(rec.states), rec.ntrans,
              rec.ntrace, rec.neval, len(rec.outcomes), len(viol), len(kn), wall,
              '' if exhaustive else ' CAPPED'))
    return 1 if viol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    args = ap.parse_args()
    pid = args.id
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args.replay:
        with open(args.replay) as f:
            r = json.load(f)
        mod = importlib.import_module('mc.props.%s' % pid.lower())
        rec = core.Rec()
        core.run_case(mod, r['kind'], r['case'], rec)
        for f in rec.fails:
            print('FAIL %s: %s' % (f['sig'], f['msg']))
        print('replayed: %d failure(s)' % len(rec.fails))
        return 1 if rec.fails else 0
    t0 = time.time()
    mod, rec = supervise(pid, args.tier)
    return report(pid, args.tier, seed, mod, rec, time.time() - t0)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
