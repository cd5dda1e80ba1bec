#!/usr/bin/env python3
"""
Development tool: build and confirm a planted bug in a scratch copy of /repo.

  tools/plant.py ID [--notest] [--nocheck] [--check C01,C02]

reads tools/plants/ID.py, which defines
  PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (python source)
writes seeded/ID/{patch.diff,demo.sh,demo.py,meta.json} and prints whether the
demonstration, the test suite and the checks behave as they should.
"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d, PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    out = os.path.join(d, '_junit')
    os.makedirs(out)
    py = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
          '--continue-on-collection-errors', '-o', 'junit_family=xunit2']
    timed = ['ngmix/tests/test_fastexp.py', 'ngmix/tests/test_metacal_cache.py']
    for i, t in enumerate(timed):
        sh(py + ['--junitxml=%s/t%d.xml' % (out, i), t], cwd=d, env=env)
    sh(py + ['-n', '8', '--dist', 'worksteal', '--junitxml=%s/rest.xml' % out] +
       ['--ignore=' + t for t in timed] + ['--ignore=ngmix/tests/test_medsreaders.py', 'ngmix'], cwd=d, env=env)
    r = sh(['python3', '/opt/vp/results.py', d + '/_out.json', 'junit:%s/*.xml' % out])
    o = json.load(open(d + '/_out.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    p = set(o['passed'])
    return [t for t in b['stable'] if t not in p]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='+')
    ap.add_argument('--notest', action='store_true')
    ap.add_argument('--nocheck', action='store_true')
    ap.add_argument('--check')
    a = ap.parse_args()
    for i in a.ids:
        one(i, a)


def one(pid, a):
    ns = {}
    exec(open(os.path.join(HERE, 'tools', 'plants', pid + '.py')).read(), ns)
    d = os.path.join('/tmp/plant', pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh(['cp', '-a', '/repo', d])
    try:
        for f, old, new in ns['EDITS']:
            s = open(os.path.join(d, f)).read()
            assert s.count(old) == 1, (pid, f, s.count(old), old)
            open(os.path.join(d, f), 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=d).stdout
        out = os.path.join(HERE, 'seeded', pid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip())
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']),
                  open(out + '/meta.json', 'w'), indent=1)
        msg = [pid]
        r = sh(['bash', out + '/demo.sh'], cwd='/repo')
        msg.append('demo clean %d' % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        r = sh(['bash', out + '/demo.sh'], cwd=d)
        msg.append('demo bug %d (%s)' % (r.returncode, r.stdout.strip().split('\n')[-1][:150]))
        if not a.nocheck:
            for c in (a.check or ns['PROPERTY']).split(','):
                env = dict(os.environ, VERIF_DEV_REPO=d, VERIF_DEV_OUT=d + '/_vout')
                r = sh([HERE + '/check', c], env=env)
                lines = [x for x in r.stdout.split('\n') if x.strip()]
                v = [i for i, x in enumerate(lines) if x.startswith('VIOLATION')]
                msg.append('%s rc=%d %s' % (c, r.returncode, lines[v[0] + 1].strip()[:200] if v else lines[-1:]))
        if not a.notest:
            m = tests(d)
            msg.append('tests missing %d %s' % (len(m), m[:4]))
        print(' | '.join(msg), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
