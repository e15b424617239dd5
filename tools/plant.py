#!/usr/bin/env python3
"""Turn bug specs into /verif/seeded/<id>/ and run the checks against them.

usage: plant.py SPEC.py [ID ...]    (SPEC.py defines PLANTS, a list of dicts:
  id, property, needs, breaks, edits=[(file, old, new)], demo=python text)
Also: plant.py --recheck [ID ...]   run the check against existing plants.
/repo must be clean; it is restored afterwards.  Appends to
tools/plant_results.json.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# another working copy of the same commit may be used (a vcheck running, say)
REPO = os.environ.get('PLANT_REPO', '/repo')
DEMO = '''#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH="$PWD" TZ=UTC
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    r = sh('git -C %s status --porcelain' % REPO)
    assert not r.stdout.strip(), r.stdout


def restore():
    sh('git -C %s checkout -- .' % REPO)


def stable():
    out = '/tmp/rt-plant-%d.json' % os.getpid()
    if REPO == '/repo':
        sh('bash /opt/vp/test.sh ' + out)
    else:
        t = open('/opt/vp/test.sh').read()
        t = t.replace('=/repo', '=' + REPO).replace('cd /repo', 'cd ' + REPO)
        t = t.replace('/opt/vp/work', out + '.d')
        sh('bash -s %s' % out, input=t)
    b = json.load(open('/opt/vp/BASELINE.json'))
    r = json.load(open(out))
    sh('rm -rf %s %s.d' % (out, out))

    def passed(d):
        for k in ('passed', 'stable', 'pass', 'tests'):
            if k in d:
                return set(d[k])
    return sorted(passed(b) - passed(r))


def run_check(prop, seed=1):
    r = sh('VP_REPO=%s VERIF_SEED=%d ./check.sh %s --tier quick' % (
        REPO, seed, prop), cwd=HERE)
    ok = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
    how = [l for l in r.stdout.splitlines() if l.startswith('FAILED')]
    return ok, (how[0][:160] if how else 'rc=%d %s' % (
        r.returncode, r.stdout[-300:] if r.returncode not in (0, 1) else ''))


def record(pid, prop, caught, how):
    p = os.path.join(HERE, 'tools', 'plant_results.json')
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[pid] = {'property': prop, 'caught': caught, 'how': how}
    json.dump(d, open(p, 'w'), indent=1, sort_keys=True)


def main():
    args = sys.argv[1:]
    clean()
    if args[0] == '--recheck':
        ids = args[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
        for pid in ids:
            d = os.path.join(HERE, 'seeded', pid)
            prop = json.load(open(os.path.join(d, 'meta.json')))['property']
            r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
            if r.returncode:
                print(pid, 'DOES NOT APPLY', r.stdout)
                continue
            try:
                ok, how = run_check(prop)
            finally:
                restore()
            record(pid, prop, ok, how)
            print(pid, prop, 'CAUGHT' if ok else 'MISSED', how)
        return
    ns = {}
    exec(open(args[0]).read(), ns)
    for p in ns['PLANTS']:
        if args[1:] and p['id'] not in args[1:]:
            continue
        d = os.path.join(HERE, 'seeded', p['id'])
        if os.path.exists(d) and not args[1:]:
            continue
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(p['demo'])
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/meta.json', 'w') as f:
            json.dump({'property': p['property'], 'needs': p['needs'],
                       'what_it_breaks': p['breaks']}, f, indent=1)
        bad = []
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode:
            bad.append('demo fails on clean tree: ' + r.stdout[-500:])
        try:
            for fn, old, new in p['edits']:
                q = os.path.join(REPO, fn)
                s = open(q).read()
                assert s.count(old) == 1, (p['id'], fn, old, s.count(old))
                open(q, 'w').write(s.replace(old, new))
            with open(d + '/patch.diff', 'w') as f:
                f.write(sh('git -C %s diff' % REPO).stdout)
            r = sh('bash %s/demo.sh' % d, cwd=REPO)
            if not r.returncode:
                bad.append('demo passes with the bug')
            b = stable()
            if b:
                bad.append('tests broken: %s' % b)
            ok, how = (None, '') if bad else run_check(p['property'])
        finally:
            restore()
        if bad:
            print(p['id'], 'BAD', bad)
            sh('rm -rf %s' % d)
            continue
        record(p['id'], p['property'], ok, how)
        print(p['id'], p['property'], 'CAUGHT' if ok else 'MISSED', how, flush=True)
    clean()


main()
