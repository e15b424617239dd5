import argparse
import importlib
import json
import math
import os
import subprocess
import sys
import time
import traceback

import logging

from vp import core

logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    importlib.import_module('checks.' + prop)
    return core.REGISTRY.get(prop, [])


def known_findings(prop):
    """Lines 'known: property=<id> <what fails>' of KNOWN_FINDINGS.txt.  The
    file only drives the KNOWN-FINDING lines; what is excluded from the search
    is the specific input written down in the sub-check itself."""
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                pre = 'known: property=%s ' % prop
                if line.startswith(pre):
                    out.append(line[len(pre):].strip())
    except FileNotFoundError:
        pass
    return out


def write_replay(prop, s, rec):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, s.name))
    case, exc, tb = rec
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': s.name, 'case': repr(case),
                   'error': '%s: %s' % (type(exc).__name__, exc),
                   'traceback': tb.splitlines()[-40:]}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    subs = load(d['property'])
    case = eval(d['case'], {'nan': math.nan, 'inf': math.inf,
                            '__builtins__': {'frozenset': frozenset,
                                             'set': set}})
    for s in subs:
        if s.name == d['sub']:
            try:
                core.run_case(s, case)
            except (Exception, core.Hang) as e:
                traceback.print_exc()
                if core.classify(e):
                    print('VIOLATION property=%s replay=%s' % (
                        d['property'], path))
                    return 1
                return 2
            print('replay passes')
            return 0
    print('no such sub-check', d['sub'])
    return 2


def short(case):
    r = repr(case)
    return r if len(r) <= 1500 else r[:1500] + '...'


def one_sub(args):
    """Worker mode (thorough): run one sub-check, report as JSON."""
    subs = [s for s in load(args.property) if s.name == args.sub]
    s = subs[0]
    n = args.n or (s.quick if args.tier == 'quick' else s.thorough)
    st = core.run_sub(s, n, args.seed)
    return s, st


def summarise(s, st):
    return {'name': s.name, 'evaluations': st.evaluations,
            'nontrivial': len(st.seen), 'labels': st.labels,
            'samples': [short(c) for c in st.samples],
            'keys': sorted(k.hex() for k in st.seen)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--sub')
    ap.add_argument('--n', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)

    t0 = time.time()
    prop = args.property
    subs = load(prop)
    if not subs:
        print('no checks for', prop)
        return 2
    todo = [s for s in subs if args.sub in (None, s.name)]

    results, bad, err = [], [], []
    if args.tier == 'thorough' and not args.out:
        # one worker process per (sub-check, shard)
        results, bad, err = thorough(prop, todo, args)
    else:
        for s in todo:
            n = args.n or (s.quick if args.tier == 'quick' else s.thorough)
            t1 = time.time()
            st = core.run_sub(s, n, args.seed)
            r = summarise(s, st)
            r['wall_s'] = round(time.time() - t1, 2)
            results.append(r)
            if st.error is not None and st.fail is None:
                err.append((s.name, st.error[2]))
            elif st.fail is not None:
                rec = st.fail
                path = write_replay(prop, s, rec)
                bad.append((s.name, path, '%s: %s' % (
                    type(rec[1]).__name__, str(rec[1])[:600]), short(rec[0])))
                break

    if args.out:
        with open(args.out, 'w') as f:
            json.dump({'results': results, 'bad': bad, 'err': err}, f)
        return 0

    finds = known_findings(prop)
    for k in finds:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))

    ev = {
        'property': prop, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['nontrivial'] for r in results),
            'rule': ' || '.join('%s: %s' % (s.name, s.rule) for s in todo),
            'samples': [{'sub': r['name'], 'case': c}
                        for r in results for c in r['samples'][:2]],
            'by_subcheck': [{k: v for k, v in r.items() if k != 'keys'}
                            for r in results],
        },
        'assumptions': [
            'random search: absence of a counterexample is not a proof',
            'code imported from the working tree of %s, run by '
            '/opt/venv/bin/python' % core.REPO,
        ],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if args.sub is None:
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', '%s.json' % prop))

    for r in results:
        print('%-28s evaluations=%d nontrivial=%d %.1fs labels=%s' % (
            r['name'], r['evaluations'], r['nontrivial'],
            r.get('wall_s', 0),
            json.dumps(dict(sorted(r['labels'].items())))))
    for name, path, msg, case in bad:
        print('FAILED %s: %s' % (name, msg))
        print('  minimal case: %s' % case)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if bad:
        return 1
    if err:
        for name, tb in err:
            print('HARNESS ERROR in %s\n%s' % (name, tb))
        return 2
    print('OK property=%s evaluations=%d nontrivial=%d wall=%.1fs' % (
        prop, ev['coverage']['evaluations'],
        ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0


def thorough(prop, todo, args):
    import tempfile
    import shutil
    tmpd = tempfile.mkdtemp(prefix='vp-thorough-')
    try:
        work = []
        shards = 4
        for s in todo:
            n = max(1, s.thorough // shards)
            for k in range(shards):
                work.append((s, n, args.seed * 1000 + k))
        procs, merged, bad, err = [], {}, [], []
        i = 0
        while i < len(work) or procs:
            while i < len(work) and len(procs) < args.jobs and not bad:
                s, n, sd = work[i]
                out = os.path.join(tmpd, '%d.json' % i)
                p = subprocess.Popen(
                    [sys.executable, '-W', 'ignore', '-m', 'vp.main', prop,
                     '--sub', s.name, '--n', str(n), '--seed', str(sd),
                     '--tier', 'thorough', '--out', out],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                procs.append((p, s, out))
                i += 1
            if bad:
                i = len(work)
            still = []
            for p, s, out in procs:
                if p.poll() is None:
                    still.append((p, s, out))
                    continue
                txt = p.stdout.read().decode('utf-8', 'replace')
                if not os.path.exists(out):
                    err.append((s.name, txt))
                    continue
                d = json.load(open(out))
                bad.extend(d['bad'])
                err.extend(d['err'])
                for r in d['results']:
                    m = merged.setdefault(r['name'], {
                        'name': r['name'], 'evaluations': 0, 'nontrivial': 0,
                        'labels': {}, 'samples': [], 'keys': set()})
                    m['evaluations'] += r['evaluations']
                    m['keys'].update(r['keys'])
                    m['nontrivial'] = len(m['keys'])
                    m['samples'] = (m['samples'] + r['samples'])[:4]
                    for k, v in r['labels'].items():
                        m['labels'][k] = m['labels'].get(k, 0) + v
            procs = still
            time.sleep(0.1)
        return list(merged.values()), bad, err
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
