#!/usr/bin/env python
"""Usage: check.py PID [--replay FILE] | check.py PID --sub NAME --out FILE   (internal worker mode)

Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_OUT', VERIF)  # only set by tools/mutate.py
sys.path.insert(0, os.path.join(VERIF, 'vendor'))
sys.path.insert(0, VERIF)


def load(pid):
    return importlib.import_module(f'props.{pid.lower()}')


def known_findings(pid):
    """finding: property=P01 sub=<sub> tag=<tag> <what fails>"""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                parts = line.split(None, 4)
                kv = dict(p.split('=', 1) for p in parts[1:4])
                if kv['property'] == pid:
                    out[(kv['sub'], kv['tag'])] = parts[4].strip()
    return out


def worker(pid, sub_name, out, tier, seed):
    from lib import pbt
    mod = load(pid)
    sub, = [s for s in mod.SUBS if s.name == sub_name]
    res = pbt.run_sub(pid, sub, tier, seed, known=set(known_findings(pid)))
    with open(out, 'w') as f:
        f.write(pbt.dumps(res))


def replay(pid, path):
    from lib import pbt
    data = json.load(open(path))
    mod = load(pid)
    sub, = [s for s in mod.SUBS if s.name == data['sub']]
    if sub.setup:
        sub.setup()
    try:
        pbt.execute(sub, data['case'])
    except pbt.Violation as e:
        print(f'{e}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    print(f'replay of {path}: property {pid} holds on this case')
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--out')
    ap.add_argument('--only', help='comma separated subs (debugging)')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    args = ap.parse_args()
    pid = args.pid.upper()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'

    if args.replay:
        return replay(pid, args.replay)
    if args.sub:
        worker(pid, args.sub, args.out, tier, args.seed)
        return 0

    t0 = time.time()
    mod = load(pid)
    subs = [s for s in mod.SUBS if not args.only or s.name in args.only.split(',')]
    tmp = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    jobs = int(os.environ.get('VERIF_JOBS', '4'))
    pending, running, results, errors = list(subs), {}, [], []
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(args.seed))
    try:
        while pending or running:
            while pending and len(running) < jobs:
                s = pending.pop(0)
                out = os.path.join(tmp, s.name + '.json')
                log = open(os.path.join(tmp, s.name + '.log'), 'w')
                p = subprocess.Popen(
                    [sys.executable, os.path.join(VERIF, 'check.py'), pid, '--sub', s.name, '--out', out,
                     '--tier', tier, '--seed', str(args.seed)],
                    stdout=log, stderr=subprocess.STDOUT, env=env, cwd=tmp)
                running[p] = (s, out, log)
            time.sleep(0.05)
            for p in list(running):
                if p.poll() is None:
                    continue
                s, out, log = running.pop(p)
                log.close()
                if p.returncode == 0 and os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    errors.append((s.name, p.returncode, open(log.name).read()[-4000:]))
                if os.environ.get('VERIF_FAST') and (errors or results[-1]['violation']):
                    pending.clear()  # only set by tools/automut.py
                    for r in running:
                        r.kill()
    finally:
        for p in running:
            p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    results.sort(key=lambda r: [s.name for s in subs].index(r['sub']))
    violations = []
    for r in results:
        if r['violation']:
            d = os.path.join(OUT, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{pid}_{r["sub"]}_{args.seed}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, sub=r['sub'], seed=args.seed, **r['violation']), f, indent=1)
            violations.append((r, path))

    samples = [x for r in results for x in r['samples'][:3]][:12]
    evidence = dict(
        property=pid, tier=tier, seed=args.seed, level='exploration',
        coverage=dict(
            evaluations=sum(r['generated'] for r in results),
            distinct_nontrivial=sum(r['distinct_nontrivial'] for r in results),
            rule=mod.RULE, samples=samples,
            per_check={r['sub']: {k: r[k] for k in (
                'generated', 'judged', 'rejected', 'skipped', 'nontrivial', 'distinct_nontrivial', 'wall_s')}
                for r in results}),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    known = known_findings(pid)
    for r in results:
        for tag in r['known']:
            print(f'KNOWN-FINDING: property={pid} {known[(r["sub"], tag)]}')
        print(f'{pid}/{r["sub"]}: generated={r["generated"]} judged={r["judged"]} rejected={r["rejected"]} '
              f'distinct_nontrivial={r["distinct_nontrivial"]} skipped={r["skipped"]} wall={r["wall_s"]}s')
    for name, rc, log in errors:
        print(f'ERROR {pid}/{name}: worker ended with code {rc}\n{log}', file=sys.stderr)
    for r, path in violations:
        print(f'--- {pid}/{r["sub"]}: {r["violation"]["message"]}\n    shrunk case: {json.dumps(r["violation"]["case"])[:2000]}')
        print(f'VIOLATION property={pid} replay={path}')
    if violations:
        return 1
    if errors:
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
