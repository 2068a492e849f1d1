"""mutate.py FILE.py [-j N] [-k substr] [--tests]: detection power of the checks on many small changes.
FILE.py defines M = [(name, props, path, old, new), ...]; each is applied to a scratch copy of /repo/coax under /tmp.
With --tests, also reports whether the repository's own tests notice."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V, PY = '/verif', '/opt/venv/bin/python'
args = sys.argv[1:]
def opt(name, default, conv):
    if name in args:
        i = args.index(name); v = conv(args[i + 1]); del args[i:i + 2]; return v
    return default
jobs, pat = opt('-j', 3, int), opt('-k', '', str)
tests = '--tests' in args
args = [a for a in args if a != '--tests']
def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def one(m):
    name, props, path, old, new = m
    d = f'/tmp/mut_{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        run(f'cp -a /repo/coax {d}/coax')
        p = os.path.join(d, path)
        edits = old if isinstance(old, list) else [(old, new)]
        try:
            s = open(p).read()
        except OSError:
            return f'?? {name}: no file {path}'
        for a, b in edits:
            k = None
            if '@@' in a:   # 'text@@k': the k-th occurrence
                a, k = a.rsplit('@@', 1)
            if (s.count(a) != 1 and k is None) or (k is not None and s.count(a) <= int(k)):
                return f'?? {name}: text occurs {s.count(a)} times'
            parts = s.split(a)
            k = int(k or 0)
            s = a.join(parts[:k + 1]) + b + a.join(parts[k + 1:])
        open(p, 'w').write(s)
        out = []
        for pr in props.split():
            c = run(f'./run {pr}', cwd=V, env=dict(os.environ, COAX_REPO=d, VERIF_OUT=d))
            v = [l for l in c.stdout.splitlines() if l.startswith('---') or l.startswith('VIOLATION')]
            out.append(f'{pr}:{["MISSED", "caught", "ERROR"][c.returncode] if c.returncode in (0, 1, 2) else c.returncode}' + (' ' + ' '.join(v)[:160] if c.returncode == 1 else c.stderr[-300:] if c.returncode != 0 else ''))
        t = ''
        if tests:
            r = run(f". /opt/vp/env.sh; {PY} -m pytest -q -x -p no:cacheprovider -n 2 --timeout=300 -o python_files='test_*.py *_test.py *_test_*.py' coax", cwd=d, env=dict(os.environ, PYTHONPATH=d))
            t = ' | tests: ' + (r.stdout.strip().splitlines() or ['?'])[-1]
        return f'{"  " if all(":caught" in o for o in out) else "**"} {name}: ' + ' ; '.join(out) + t
    finally:
        shutil.rmtree(d, ignore_errors=True)
for f in args:
    ns = {}
    exec(open(f).read(), ns)
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(one, [m for m in ns['M'] if pat in m[0]]):
            print(r, flush=True)
