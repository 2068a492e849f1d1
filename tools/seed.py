"""seed.py FILE.py ... : build, confirm and store planted bugs.
Each FILE.py defines: ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new), ...], DEMO (python source; exit 0 = fine).
Everything happens in a scratch copy of /repo under /tmp."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET
V = '/verif'
PY = '/opt/venv/bin/python'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)
def one(f):
    ns = {}
    exec(open(f).read(), ns)
    id, scratch = ns['ID'], f'/tmp/seed_{ns["ID"]}'
    shutil.rmtree(scratch, ignore_errors=True)
    sh(f'cp -a /repo {scratch}')
    try:
        for path, old, new in ns['EDITS']:
            p = os.path.join(scratch, path)
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=scratch).stdout
        env = dict(os.environ, PYTHONPATH=scratch)
        test = sh(f'. /opt/vp/env.sh; {PY} -m pytest -q -p no:cacheprovider -n 4 --timeout=300 -o junit_family=xunit2 --junitxml={scratch}.xml '
                  f"-o python_files='test_*.py *_test.py *_test_*.py' coax", cwd=scratch, env=env)
        base = json.load(open('/opt/vp/BASELINE.json'))
        d = f'{V}/seeded/{id}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(ns['DEMO'])
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
        good = sh(f'bash {d}/demo.sh', cwd='/repo')
        bad = sh(f'bash {d}/demo.sh', cwd=scratch)
        tests = test.stdout.strip().splitlines()[-1] if test.stdout.strip() else test.stderr[-300:]
        chk = sh(f'./run {ns["PROP"]}', cwd=V, env=dict(os.environ, COAX_REPO=scratch))
        v = [l for l in chk.stdout.splitlines() if l.startswith(('VIOLATION', '---'))]
        print(f'== {id} [{ns["PROP"]}] tests: {tests} | demo good={good.returncode} bad={bad.returncode} | check rc={chk.returncode} {" ".join(v)[:300]}')
        if good.returncode != 0 or bad.returncode == 0:
            print('   DEMO PROBLEM good:', good.stdout[-500:], good.stderr[-800:], 'bad:', bad.stdout[-300:], bad.stderr[-300:])
        if chk.returncode == 2:
            print(chk.stderr[-1500:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if os.path.exists(scratch + '.xml'):
            os.remove(scratch + '.xml')
for f in sys.argv[1:]:
    one(f)
