"""prints the 'fixed:' lines of KNOWN_FINDINGS.txt from the fix commits in /repo (MAP: subject prefix -> property)"""
import subprocess
MAP = [('SegmentTree.partial_reduce', 'P01'), ('SumTree.inverse_cdf', 'P02'), ('a stale id', 'P04'), ('TransitionBatch.to_singles', 'P03'),
       ('TransitionBatch.__eq__', 'P07'), ('NormalDist.affine', 'P10'), ('NormalDist.post', 'P09'), ('SquashedNormalDist raised', 'P08'),
       ('SquashedNormalDist.log_proba', 'P08'), ('DiscretizedIntervalDist.pre', 'P09'), ('safe_sample', 'P12'), ('SquashedNormalDist.post', 'P09'),
       ('argmin', 'P13'), ('Q was', 'P14'), ('TransitionModel was', 'P16')]
import json, os
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixmap.json')
if os.path.exists(extra):
    MAP += [tuple(x) for x in json.load(open(extra))]
for line in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        pid = [p for k, p in MAP if s.startswith(k)]
        assert len(pid) == 1, (s, pid)
        print(f'fixed: property={pid[0]} {h} {s}')
