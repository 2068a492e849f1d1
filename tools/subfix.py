"""helper used while repairing: exact, unique text replacement followed by one commit in /repo"""
import subprocess


def sub(p, *prs):
    s = open(p).read()
    for a, b in prs:
        assert s.count(a) == 1, (p, a, s.count(a))
        s = s.replace(a, b)
    open(p, 'w').write(s)


def commit(m):
    subprocess.check_call(['git', 'commit', '-qam', m])
