"""Helper used while repairing: ed(file, old, new, commit message or None)."""
import subprocess
def ed(p, a, b, msg=None, repo='/repo'):
    f = repo + '/mpact/sim/' + p
    s = open(f).read()
    assert s.count(a) == 1, (p, s.count(a))
    open(f, 'w').write(s.replace(a, b))
    if msg:
        subprocess.check_call(['git', '-C', repo, 'commit', '-qam', msg])
