"""Which planted changes touch no line of the original repository (they do not count)."""
import os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()
fixes = {r.split()[0] for r in subprocess.run(['git', '-C', '/repo', 'log', '--oneline', '--abbrev=40', '--grep=^fix:'], capture_output=True, text=True).stdout.strip().split('\n')}
blame = {}


def own(f, n):
    if f not in blame:
        out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
        blame[f] = [l.split()[0].lstrip('^') in {x[:len(l.split()[0].lstrip('^'))] for x in fixes} if l else False for l in out]
    return blame[f][n - 1]


for d in sorted(os.listdir(ROOT + '/seeded')):
    p = open('%s/seeded/%s/patch.diff' % (ROOT, d)).read()
    f, good, hunks = None, False, []
    for l in p.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'):
            pass
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
            rem, add = [], False
        elif l.startswith('-'):
            rem.append(n)
            n += 1
        elif l.startswith('+'):
            add = True
        elif l.startswith(' ') or not l:
            if rem:
                good |= any(not own(f, k) for k in rem)
            elif add:
                good |= not own(f, n - 1) and not own(f, n)
            rem, add = [], False
            n += 1
    if not good:
        print(d)
