"""which planted changes touch only lines that our own fixes added"""
import os
import re
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '6ebe77d'


def old_lines(f):
    out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '--abbrev=12', 'HEAD', '--', f],
                         capture_output=True, text=True).stdout.splitlines()
    return [l.split()[0].startswith('^' + BASE) or l.split()[0].startswith(BASE) for l in out]


cache = {}
for d in sorted(os.listdir(HERE + '/seeded')):
    f = None
    removed = []
    n = 0
    for l in open('%s/seeded/%s/patch.diff' % (HERE, d)):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            removed.append((f, n))
            n += 1
        elif l.startswith(' '):
            n += 1
    for f, n in removed:
        if f not in cache:
            cache[f] = old_lines(f)
    old = [cache[f][n - 1] for f, n in removed]
    if not all(old):
        print(d, 'own lines:', old.count(False), 'original:', old.count(True))
