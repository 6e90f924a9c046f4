"""Lines of the repository which no check executed: VERIF_LINES=FILE ./check.sh ...; tools/uncovered.py FILE"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import core
seen = {tuple(l.rstrip('\n').rsplit(':', 1)) for l in open(sys.argv[1])}
seen = {(f, int(n)) for f, n in seen}
total = core.all_lines()
for f in sorted({f for f, _ in total}):
    left = sorted(n for g, n in total - seen if g == f)
    if left:
        src = open(os.path.join(core.REPO, 'ocelot', f)).read().split('\n')
        print('==', f)
        for n in left:
            print('  {:4} {}'.format(n, src[n - 1]))
print(len(seen & total), 'of', len(total))
