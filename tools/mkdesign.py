"""DESIGN.md = tools/DESIGN.head.md + what the checks catch (tools/catches.tsv, seeded/)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for l in open(ROOT + '/tools/catches.tsv'):
    i, p, c, t = l.rstrip('\n').split('\t')
    rows.setdefault(i, []).append((p, c, t))
out = [open(ROOT + '/tools/DESIGN.head.md').read().rstrip('\n'), '', '### Planted changes', '',
       'Seconds until the quick check of the property had found, confirmed and minimised the violation, last measurement; "-": not',
       'found within the time of the quick check.', '', '| change | what it needs | caught by |', '|---|---|---|']
n = k = 0
for d in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (ROOT, d)))
    r = rows.get(d, [])
    n += 1
    k += any(c == '1' for p, c, t in r)
    out.append('| %s | %s | %s |' % (d, m['needs'].replace('|', '/').replace('\n', ' '),
                                     ', '.join('%s %s' % (p, t + ' s' if c == '1' else '-') for p, c, t in r) or 'not run'))
out += ['', '%d of %d are caught.' % (k, n), '']
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
