"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- planted bugs: begin -->', '<!-- planted bugs: end -->'
# Bugs which the check of their own property misses on some seeds, and other checks known to see a bug.
ALSO = json.load(open(os.path.join(ROOT, 'tools', 'caught_by.json')))


def main():
    rows = ['| bug | needs | caught by (quick) |', '|-----|-------|-------------------|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        b = os.path.basename(os.path.dirname(f))
        rows.append('| %s | %s | %s |' % (b, m['needs'].replace('|', '/'), ALSO.get(b, m['property'])))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    i, j = s.index(BEGIN) + len(BEGIN), s.index(END)
    open(p, 'w').write(s[:i] + '\n\n' + '\n'.join(rows) + '\n\n' + s[j:])


if __name__ == '__main__':
    main()
