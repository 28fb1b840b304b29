#!/usr/bin/env python3
"""Development aid: rewrite the table of planted changes at the end of DESIGN.md."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MISSED = {'c14-abs-zero', 'c18-zero-mass', 'c24-nonc-frac', 'c25-semicircle', 'c25-cond-edge'}
t = '\n## Planted changes and the checks which catch them\nEach `seeded/<id>` passes the existing tests and is reported by the check of its own property (first letters of the id). `*`: missed at first, the check was\nstrengthened.\n\n| change | needs | breaks |\n|---|---|---|\n'
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    i = os.path.basename(d)
    t += '| %s%s | %s | %s |\n' % (i, '*' if i in MISSED else '', m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'))
s = open('DESIGN.md').read()
i = s.find('\n## Planted changes')
open('DESIGN.md', 'w').write((s[:i] if i > 0 else s) + t)
