#!/usr/bin/env python3
"""Regenerates DESIGN.md from design_head.md, the directives, design_how.json, design_tail.md and seeded/."""
import json, re, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bounds, assume, files = {}, {}, {}
for f in sorted(glob.glob(R + '/harness/*/*.go')):
    for l in open(f):
        m = re.match(r'//gosym:(bound|assume) (C\d\d) (.*)', l)
        if m:
            (bounds if m[1] == 'bound' else assume).setdefault(m[2], []).append(m[3].strip())
        m = re.match(r'//gosym:job (C\d\d)', l)
        if m:
            files.setdefault(m[1], set()).add(f.replace(R + '/harness/', ''))
how = json.load(open(R + '/tools/design_how.json'))
out = open(R + '/tools/design_head.md').read()
for l in open(R + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out += '### %s %s\n\n' % (i, p['title'])
    h = how.get(i, ['', ''])
    if h[0]: out += '*How:* ' + h[0] + '\n\n'
    out += '*Bounds:* ' + '; '.join(bounds.get(i, ['-'])) + '.\n\n'
    if i in assume: out += '*Assumed / outside:* ' + '; '.join(assume[i]) + '.\n\n'
    if h[1]: out += '*Beyond tests:* ' + h[1] + '\n\n'
    out += '*Harness:* ' + ', '.join(sorted(files.get(i, []))) + '\n\n'
out += open(R + '/tools/design_tail.md').read()
out += '| bug | caught by | needs |\n|---|---|---|\n'
missed = set('flat-lookup heat-hue-edge pole-side-sign value-up-to-blank wide-rows'.split())
extra = R + '/tools/seeds_missed_first.txt'
if os.path.exists(extra): missed |= set(open(extra).read().split())
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out += '| %s%s | %s | %s |\n' % (n, ' *' if n in missed else '', m['property'], ' '.join(m['needs'].split()).replace('|', '/'))
open(R + '/DESIGN.md', 'w').write(out)
print(len(out))
