#!/usr/bin/env python3
"""writes DESIGN.md from tools/design/*.md, known_findings.json, seeded/*/meta.json and tools/matrix.json (which checks caught which change)"""
import json, os, glob
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
try: matrix = json.load(open(V + '/tools/matrix.json'))
except OSError: matrix = {}
out = open(V + '/tools/design/head.md').read().rstrip() + '\n\n'
for p in props:
    out += '### %s %s\n\n' % (p['id'], p['title'])
    f = V + '/tools/design/%s.md' % p['id']
    out += open(f).read().strip() + '\n\n'
    for k in kf['findings']:
        if k['property'] == p['id']: out += 'Known finding %s: %s.\n\n' % (k['key'], k['what'])
out += open(V + '/tools/design/tail.md').read().rstrip() + '\n\n'
out += '## Repairs made in /repo\n\n' + ''.join('- %s\n' % x for x in kf['fixed']) + '\n'
out += '## Planted bugs and what catches them\n\n`tools/mutate.py` applies each change in /verif/seeded (Rust) and /verif/planted_clj (Clojure) to /repo, builds, runs the stable tests and the demonstration, runs the checks and undoes the change. "own" is the check of the property the change breaks. vcheck does not count patches to .clj files as planted bugs (it takes them for no source code), so those stay apart, but they are used in the same way.\n\n| change | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob(V + '/seeded/*/meta.json') + glob.glob(V + '/planted_clj/*/meta.json'), key=lambda m: m.split('/')[-2]):
    i = m.split('/')[-2]; d = json.load(open(m))
    out += '| %s | %s | %s | %s |\n' % (i, d['property'], d['needs'].replace('|', '/').replace('\n', ' '), ' '.join(matrix.get(i, ['?'])) or 'MISSED')
open(V + '/DESIGN.md', 'w').write(out)
