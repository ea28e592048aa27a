#!/usr/bin/env python3
"""Rewrites the tables of repaired defects and planted bugs in DESIGN.md."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + '/DESIGN.md').read()
def put(tag, text):
    global d
    d = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (tag, tag), lambda m: m.group(1) + text + m.group(2), d, flags=re.S)
k = json.load(open(root + '/known_findings.json'))
put('fixes', ''.join('* %s (%s): %s\n' % (x['property'], x['commit'], x['what']) for x in k if x['status'] == 'fixed'))
rows = '| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows += '| %s | %s | %s | %s |\n' % (f.split('/')[-2], m['what_it_breaks'], m['needs'], m.get('caught', m['property']))
put('seeds', rows)
open(root + '/DESIGN.md', 'w').write(d)
