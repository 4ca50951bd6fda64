#!/usr/bin/env python3-vt
"""Regenerates the tables of DESIGN.md from the contracts, the properties and the results of tools/seedrun.sh (no check uses it)."""
import importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, '/repo']
from tools.props import ALL, STD
def part(text, tag, body):
    a, b = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    if a not in text: text = text.replace(tag.upper() + 'TABLE', a + '\n' + b)
    return text[:text.index(a)] + a + '\n' + body + '\n' + text[text.index(b):]
out = []
for p in sorted(ALL, key=lambda p: p['id']):
    m = importlib.import_module('contracts.' + p['id'].lower())
    proved = [c for c in m.CONTRACTS if not c.bounded]; bounded = [c for c in m.CONTRACTS if c.bounded]
    try: ev = json.load(open('%s/evidence/%s.json' % (H, p['id'])))
    except OSError: ev = None
    out.append('**%s - %s.** Files: %s. Oracle: the executable specifications in `contracts/%s.py`, written from the on-disk format.' % (p['id'], p['title'], ', '.join('`%s`' % f for f in p['files']), p['id'].lower()))
    if proved:
        out.append('  * Discharged for all inputs (%d contracts): %s.' % (len(proved), '; '.join('`%s`' % c.name + (' (%s)' % c.note if c.note else '') for c in proved)))
    if bounded: out.append('  * Bounded stand-ins (generated inputs, never counted as proved): %s.' % '; '.join('`%s`' % c.name + (' (%s)' % c.note if c.note else '') for c in bounded))
    n = p['note'].replace(STD, '').strip()
    if n: out.append('  * ' + n)
    if ev and ev['coverage'].get('obligations'):
        out.append('  * Size: about %d obligations, %.0f s wall on 8 cores.' % (ev['coverage']['obligations'], ev.get('wall_s', ev.get('wall_seconds', 0)) or 0))
    out.append('')
s = open(H + '/DESIGN.md').read()
s = part(s, 'prop', '\n'.join(out))
res = {}
f = H + '/tools/seed_results.txt'
if os.path.exists(f):
    for l in open(f):
        k = l.split(None, 1)
        if len(k) == 2: res[k[0]] = k[1].strip()
rows = ['| planted bug | property | what it breaks | needs | outcome of the check |', '|---|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    try: m = json.load(open('%s/seeded/%s/meta.json' % (H, d)))
    except OSError: continue
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], res.get(d, '-')))
s = part(s, 'seed', '\n'.join(rows))
open(H + '/DESIGN.md', 'w').write(s)
