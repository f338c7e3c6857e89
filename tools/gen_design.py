#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, design_text.py, vc/props.py, seeded/ and known_findings.json"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/vc', V + '/tools']
from props import PROPS, NOT_APPLICABLE
from design_text import *
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
s = ''
for p in P:
    i = p['id']
    if i not in PROPS: continue
    q = PROPS[i]; s += '### %s %s\n\n%s\n\n' % (i, p['title'], TEXT.get(i, q['note']))
    for g in q['groups']:
        s += '- contracts `%s` over `%s`%s\n' % ('`, `'.join(x + '.spec' for x in g['specs']), '`, `'.join(g['files']), (': ' + ', '.join('`%s`' % f for f in g['fns'])) if g.get('fns') else ' (every function under contract there)')
    if q.get('sites'): s += '- whole-program facts: ' + '; '.join('`%s` only in %s' % (' '.join(k), ', '.join(v)) for k, v in q['sites']) + '\n'
    if q.get('bounded'): s += '- **bounded part, not counted as proved**: %s\n' % q['bounded']
    s += '- search for a concrete failing input: `replay/%s`\n' % q['harness'][0]['src'] if q.get('harness') else ''
    for a in q.get('assumptions', []): s += '- assumed: %s\n' % a
    for a in q.get('not_covered', []): s += '- not covered: %s\n' % a
    s += '\n'
na = ''
for p in P:
    if p['id'] not in PROPS: na += '- **%s** %s: %s\n' % (p['id'], p['title'], NOT_APPLICABLE.get(p['id'], 'contracts for the functions behind this property are not finished; nothing is claimed for it'))
fx = ''.join('- %s\n' % k['what'] for k in json.load(open(V + '/known_findings.json')))
sd = '| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    sd += '| %s | %s | %s | %s |\n' % (n, m['what_it_breaks'], m['needs'], CATCH.get(n, m['property']))
t = open(V + '/tools/design_head.md').read()
for k, v in (('PROPS', s), ('NA', na), ('FIXED', fx), ('LEFT', ''.join('- %s\n' % x for x in LEFT)), ('SEEDS', sd), ('FALSE', ''.join('- %s\n' % x for x in FALSE))): t = t.replace('@@%s@@' % k, v.rstrip())
open(V + '/DESIGN.md', 'w').write(t)
