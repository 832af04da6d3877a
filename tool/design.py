#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the properties, the rule of each check, the planted bugs and the findings."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
seeds = {}
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
find = {}
for e in json.load(open(os.path.join(V, 'known_findings.json'))):
    find.setdefault(e['property'], []).append(e)
extra = {}
xp = os.path.join(V, 'tool/design_notes.json')
if os.path.exists(xp):
    extra = json.load(open(xp))
out = [open(os.path.join(V, 'tool/design_head.md')).read()]
for p in props:
    f = os.path.join(V, 'checks', p['id'] + '.py')
    out.append('\n### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if os.path.exists(f):
        s = open(f).read()
        m = re.search(r"^RULE = \(?((?:\s*(?:'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\")\s*)+)\)?", s, re.M)
        rule = eval('(' + m.group(1) + ')') if m else ''
        a = re.search(r"^main\('C\d+', RULE, body(?:, (\[.*\]))?\)", s, re.M | re.S)
        out.append('*How it is decided.* %s\n' % rule)
        if a and a.group(1):
            try:
                out.append('*Assumes:* %s.\n' % '; '.join(eval(a.group(1))))
            except Exception:
                pass
    else:
        out.append('*Not claimed.* %s\n' % na.get(p['id'], ''))
    if p['id'] in extra:
        out.append(extra[p['id']] + '\n')
    if p['id'] in seeds:
        out.append('*Planted bugs caught:* %s.\n' % '; '.join('`%s` (%s)' % (i, d['what_it_breaks']) for i, d in seeds[p['id']]))
    for e in find.get(p['id'], []):
        out.append('- %s%s' % ('' if e['what'].startswith('fixed:') else '*%s finding:* ' % e['status'], e['what']))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
