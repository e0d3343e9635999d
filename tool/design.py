"""Fills the tables of DESIGN.md from the property table, the evidence of the last run and seeded/ (run: python3 tool/design.py)."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(V + '/MANIFEST.json'))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
notes = {}
for b in re.split(r'^== ', open(V + '/tool/design.notes').read(), flags=re.M)[1:]:
    h, t = b.split('\n', 1)
    notes[h.strip()] = t.strip()
t = []
for c in man['checks']:
    i = c['property']
    ev = json.load(open(V + '/evidence/%s.json' % i))['coverage']
    rules = ', '.join('%s (%d)' % (k, v['obligations']) for k, v in ev['rules'].items())
    t.append('### %s %s\n%s\n\n*Rules (obligations on the current tree)*: %s; %d functions analysed.\n*Anchors*: %s.\n*Why tests cannot settle it*: %s'
             % (i, props[i]['title'], notes.get(i, ''), rules, ev['functions_analysed'], ', '.join(props[i]['anchors']['files']), props[i]['why_tests_cant']))
fix = [l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
s = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    s.append('* `%s`: %s (needs: %s); caught by %s.' % (d, m['what_it_breaks'], m['needs'], m['property']))
o = open(V + '/tool/design.in.md').read()
o = o.replace('@@TABLE@@', '\n\n'.join(t)).replace('@@FIXES@@', '\n'.join('* ' + x for x in fix)).replace('@@SEEDED@@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(o)
