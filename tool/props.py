"""Generates properties.jsonl and MANIFEST.json from the tables below (run: python3 tool/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=text, why=' '.join(why.split()), files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, na=na))


TECH = 'static analysis: gated path summaries (interprocedural gated-SSA over the type-checked syntax tree) compared as Boolean functions with the specified '
NOTE = ('Every obligation is decided from the current source for all inputs and paths of the analysed functions (loops as "for each element" summaries, '
        'no bound); trusts the clang front end, the summariser in vlib/gssa.py, summaries of standard-library calls, and that the written rules are the '
        'property. Calls across virtual interfaces are matched at the interface, not resolved to one implementation. ')
exec(open(os.path.join(V, 'tool', 'proptable.py')).read())


def main():
    have = {f[:-3] for f in os.listdir(os.path.join(V, 'checks')) if f.startswith('C') and f.endswith('.py')}
    out, man, na = [], [], []
    for p in P:
        if not p['na'] and p['id'] not in have:
            print('skipped (no check):', p['id'])
            continue
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = None
        for f in p['files']:
            assert os.path.exists('/repo/' + f), f
        out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                    'why_tests_cant': p['why'], 'anchors': a})
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            man.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'other', 'level_note': NOTE + (p['note'] or ''), 'evidence_file': 'evidence/%s.json' % p['id']})
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': man, 'not_applicable': na,
               'notes': 'All checks are static: they parse the current source of /repo with libTooling and decide rules on it; no project code is executed. '
                        'The facts cache under build/ is keyed by content, so only changed translation units are parsed again.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(man), 'checks', len(na), 'not applicable')


main()
