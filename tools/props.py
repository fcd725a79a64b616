#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props_*.txt style records below.

A record: P(id, title, statement, over, text, why, files, mechanism, observe, na=None)
"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []

def P(id, title, statement, over, text, why, files, mech, observe, na=None, note=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    props.append(dict(id=id, title=title, statement=statement, over=over.split(','), text=text, why=why,
                      files=files.split(), mech=mech, observe=observe, na=na, note=note))

for f in sorted(glob.glob(os.path.join(V, 'tools', 'props_*.py'))):
    exec(open(f).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props:
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': [p['observe']] if isinstance(p['observe'], str) else p['observe'],
                        'hook_needed': None}}, ensure_ascii=True) + '\n')

NOTE = ("Bounded: every path of the listed harness shapes is explored over go/ssa of the current source, contents symbolic, z3 decides "
        "each branch and assertion; sizes and shapes outside the harness bounds (in the evidence 'rule') are not covered. Trusts go/ssa, "
        "the interpreter in engine/ (sampled paths are re-run natively and compared) and z3; counterexamples are replayed on the compiled code.")
have = set()
for f in glob.glob(os.path.join(V, 'harness', '*', '*.go')):
    have |= set(re.findall(r'func H_([A-Z]\d+)_', open(f).read()))
man = {'version': 1, 'setup_cmd': './check setup', 'checks': [], 'not_applicable': [],
       'hooks': {'guard': 'verif', 'enable': 'No hooks: the harnesses use only the public API, so /repo is built as it is (the guard is reserved, no file carries it).'}}
for p in props:
    if p['na']:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    elif p['id'] in have:
        man['checks'].append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'],
                              'thorough_cmd': './check %s thorough' % p['id'],
                              'technique': 'bounded symbolic execution of the go/ssa form of the real code, decided by z3',
                              'level': 'model_checking', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(man['checks']), 'checks')
extra = have - {p['id'] for p in props}
if extra: print('harnesses without a property:', sorted(extra))
