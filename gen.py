#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (developer tool; the outputs are committed)."""
import json, sys
sys.path.insert(0, '/verif')
S = 'src/XAD/'
ALLT = {'real': 'all values of the inputs (as exact reals), all seeds'}
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, claimed=True, na=None, level_note=None):
    a = dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))])
    if state: a['state'] = [dict(name=k, meaning=v) for k, v in state]
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a), claimed=claimed, na=na, note=level_note))
exec(open('/verif/props.py').read())
open('/verif/properties.jsonl', 'w').write(''.join(json.dumps(x['rec']) + '\n' for x in P))
NOTE = ('Bounded symbolic execution of the LLVM IR of the current tree; every obligation on every explored path is decided by term rewriting or z3 for all values of the symbolic inputs. '
        'Trusted: clang front end, the IR interpreter (validated by native replay of one witness per harness), models of libstdc++/libm, exact-real reading of floating point except in _ieee harnesses. ')
m = dict(version=1, setup_cmd='./check.py --selftest', checks=[], not_applicable=[],
         notes='all checks: ./check.py <property> <tier>; see DESIGN.md')
for x in P:
    i = x['rec']['id']
    if x['claimed']:
        m['checks'].append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the LLVM IR of the real code, obligations decided by z3', level='model_checking', level_note=NOTE + (x['note'] or '')))
    else: m['not_applicable'].append(dict(property=i, reason=x['na']))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for x in P: jsonschema.validate(x['rec'], json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid', len(P), len(m['checks']))
except ImportError: print('no jsonschema')
