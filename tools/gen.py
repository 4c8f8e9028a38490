"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
import props

NOTE = ('every obligation generated from the compiler\'s MIR of /repo is discharged for all inputs by SMT, function by function against contracts; '
        'numbers are mathematical reals (rounding, overflow and NaN are not modelled); trusted: rustc\'s MIR, the MIR executor in mirv/, its models of std, z3/cvc5')
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = p['observe']
        a['hook_needed'] = p['hook']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        assert len(p['title']) <= 80, p['id']
na = {i for i, _ in props.NA}
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
     'hooks': {'guard': 'rcgal_verif', 'enable': 'RUSTFLAGS="--cfg rcgal_verif"', 'source_commits': props.HOOKS},
     'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3-vt mirv/check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3-vt mirv/check.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': 'deductive verification: contracts on the MIR of the real functions, SMT-discharged'
                 + ('; the whole by a bounded stand-in on the real code' if p['bounded'] else ''),
                 'level': 'other' if p['bounded'] else 'proof',
                 'level_note': ('BOUNDED, not proved: the composition is outside the reach of contracts here, so the real code is run and compared with exact geometry, '
                                + p['bounded'] + '. The contracts on the functions it depends on are proved: ' if p['bounded'] else '') + (p['note'] + '; ' if p['note'] else '') + NOTE}
                for p in props.P if p['id'] not in na],
     'not_applicable': [{'property': i, 'reason': r} for i, r in props.NA]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props.P), 'properties,', len(m['checks']), 'checks')
