"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
PARSER = ['P%02d' % i for i in range(1, 19)]
DONE = PARSER + ['P19', 'P20', 'P21', 'P22', 'P23', 'P24', 'P25', 'P26', 'P27', 'P28', 'P29', 'P30', 'P31', 'P32']
checks = []
for p in ids:
    if p not in DONE:
        continue
    parser = p in PARSER
    checks.append({
        'property': p, 'quick_cmd': 'python3 checks/run.py %s quick' % p, 'thorough_cmd': 'python3 checks/run.py %s thorough' % p,
        'technique': 'TLA+ specification of the parser checked with TLC; recorded runs of the real parser validated as its behaviours'
        if parser else 'TLA+ specification of generation checked with TLC; facts recorded from real generator runs validated against it',
        'level': 'model_checking',
        'level_note': 'Property stated on the specification and checked by TLC as invariant of every behaviour explored; every explored document sequence is run '
        'through the real code, whose complete observable result must be the one the specification determines. Bounded: exhaustive over small alphabets, '
        'seeded random beyond. Trusts TLC, the lexical front end tools/lex.py and the projection harness.'
        if parser else 'What the generators wrote is reduced to facts (names, values, file names, statuses) which TLC compares with what the specification determines for '
        'the same schema and options. Bounded: schemas and options of the listed alphabets and seeded random ones. Trusts TLC and the fact extraction.'})
na = [{'property': p, 'reason': 'check not built yet'} for p in ids if p not in DONE]
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
