import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
# properties whose contracts do not cover everything: the bounded rest
PART = {}
notes = os.path.join(HERE, 'contracts', 'notes.json')
if os.path.exists(notes):
    PART = json.load(open(notes))
checks = []
for p in props:
    i = p['id']
    proved = os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py'))
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification: obligations generated from the Python source of /repo, '
                   'discharged by z3 and cvc5; failing inputs searched on the real code' if proved else
                   'bounded check of the real code against an independent oracle (no contract in reach, see DESIGN.md)',
                   'level': 'proof' if proved else 'exploration',
                   'level_note': ('Proved for all inputs under the assumptions in the evidence file (generator, contracts on numpy, '
                                  'spglib and the standard library are trusted; floats are exact reals). ' + PART.get(i, '')).strip()
                   if proved else ('Bounded only. ' + PART.get(i, '')).strip()})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
