"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
plans = open(os.path.join(here, 'harness', 'plans.py')).read()
claimed = set(re.findall(r'^def (C\d\d)\(run\)', plans, re.M))
NOTES = {}
DEFAULT = ('The TLA+ specification is explored exhaustively by TLC within the stated bounds; every transition '
           'is replayed on the real library and random recorded executions of it are decided by TLC against the '
           'same specification. Beyond the bounds the assurance is by the seeded executions.')
TECH = ('TLA+ specification checked with TLC; behaviours replayed into the real code; recorded executions '
        'validated by TLC')
m = {'version': 1, 'setup_cmd': 'python3 harness/accel.py',
     'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 harness/check.py ' + i,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 harness/check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH,
                            'level': 'model_checking', 'level_note': NOTES.get(i, DEFAULT)})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet (work in progress)'})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'claimed')
