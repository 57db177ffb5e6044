#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and harness/plan.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
plan = json.load(open(R + '/harness/plan.json'))
checks, na = [], []
for p in props:
  i = p['id']
  if i not in plan:
    na.append({'property': i, 'reason': 'check not built yet'})
    continue
  ms = plan[i].get('models', [])
  checks.append({
      'property': i,
      'quick_cmd': './check %s --tier quick' % i,
      'thorough_cmd': './check %s --tier thorough' % i,
      'technique': 'TLA+ specification: TLC model checking%s, trace validation of recorded real runs' %
                   (' of ' + ', '.join('spec/%s.tla' % m for m in ms) + ' with replay of its behaviours' if ms else ''),
      'level': 'model_checking',
      'level_note': plan[i].get('note', 'Bounded exhaustive on the specification; the implementation is bound to it by replaying '
                    'every behaviour of the bounded model and by validating randomised recorded runs (float64 to 1e-8, '
                    'coarser for narrower types). Trusts TLC and the decimal arithmetic in spec/java.')})
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'TLA+/TLC; see DESIGN.md. No hooks in /repo are needed: only public API calls are recorded.'},
          open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
