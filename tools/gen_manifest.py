#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of registered checks (checks.json)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
import gen_properties as g
checks = json.load(open(os.path.join(here, 'tools', 'checks.json')))
claimed = {c['property'] for c in checks}
na = [x for x in g.NA]
na_ids = {x['property'] for x in na}
for r in g.P:
  if r['id'] not in claimed and r['id'] not in na_ids:
    na.append(dict(property=r['id'], reason='Not claimed: its simulation is not built yet.'))
m = dict(version=1, setup_cmd='python3 simcheck.py setup', checks=[], not_applicable=na,
         notes='All checks are deterministic simulations with fault injection; see DESIGN.md. A replay file is re-run with: python3 simcheck.py replay FILE.')
for c in checks:
  m['checks'].append(dict(
      property=c['property'],
      quick_cmd='python3 simcheck.py check ' + c['property'],
      thorough_cmd='python3 simcheck.py check ' + c['property'] + ' --thorough',
      technique=c['technique'], level='exploration', level_note=c['level_note']))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
