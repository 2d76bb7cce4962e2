#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'TLA+ specification checked with TLC; behaviours from the specification replayed into the real code, recorded executions judged by a TLA+ trace specification'
NOTE = {
 'C01': 'Groups.tla exhaustively for all group structures over 7 (thorough 8) energy ticks; every structure and range replayed into map_groups_to_continuous, plus random and real group structures. Bounded; energies enter as ranks.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
sys.path.insert(0, os.path.join(HERE, 'harness'))
import plans, ast
claimed = [p for p in props if hasattr(plans, p)]
NOTE.update(getattr(plans, 'NOTES', {}))
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                      evidence_file='evidence/%s.json' % p, technique=TECH, level='model_checking', level_note=NOTE[p]) for p in claimed],
         not_applicable=[dict(property=p, reason='check not built yet') for p in props if p not in claimed],
         notes='TLA+/TLC. See DESIGN.md. No hooks in /repo: the public calls of a sequential library are the linearization points.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
