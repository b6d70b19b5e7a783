#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import harness
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    c = harness.load_check(p['id'])
    checks.append({
        'property': p['id'], 'quick_cmd': './run.py %s' % p['id'], 'thorough_cmd': './run.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': 'runtime monitoring: ' + c.technique, 'level': 'exploration',
        'level_note': c.level_note or ('The real code runs under generated workloads (%d random cases per quick run, %d per thorough run, plus directed ones) while an oracle judges every execution; '
                                       'it decides the executions observed, not all inputs. Cases: %s.' % (c.quick, c.thorough, c.rule)),
    })
m = {'version': 1, 'setup_cmd': './run.py --selftest', 'hooks': {'guard': 'none', 'enable': 'no hooks: the monitors attach from outside (call boundaries, sys.monitoring, captured files and figures)', 'source_commits': []},
     'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
