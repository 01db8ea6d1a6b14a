#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import checks, relchecks
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = dict(
    conf='Traces of the real library, recorded by a driver over generated scripts, are validated by TLC against executable TLA+ definitions of every primitive; bounded by the scripts generated.',
    rel='Traces of the real library are validated by TLC against a relational TLA+ specification (state: everything learned so far and the heap); bounded by the scripts generated.')
out = dict(version=1, setup_cmd='python3 tools/kverif.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        k = checks.KIND.get(i, 'conf')
        c = dict(property=i, quick_cmd=f'python3 tools/kverif.py check {i}', thorough_cmd=f'VERIF_TIER=thorough python3 tools/kverif.py check {i}',
                 evidence_file=f'evidence/{i}.json', technique='TLA+ specification, TLC trace validation of the implementation' + checks.TECH.get(i, ''),
                 level='model_checking', level_note=NOTE[k] + ' ' + checks.LNOTE.get(i, ''))
        c['level_note'] = c['level_note'].strip()
        out['checks'].append(c)
    else:
        out['not_applicable'].append(dict(property=i, reason='check not built yet'))
if not out['not_applicable']: del out['not_applicable']
json.dump(out, open(V + '/MANIFEST.json', 'w'), indent=1)
