#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.SPEC and the reasons below."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = [dict(property=p['id'], quick_cmd=f'python3 /verif/check.py {p["id"]} quick', thorough_cmd=f'python3 /verif/check.py {p["id"]} thorough', evidence_file=f'evidence/{p["id"]}.json', technique=jobs.SPEC[p['id']].get('technique', 'symbolic execution of the compiled sources (LLVM IR) with an SMT solver'), level='model_checking', level_note=jobs.SPEC[p['id']]['how']) for p in props if p['id'] in jobs.SPEC]
na = [dict(property=p['id'], reason=jobs.NA.get(p['id'], 'no check built yet')) for p in props if p['id'] not in jobs.SPEC]
json.dump(dict(version=1, setup_cmd='python3 /verif/check.py --setup', hooks=dict(guard='CLER_VERIF', enable='no hooks are needed: the checks compile the unmodified sources', source_commits=[]), checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', 'not claimed:', [x['property'] for x in na])
