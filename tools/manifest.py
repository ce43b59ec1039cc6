#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = {}
if os.path.exists(f'{V}/tools/not_applicable.json'): NA = json.load(open(f'{V}/tools/not_applicable.json'))
THREADS = {'C21', 'C22'}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.sh {i} --tier quick',
        'thorough_cmd': f'./check.sh {i} --tier thorough',
        'technique': 'deterministic simulation with fault injection (seeded thread schedules on the native build)' if i in THREADS
            else 'deterministic simulation with fault injection (seeded host, faults and schedules around the shipped wasm build)',
        'level': 'exploration',
        'level_note': 'seeded search over thread interleavings at every atomic operation and lock' if i in THREADS
            else 'seeded search over workloads, host behaviours and fault sequences; every run is checked step by step against a reference model and has to finish once faults stop',
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'hooks': json.load(open(f'{V}/tools/hooks.json')) if os.path.exists(f'{V}/tools/hooks.json') else {'guard': 'none', 'enable': 'no hooks are needed', 'source_commits': []},
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'DESIGN.md describes the method; KNOWN_FINDINGS lists the defects found and repaired; a replay file is run with ./check.sh ID --replay FILE.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
