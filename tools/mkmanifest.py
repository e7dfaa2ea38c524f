#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {
    'C21': 'a pure function of its arguments: no schedule, clock, I/O, fault or history can change its result, so there is nothing for a simulator to control. The consequence inside real runs (global optimality of the steps taken) is decided as part of C19.',
    'C22': 'a pure function of the constructor arguments, decided before anything is scheduled, timed or stored; simulation with fault injection adds nothing over plain input enumeration.',
}
TODO = set(sys.argv[1:])
checks = []
for p in props:
    i = p['id']
    if i in NA or i in TODO:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'./check.py {i} --tier quick',
        'thorough_cmd': f'./check.py {i} --tier thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over scenarios, fault plans and schedules',
        'level': 'exploration',
        'level_note': NOTES.get(i, '') if (NOTES := globals().get('NOTES', {})) else 'Sampled executions of the real code under a simulator that decides objective replies, clock, log stream, files, interrupts and thread switches; nothing is proved about executions that were not sampled. Trusts numpy/scipy/h5py and the oracles in dst/.',
    })
m = {
    'version': 1,
    'setup_cmd': './check.py C01 --n 20 --no-evidence',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()] + [
        {'property': t, 'reason': 'check under construction'} for t in sorted(TODO)],
    'notes': 'No hooks in /repo: every seam is installed from outside (module attributes, sys.monitoring). Replay: ./check.py <id> --replay <file>.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
