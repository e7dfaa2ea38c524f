#!/usr/bin/env python3
"""Same seed, different worker counts and hash seeds: identical executions.

usage: selftest.py [n [property ...]]
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else '200'
props = sys.argv[2:] or [
    c['property']
    for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']
]
bad = 0
for p in props:
    got = set()
    for workers, hs in ((8, '0'), (3, '0'), (8, '4711'), (1, '1')):
        env = dict(os.environ, DST_HASHSEED=hs)
        out = subprocess.run(
            [
                os.path.join(ROOT, 'check.py'),
                p,
                '--n',
                n,
                '--seed',
                '99',
                '--workers',
                str(workers),
                '--digests',
                '--no-evidence',
            ],
            env=env,
            capture_output=True,
            text=True,
        ).stdout
        got.add(''.join(x for x in out.splitlines(1) if x.startswith(p + ' ')))
    print(p, 'ok' if len(got) == 1 else 'DIFFERS', sorted(got))
    bad += len(got) != 1
sys.exit(bad)
