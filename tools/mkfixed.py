#!/usr/bin/env python3
"""Refresh the "fixed" list of known_findings.json from /repo's fix: commits and tools/fixed_props.txt (one property per commit, oldest first)."""
import json, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
props = open('tools/fixed_props.txt').read().split()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True, check=True).stdout
fixes = [l.split(' ', 2) for l in log.splitlines() if ' fix: ' in l]
assert len(fixes) == len(props), (len(fixes), len(props))
k = json.load(open('known_findings.json'))
k['fixed'] = [f'fixed: property={p} {h} {t}' for p, (h, _, t) in zip(props, fixes)]
json.dump(k, open('known_findings.json', 'w'), indent=1)
