#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties the harness registers ('harness list -v')."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off', GOTOOLCHAIN='local')
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(['go', 'build', '-o', d + '/h', '.'], cwd=here + '/harness', env=env)
    rows = [l.split('\t') for l in subprocess.check_output([d + '/h', 'list'], text=True).splitlines() if '\t' in l]
tech = {r[0]: r[1] for r in rows}
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NOTE = ('Search, not proof: holds on every generated case of this run (counts, classes and samples in the evidence file). '
        'Trusts the Go toolchain and the reference model in /verif/harness; the domain limits are listed in DESIGN.md.')
checks, na = [], []
for p in props:
    if p['id'] in tech:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                       'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': tech[p['id']], 'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': p['id'], 'reason': 'no check yet (work in progress)'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check uses the public API of /repo only. Known findings and fixes: KNOWN_FINDINGS.txt.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
