#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (kept as a script only to keep the JSON well formed)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVE = 'contract-based deductive verification of the real code (Verus/Z3, functions extracted mechanically from /repo on every run)'
RUN = 'bounded check of the same contracts on the real code (seeded histories), labelled bounded'
BOUND = ('Bounded stand-in, never counted as proved: the postconditions of every public operation (content, structure dump, summaries, '
         'handles) are executed on the real code over seeded histories (thousands per run). ')
PROOF_OF = json.load(open(os.path.join(ROOT, 'tools', 'levels.json')))
checks = []
for i in range(1, 17):
    p = 'C%02d' % i
    e = PROOF_OF.get(p, {})
    checks.append({
        'property': p,
        'quick_cmd': 'python3 tools/check.py %s' % p,
        'thorough_cmd': 'python3 tools/check.py %s --thorough' % p,
        'technique': (PROVE + '; ' + RUN) if e.get('note') else ('contracts of the real code, executed: ' + RUN + '; no obligation discharged yet'),
        'level': e.get('level', 'other'),
        'level_note': (e.get('note', '') + ' ' + BOUND).strip(),
        'evidence_file': 'evidence/%s.json' % p,
    })
m = {'version': 1,
     'setup_cmd': "cd harness && RUSTFLAGS='--cfg generic_btree_verif' cargo build --offline --release",
     'hooks': {'guard': 'cfg(generic_btree_verif)', 'enable': "RUSTFLAGS='--cfg generic_btree_verif'",
               'source_commits': ['07ff921', 'cc941b5']},
     'checks': checks, 'not_applicable': [],
     'notes': 'Open and repaired findings: KNOWN_FINDINGS.txt. How each property is decided: DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
