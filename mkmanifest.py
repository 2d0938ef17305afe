#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED lists the properties with a registered check."""
import json
props=[json.loads(l) for l in open('properties.jsonl') if l.strip()]
from claims import CLAIMED
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        lvl,tech,note=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i}',thorough_cmd=f'./run.sh {i} thorough',technique=tech,level=lvl,level_note=note,evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i,reason='no check registered yet (work in progress; see DESIGN.md)'))
m=dict(version=1,setup_cmd='./run.sh setup',hooks=dict(guard='none',enable='no hooks are needed: the checks use the public API and interpose libc symbols in the harness binary',source_commits=[]),checks=checks,not_applicable=na,
 notes='All checks are one Rust binary (mc/) that depends on /repo by path and explores the real code exhaustively within stated bounds. Findings: KNOWN_FINDINGS.txt.')
json.dump(m,open('MANIFEST.json','w'),indent=1)
