#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written DESIGN_head.md and DESIGN_tail.md around one section per property,
made from properties.jsonl, claims.py, KNOWN_FINDINGS.txt and what the explorer says it explores (mc describe)."""
import json,subprocess
from claims import CLAIMED
props=[json.loads(l) for l in open('properties.jsonl') if l.strip()]
d={};cur=None
for l in subprocess.run(['./mc/target/debug/mc','describe'],capture_output=True,text=True,check=True).stdout.splitlines():
    f=l.split('\t')
    if f[0]=='P': cur=d[f[1]]=dict(rule=f[2],A=[],Q=[],T=[])
    elif f[0]=='A': cur['A'].append(f[1])
    else: cur[f[0]].append((f[1],f[2]))
known=[l.strip() for l in open('KNOWN_FINDINGS.txt') if 'property=' in l]
out=open('DESIGN_head.md').read().rstrip()+'\n'
for p in props:
    i=p['id']; out+=f"\n### {i} {p['title']}\n\n{p['statement']}\n\n"
    if i not in CLAIMED: out+='Not claimed.\n'; continue
    lvl,tech,note=CLAIMED[i]; x=d[i]
    out+=f"*Decided by* {tech} (level: {lvl}). *Rule:* {x['rule']}.\n\n*Bounds.* {note}\n\n*Why tests cannot:* {p['why_tests_cant']}\n\n"
    q=dict(x['Q']); t=dict(x['T'])
    for n,b in list(q.items())+[(n,b) for n,b in t.items() if n not in q]:
        if n in q: out+=f"- `{n}`: {q[n]}"+(f"; thorough: {t[n]}" if n in t and t[n]!=q[n] else '')+'\n'
        else: out+=f"- `{n}` (thorough only): {b}\n"
    out+='\n*Assumptions:* '+'; '.join(x['A'])+'.\n'
    k=[l for l in known if f'property={i} ' in l]
    if k:
        out+='\n*Found on this tree:*\n\n'
        for l in k: out+='- '+l.replace(f'property={i} ','')+'\n'
import glob
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[1]} | {m['property']} | {m['needs']} | {m.get('caught_by',m['property'])} |")
out+='\n'+open('DESIGN_tail.md').read().replace('SEEDTABLE','\n'.join(rows))
open('DESIGN.md','w').write(out)
