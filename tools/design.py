#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, properties.jsonl, checks.json, tools/proof_props.json, seeded/*/meta.json, tools/caught.json"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda *a: os.path.join(HERE, *a)
props = [json.loads(l) for l in open(R('properties.jsonl'))]
checks = json.load(open(R('checks.json')))
proof = json.load(open(R('tools', 'proof_props.json')))
caught = json.load(open(R('tools', 'caught.json'))) if os.path.exists(R('tools', 'caught.json')) else {}
out = []
for p in props:
    c = checks[p['id']]
    out.append('### {} {}\n'.format(p['id'], p['title']))
    out.append('Anchors: ' + ', '.join('`{}`'.format(f) for f in p['anchors']['files']) + '. Level: **{}**.\n'.format(c['level']))
    if p['id'] in proof:
        q = proof[p['id']]
        note = q['note'].replace('Proof: verification conditions are generated on every run by symbolic execution of the real functions (pyvc) and '
                                 'discharged by a normal-form prover and z3', 'Deductive part')
        out.append(note + '\n')
        if q.get('assumptions'):
            out.append('Assumed: ' + '; '.join(q['assumptions']) + '.\n')
        if q.get('design'):
            out.append(q['design'] + '\n')
    out.append('Concrete part: ' + c['rule'] + '.\n')
text = open(R('tools', 'DESIGN.in.md')).read().replace('@@PROPS@@', '\n'.join(out))
rows = ['| bug | property | what it needs to manifest | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R('seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    rows.append('| {} | {} | {} | {} |'.format(b, m['property'], m['needs'].replace('|', '/'), ', '.join('{} ({})'.format(k, v) for k, v in caught[b].items()) if b in caught else 'not measured'))
text = text.replace('@@SEEDED@@', '\n'.join(rows))
mut = R('tools', 'mutation.md')
text = text.replace('@@MUT@@', open(mut).read() if os.path.exists(mut) else '')
open(R('DESIGN.md'), 'w').write(text)
