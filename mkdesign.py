#!/usr/bin/env python3
# Builds DESIGN.md from doc/head.md, properties.jsonl, the harnesses' comments, evidence/, doc/tail.md, doc/seeds.json.
import json,re,glob,os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open('properties.jsonl') if l.strip()]
cases={}
for f in sorted(glob.glob('harness/*/*.go')):
    t=open(f).read()
    for m in re.finditer(r'((?:^//[^\n]*\n)*)^func (vCase_(C\d\d)_(\w+))\(',t,re.M):
        doc=' '.join(l[2:].strip() for l in m[1].splitlines() if not l.startswith('//verif') and l.strip()!='//')
        doc=re.sub(r'^vCase_\w+:? *(is )?','',doc)
        opt=re.findall(r'//verif:opt (\S+)',m[1])
        fl=t[m.end():]; e=fl.find('\n}\n'); body=fl[:e]
        b=re.findall(r'vBound\("([^"]+)", *(\d+), *(\d+)\)',body)
        s=re.findall(r'vSched\(([^)]*)\)',body)
        cases.setdefault(m[3],[]).append((m[4],doc,opt,b,s,os.path.relpath(f,'harness')))
own=json.load(open('doc/why.json')) if os.path.exists('doc/why.json') else {}
out=[open('doc/head.md').read().rstrip(),'','## The properties','',
'For each: the statement (in full in `properties.jsonl`), why the tests cannot settle it, and the harness cases that decide it.',
'"quick/thorough" gives the bound of each tier. "sched" marks enumerated schedules. Times are of a quick run of the whole check on this sandbox.','']
for p in props:
    i=p['id']
    out.append(f"### {i} {p['title']}"); out.append('')
    out.append(p['statement']); out.append('')
    out.append('*Quantified over:* '+p['quantifier']['text']+'. *Why tests cannot:* '+p['why_tests_cant']+'.'); out.append('')
    if i in own: out.append(own[i]); out.append('')
    ev=None
    if os.path.exists(f'evidence/{i}.json'): ev=json.load(open(f'evidence/{i}.json'))
    pc={}
    if ev:
        for c in ev['coverage'].get('cases',[]): pc[c['case']]=c
    for n,doc,opt,b,s,f in cases.get(i,[]):
        x=[]
        c=pc.get(f'{i}_{n}')
        if c: x.append(f"{c['paths']} paths"+('' if c.get('complete_within_bounds') else ', NOT exhausted'))
        x+= [f'{k} {q}/{t}' for k,q,t in b]
        if s: x.append('sched')
        if 'native=no' in opt: x.append('no native replay')
        if 'native=engine' in opt: x.append('replayed in the engine')
        out.append(f"- `{n}`: {doc}"+(f" ({'; '.join(x)})" if x else ''))
    out.append('')
    if ev:
        cv=ev['coverage']; sv=cv.get('solver',{})
        out.append(f"Anchors: {', '.join(p['anchors']['files'])}. Functions encoded: {len(cv.get('functions_encoded',[]))}; queries {sv.get('queries')}, solver {sv.get('time_s',sv.get('seconds',0)):.1f} s, wall {ev['wall_s']:.0f} s ({ev['tier']})." )
        out.append('')
t=open('doc/tail.md').read()
fx=[json.loads(l) for l in open('known-findings.jsonl') if l.strip()]
t=t.replace('@FIXES@','\n'.join(f"- {x['property']} `{x['fixed']}`: {x['what']}" for x in fx if x.get('fixed')))
sd=json.load(open('doc/seeds.json')) if os.path.exists('doc/seeds.json') else {}
rows=['| change | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    k=d.split('/')[1]; m=json.load(open(d))
    rows.append(f"| {k} | {m['property']} | {m['needs'].replace('|','/')} | {sd.get(k,'')} |")
t=t.replace('@SEEDS@','\n'.join(rows))
for k in ('MORE','PROBES'):
    f=f'doc/{k.lower()}.md'
    t=t.replace(f'@{k}@',open(f).read().strip() if os.path.exists(f) else '')
out.append(t)
open('DESIGN.md','w').write('\n'.join(out))
