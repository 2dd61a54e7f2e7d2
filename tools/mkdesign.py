"""Regenerates the per-property table of DESIGN.md (between the markers) from properties.jsonl, harness/bounds.json and the harness sources."""
import json,re,glob
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
B=json.load(open('/verif/harness/bounds.json'))
O=json.load(open('/verif/tools/oracles.json'))
H={}
for f in sorted(glob.glob('/verif/harness/h/*.go')):
    prev=[]
    for l in open(f):
        m=re.match(r'func ((C\d\d)_\w+)\(\)',l)
        if m: H.setdefault(m[2],[]).append(m[1])
out=[]
for p in P:
    i=p['id']
    out.append(f"### {i} {p['title']}\n")
    out.append(f"- Harnesses: {', '.join(H.get(i,[]))}.")
    out.append(f"- Decided: {O[i]['what']}")
    out.append(f"- Oracle: {O[i]['oracle']}")
    out.append(f"- Bounds (quick): {B[i]['quick']}. Thorough: {B[i]['thorough']}. Outside: {B[i]['outside']}.\n")
s=open('/verif/DESIGN.md').read()
a=s.index('<!-- table -->'); b=s.index('<!-- /table -->')
open('/verif/DESIGN.md','w').write(s[:a]+'<!-- table -->\n\n'+'\n'.join(out)+'\n'+s[b:])
s=open('/verif/DESIGN.md').read()
def fill(s,m,t):
    a=s.index(f'<!-- {m} -->'); b=s.index(f'<!-- /{m} -->')
    return s[:a]+f'<!-- {m} -->\n\n'+t+'\n\n'+s[b:]
k=json.load(open('/verif/known-findings.json'))
s=fill(s,'fixed','\n'.join('- '+x.replace('fixed: ','') for x in k['fixed']))
rows=['| change | property (its check reports it) | needs | breaks |','|---|---|---|---|']
import os
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |".replace('\n',' '))
s=fill(s,'seeds','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
