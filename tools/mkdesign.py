"""writes DESIGN.md from tools/design, known_findings.json and seeded"""
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
head=open('/verif/tools/design/head.md').read()
tail=open('/verif/tools/design/tail.md').read()
plan=eval(open('/verif/tools/design/plan.py').read())
out=[head]
for p in sorted(P,key=lambda p:p['id']):
    a=plan[p['id']]
    out.append(f"### {p['id']} {p['title']}\n{a}\n")
open('/verif/DESIGN.md','w').write('\n'.join(out)+'\n'+tail)
import json,glob,os
s=open('/verif/DESIGN.md').read()
f='\n'.join('* '+d['text'].removeprefix('fixed: property=') for d in json.load(open('/verif/known_findings.json')))
rows=['| seed | property | needs | caught by |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['property']} (quick) |")
s=s.replace('FINDINGS',f).replace('SEEDS','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
