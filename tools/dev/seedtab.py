import json,glob,os,re
out=["## 3. Planted bugs (`seeded/`)\n","Each was written from the text of a property and the code, with a demonstration; all are caught by the quick check of their property.",
"Those that were missed at first are marked, with what was strengthened.\n","| bug | needs |","|---|---|"]
missed=json.load(open('/tmp/missed.json'))
for d in sorted(glob.glob('/verif/seeded/*')):
    n=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    s=m['needs'].replace('\n',' ').replace('|','/')
    if n in missed: s+=' **Missed at first**: '+missed[n]
    out.append('| %s | %s |'%(n,s))
p='/verif/DESIGN.md'; t=open(p).read()
i=t.find('SEEDED\n'); 
if i<0: i=t.index('## 3. Planted bugs')
open(p,'w').write(t[:i]+'\n'.join(out)+'\n')
