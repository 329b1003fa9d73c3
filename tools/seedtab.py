import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    n=m['needs'].replace('|','/').replace('\n',' ')
    if len(n)>150: n=n[:147].rsplit(' ',1)[0]+' …'
    rows.append(f"| {i} | {m['property']} | {n} |")
t="| seed | caught by | what it needs |\n|---|---|---|\n"+"\n".join(rows)
p='/verif/DESIGN.md'; s=open(p).read()
B,E="<!-- seeds -->","<!-- /seeds -->"
blk=B+"\n"+t+"\n"+E
if "@@SEEDS@@" in s: s=s.replace("@@SEEDS@@",blk)
else: s=s[:s.index(B)]+blk+s[s.index(E)+len(E):]
open(p,'w').write(s)
