import json,sys,os,glob
sys.path.insert(0,'/verif')
from plan import PLAN
t=open('/verif/notes/DESIGN.in.md').read()
out=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d['id']
    out.append(f"### {i} {d['title']}\n")
    if i in PLAN:
        P=PLAN[i]
        if P.get('how'): out.append(P['how']+"\n")
        out.append("Harnesses: "+"; ".join(f"`{e['entry']}` ({e['what']})" for e in P['quick'])+"."+(" Thorough adds "+"; ".join(f"`{e['entry']}` ({e['what']})" for e in P.get('thorough',[]))+"." if P.get('thorough') else ""))
        out.append("Bounds: "+P['bounds']+".")
        if P.get('outside'): out.append("Outside: "+P['outside']+".")
        out.append("Why tests cannot: "+d['why_tests_cant']+"\n")
    else: out.append("No check yet.\n")
t=t.replace('@@PROPS@@',"\n".join(out))
t=t.replace('@@DEFECTS@@',"".join("* "+l for l in open('/verif/known_findings.txt') if l.startswith(('fixed','finding'))))
s=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    s.append(f"* `{n}` ({d['property']}): {d['what_it_breaks']} Needs: {d['needs']} {d.get('caught','')}")
t=t.replace('@@SEEDED@@',"\n".join(s) or "none yet")
open('/verif/DESIGN.md','w').write(t)
