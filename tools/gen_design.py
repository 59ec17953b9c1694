import json,glob,os
head=open('/verif/tools/design/head.md').read()
out=[head]
P={}
exec(open('/verif/tools/design/props.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out.append("## Per property\n\nFormat: what is generated / the oracle / bounds and cost / why it reaches what tests cannot.\n")
for p in props:
    out.append(f"### {p['id']} {p['title']}\n\n{P[p['id']].strip()}\n")
out.append(open('/verif/tools/design/tail.md').read())
R={}
m='/verif/tools/design/matrix.json'
R=json.load(open(m)) if os.path.exists(m) else {}
out.append("## Planted bugs and what catches them\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(f)); d=json.load(open(f))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {R.get(i,d['property'])} |")
open('/verif/DESIGN.md','w').write("\n".join(out)+"\n")
