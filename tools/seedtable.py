import json,glob,sys
rows=["| seed | property | change shows when | caught by |","|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); i=f.split('/')[3]
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {d['property']} |")
p=sys.argv[1]
s=open(p).read()
import re
s=re.sub(r'SEEDTABLE|\| seed \|(.*\n)*?(?=\n)', '\n'.join(rows)+'\n', s, count=1)
open(p,'w').write(s)
