import json,glob,os
p='/verif/DESIGN.md'
s=open(p).read()
rows=["Each was written from a property's text, breaks it, compiles, passes the 91 tests, and has a demonstration. All are caught by the quick check of",
"their property.","","| planted change | property | what happens | what it needs |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append("| %s | %s | %s | %s |"%(d.split('/')[-2],m["property"],m["what_it_breaks"],m["needs"]))
t="\n".join(rows)
if "SEEDED_TABLE" in s: s=s.replace("SEEDED_TABLE","<!-- table -->\n"+t+"\n<!-- end -->")
else:
    a=s.index("<!-- table -->"); b=s.index("<!-- end -->"); s=s[:a]+"<!-- table -->\n"+t+"\n"+s[b:]
open(p,'w').write(s)
