#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_*.md and seeded/*/meta.json.
import json,glob,os
os.chdir("/verif")
r=lambda n: open("tools/design_%s.md"%n).read()
STR={"c12-wait-until-quiet":"clients that trickle in while the batch delay runs","c13-merges-repeats":"clients that send equal payloads",
"c15-resets-on-any-error":"the index must survive a start that failed","c17-tolerates-damage":"damaged registries at start",
"c19-any-signal":"unrelated signals","c24-one-batch-at-a-time":"namespaces whose storage hangs"}
try: STR.update(json.load(open("tools/design_strengthened.json")))
except FileNotFoundError: pass
rows=[]
for f in sorted(glob.glob("seeded/*/meta.json")):
    i=f.split("/")[1]; m=json.load(open(f))
    c=lambda s:s.replace("|","/").replace("\n"," ")
    rows.append("| %s | %s | %s | %s |"%(i,m["property"],c(m["what_it_breaks"]),c(m["needs"])))
t="| planted bug | caught by | breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows)+"\n\n"
t+="First missed; the check was strengthened by:\n\n"+"".join("- %s: %s\n"%(k,v) for k,v in STR.items() if os.path.exists("seeded/"+k))
open("DESIGN.md","w").write(r("head").rstrip()+"\n\n"+r("props").rstrip()+"\n\n"+r("tail").rstrip()+"\n\n"+t+"\n"+r("refactors"))
