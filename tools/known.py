import json,subprocess,re
p='/verif/known_findings.json'
try: d=json.load(open(p))
except FileNotFoundError: d={"findings":[]}
log=subprocess.run(["git","log","--format=%h %s"],cwd="/repo",capture_output=True,text=True).stdout.splitlines()
import sys
exec(open('/verif/tools/known_map.py').read())   # MAP: substring of subject -> (prop, what)
have={f.get("commit") for f in d["findings"]}
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix:") or h in have: continue
    m=[v for k,v in MAP.items() if k in s]
    if not m: print("UNMAPPED",l); continue
    for pr in m[0]:
        d["findings"].append({"id":"F%02d"%(len(d["findings"])+1),"property":pr,"status":"fixed","commit":h,
          "what":"fixed: property=%s %s %s"%(pr,h,s[5:])})
json.dump(d,open(p,"w"),indent=1)
