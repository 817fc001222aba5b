import sys,json,subprocess
# kf.py fixed PROP COMMIT text   |  kf.py known PROP KEY text
k,p,c,t=sys.argv[1:5]
d={"fixed":f"property={p} {c} {t}"} if k=="fixed" else {"property":p,"key":c,"what":t}
open('/verif/known_findings.jsonl','a').write(json.dumps(d)+"\n")
