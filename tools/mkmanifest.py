import json,os,importlib.util,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
LEVEL_NOTE="All runs of the real code within the stated bounds are enumerated and compared with a reference model; nothing beyond the bounds is claimed."
for p in props:
    f=f"/verif/checks/{p['id'].lower()}.py"
    if os.path.exists(f):
        src=open(f).read()
        m=re.search(r'"bounds": "(.*?)"',src)
        t=re.search(r'"technique": "(.*?)"',src)
        over=p['quantifier']['over']
        tech=t.group(1) if t else ("stateless model checking: exhaustive enumeration of "+", ".join(over)+" of the real code against a reference model")
        checks.append(dict(property=p['id'],quick_cmd=f"/opt/venv/bin/python -m mc.run {p['id']} --tier quick",thorough_cmd=f"/opt/venv/bin/python -m mc.run {p['id']} --tier thorough",evidence_file=f"evidence/{p['id']}.json",technique=tech,level="model_checking",level_note=LEVEL_NOTE+" Bounds: "+(m.group(1) if m else "")))
    else:
        na.append(dict(property=p['id'],reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="/opt/venv/bin/python -c \"import torch, ray\"",checks=checks,not_applicable=na,notes="Pure Python: nothing to build; every check imports evotorch from /repo/src in a fresh process."),open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
