"""usage: fixprop.py P25 [P23=prefix ...]: attribute all unattributed fix: commits of /repo to a property."""
import json, subprocess, sys
P = "/verif/tools/fix_properties.json"
try:
    d = json.load(open(P))
except FileNotFoundError:
    d = {}
src = open("/verif/tools/mkfindings.py").read()
ns = {}
exec(src[src.index("PROP = {"):src.index("try:")], ns)
for s in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%s"], text=True).splitlines():
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    if s in d or any(s.startswith(k) for k in ns["PROP"]):
        continue
    special = [a.split("=", 1)[0] for a in sys.argv[2:] if s.startswith(a.split("=", 1)[1])]
    d[s] = special[0] if special else sys.argv[1]
    print(d[s], s)
json.dump(d, open(P, "w"), indent=1, sort_keys=True)
