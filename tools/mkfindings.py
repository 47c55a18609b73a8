"""Write known_findings.json: one record per repaired defect, from the fix: commits of /repo, and the known ones."""
import json, subprocess
PROP = {  # start of the commit subject -> property
 "seed remote clones": "P33", "average matrix-shaped": "P02", "do not ask remote actors": "P02", "honour obj_index=None": "P02",
 "make the crowding ranks": "P06", "raise IndexError": "P40", "fill batches made": "P04", "refuse an objective index": "P40",
 "report the best and worst": "P07", "keep ClipUp free": "P17", "actually validate the hyper": "P17", "let ExpGaussian follow": "P16",
 "do not write into the parameter dictionary": "P15", "do not keep a stale inverse": "P15", "make the nes ranking": "P18",
 "do not advance the global": "P33", "keep PolynomialMutation": "P12", "choose among the evaluated parents": "P10",
 "fill the cells of MAPElites": "P11", "make the feature grid": "P11", "do not let RunningNorm write": "P26",
 "keep RunningNorm usable": "P26", "ignore masked-out": "P26", "report observations of wrong length": "P26", "allow moving a RunningNorm": "P26",
}
try:
    PROP.update(json.load(open("/verif/tools/fix_properties.json")))
except FileNotFoundError:
    pass
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
old = json.load(open("/verif/known_findings.json"))["findings"]
known = [f for f in old if f["status"] == "known"]
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    props = [v for k, v in PROP.items() if s.startswith(k)]
    assert len(props) == 1, (s, props)
    fixed.append({"property": props[0], "status": "fixed", "commit": h, "what": f"fixed: property={props[0]} {h} {s}"})
json.dump({"findings": known + fixed}, open("/verif/known_findings.json", "w"), indent=1)
print(len(known), "known", len(fixed), "fixed")
