"""Fill the generated parts of DESIGN.md from properties, checks, evidence, findings and seeded bugs."""
import ast, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(ROOT, *p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
find = json.loads(rd("known_findings.json"))["findings"]


def meta(pid):
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        return None
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return ast.literal_eval(node.value)


def sections(pid):
    try:
        e = json.loads(rd("evidence", pid + ".json"))
    except OSError:
        return None
    return e["coverage"]


out = []
for p in props:
    m = meta(p["id"])
    out.append("### %s %s" % (p["id"], p["title"]))
    if m is None:
        out.append("Not claimed.\n")
        continue
    out.append("")
    out.append("* Enumerated: %s." % m["bounds"])
    for a in m.get("assumptions", []):
        out.append("* Assumption: %s." % a)
    fixed = [f for f in find if f["property"] == p["id"] and f["status"] == "fixed"]
    known = [f for f in find if f["property"] == p["id"] and f["status"] == "known"]
    if fixed:
        out.append("* Defects repaired: %d (see `known_findings.json`)." % len(fixed))
    for f in known:
        out.append("* Known finding: %s." % f["what"])
    out.append("")
props_text = "\n".join(out)

rows = ["| Property | Commit | What failed |", "|---|---|---|"]
for f in sorted((f for f in find if f["status"] == "fixed"), key=lambda f: f["property"]):
    what = re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"]).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s |" % (f["property"], f.get("commit", ""), what))
fixed_text = "\n".join(rows)

catch = json.loads(rd("tools", "caught.json")) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
rows = ["| Planted bug | Property | Needs | Caught by | Note |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    j = json.loads(rd("seeded", d, "meta.json"))
    c = catch.get(d, {})
    rows.append("| %s | %s | %s | %s | %s |" % (d, j["property"], j["needs"], c.get("by", ""), c.get("note", "")))
seeded_text = "\n".join(rows)

s = rd("DESIGN.md")
for name, text in (("properties", props_text), ("fixed", fixed_text), ("seeded", seeded_text)):
    s = re.sub(r"(<!-- begin %s -->\n).*?(<!-- end %s -->)" % (name, name), lambda k: k.group(1) + text + "\n" + k.group(2), s, flags=re.S)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
