"""Writes DESIGN.md; called by gen.py."""
import json, os, glob
def mods(s): return s["modules"] if "modules" in s else [s]
def ents(s):
    out = []
    for m in mods(s):
        for e in m["entries"]: out.append((e if isinstance(e, str) else e.get("name"), m))
    return out
def write(V, PROPS, SPECS):
    o = [open(os.path.join(V, "tools/design_head.md")).read()]
    seeds = {}
    for d in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
        m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
    K = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    for p in PROPS:
        o.append("### %s %s\n" % (p["id"], p["title"])); o.append(p["statement"] + "\n")
        if p["id"] not in SPECS:
            o.append("*Not applicable*: " + p["na"] + "\n"); continue
        s = SPECS[p["id"]]; e = ents(s)
        o.append("* **Quantified over** %s.\n* **Why tests cannot**: %s" % (p["quant"], p["why"]))
        o.append("* **Encoded code**: %s." % ", ".join(sorted({f for m in mods(s) for f in m["sources"]})))
        o.append("* **Mechanism looked at**: " + "; ".join("%s (%s)" % (a, b) for a, b in p["mech"]) + ".")
        o.append("* **Harness**: %s – %d entries: %s." % (", ".join("checks/" + h for h in sorted({m["harness"] for m in mods(s)})), len(e), ", ".join(n for n, _ in e)))
        o.append("* **Bounds**: %s.\n* **Outside**: %s." % (s["bounds"], s["outside"]))
        for n, m in seeds.get(p["id"], []): o.append("* **Planted bug %s** (caught): %s. Needs: %s." % (n, m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
        for k in K:
            if k["property"] == p["id"]: o.append("* **Defect found, %s**" % k["what"])
        o.append("")
    o.append(open(os.path.join(V, "tools/design_tail.md")).read())
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
