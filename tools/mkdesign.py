"""Regenerates the generated parts of DESIGN.md (between the markers): per-property bounds, fixes, planted changes."""
import ast
import glob
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(f):
    out = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            v = n.value
            out[n.targets[0].id] = {k.arg: ast.literal_eval(k.value) for k in v.keywords} if isinstance(v, ast.Call) else ast.literal_eval(v)
    return out


def bounds():
    r = []
    for f in sorted(glob.glob(V + "/harness/C*.py")):
        c = consts(f)
        r.append("**%s** quick: %s. Thorough: %s. Outside: %s.%s" % (
            os.path.basename(f)[:3], c["BOUNDS"]["quick"], c["BOUNDS"]["thorough"], c["OUTSIDE"],
            " Assumed: " + "; ".join(c["ASSUMPTIONS"]) + "." if c.get("ASSUMPTIONS") else ""))
    return "\n\n".join(r)


def fixes():
    k = json.load(open(V + "/known_findings.json"))
    return "\n".join("- " + e["text"] for e in k)


def seeds():
    r = ["| change | property | needs | caught by |", "|---|---|---|---|"]
    res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        sid = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        r.append("| %s | %s | %s | %s |" % (sid, m["property"], m["needs"], res.get(sid, "?")))
    return "\n".join(r)


def main():
    p = V + "/DESIGN.md"
    s = open(p).read()
    for name, f in (("bounds", bounds), ("fixes", fixes), ("seeds", seeds)):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + f() + "\n" + m.group(2), s, flags=re.S)
    open(p, "w").write(s)


main()
