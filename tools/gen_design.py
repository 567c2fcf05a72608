#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md from checks.json, properties.jsonl, seeded/*/meta.json and seeded_results.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/checks.json"))
P = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}


def table():
    o = ["| id | property | area | verifier obligations | native stand-ins | level |", "|---|---|---|---|---|---|"]
    for i in sorted(C):
        c = C[i]
        k = [h for h in c["harnesses"] if h["kind"] != "native"]
        n = [h for h in c["harnesses"] if h["kind"] == "native"]
        full = sum(h["kind"] == "complete" for h in k)
        a = sorted({h.get("area", c["area"]) for h in c["harnesses"]})
        ob = "%d harnesses (%d without bound)" % (len(k), full) + (", Verus" if c.get("verus") else "")
        o.append("| %s | %s | %s | %s | %d | %s |" % (i, P[i]["title"], ", ".join(a), ob, len(n), c["level"]))
    return "\n".join(o)


def details():
    o = []
    for i in sorted(C):
        c = C[i]
        o.append("**%s** — %s" % (i, c.get("level_note", "")))
        o.append("  * under contract: " + "; ".join("`%s`" % f if not f.startswith("bounded:") else f for f in c["functions"]))
        o.append("  * bounds: " + "; ".join("%s (%s)" % (h["name"], h.get("bound") or "all inputs") for h in c["harnesses"]))
        o.append("  * trusted: " + "; ".join(c.get("trusted", [])))
        o.append("")
    return "\n".join(o)


def seeded():
    r = json.load(open(V + "/tools/seeded_results.json"))
    o = ["| bug | property | needs | outcome |", "|---|---|---|---|"]
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % i))
        o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], r.get(i, "not run")))
    return "\n".join(o)


d = open(V + "/DESIGN.md").read()
for name, f in (("TABLE", table), ("DETAILS", details), ("SEEDED", seeded)):
    d = re.sub(r"(<!-- %s -->\n)(?:.*?\n)?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + f() + "\n" + m.group(2), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
