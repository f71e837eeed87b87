#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (development helper; not used by the checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
P = []
def p(id, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": kw.get("observe", []), "hook_needed": None}
    P.append({"id": id, "title": checks.CHECKS[id]["title"] if id in checks.CHECKS else kw["title"], "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
NA = []
exec(open(os.path.join(HERE, "tools", "props.py")).read())
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
assert set(checks.CHECKS) <= set(ids), set(checks.CHECKS) - set(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
na = {x["property"] for x in NA}
assert na | set(checks.CHECKS) == set(ids) and not na & set(checks.CHECKS)
M = {"version": 1, "setup_cmd": "python3 vp.py setup",
     "checks": [{"property": i, "quick_cmd": "VERIF_TIER=quick python3 vp.py check " + i, "thorough_cmd": "VERIF_TIER=thorough python3 vp.py check " + i,
                 "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of the library's LLVM bitcode, every branch and assertion decided by z3 (bit-vectors/IEEE floats); counterexamples replayed natively",
                 "level": "model_checking",
                 "level_note": "Holds for every input within these bounds, all paths explored to the end: " + checks.CHECKS[i]["bounds"] + ". Nothing is claimed outside them. Trusted: rustc code generation below LLVM IR, /verif/engine, z3." + ("".join(" " + a for a in checks.CHECKS[i]["assumptions"]))} for i in sorted(checks.CHECKS)],
     "not_applicable": NA,
     "notes": "No hooks: the harness crates use only the public API. They are built against a mirror of /repo regenerated on every run, cut exactly like /opt/vp/build.sh does (the `wcs` git dependency is not available offline). See DESIGN.md."}
json.dump(M, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(M["checks"]), "checks")
D = os.path.join(HERE, "DESIGN.md")
t = open(D).read()
a, b = "<!-- generated by tools/gen.py -->\n", "<!-- end -->\n"
if a in t:
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import method
    s = ""
    for x in sorted(P, key=lambda x: x["id"]):
        i = x["id"]
        s += "### %s — %s\n\n" % (i, x["title"])
        if i not in checks.CHECKS:
            s += "Not applicable: %s\n\n" % next(n["reason"] for n in NA if n["property"] == i)
            continue
        c = checks.CHECKS[i]
        q, th = c["cases"]("quick"), c["cases"]("thorough")
        s += "%s\n\n*Bounds:* %s. *Cases (concrete shapes, each explored over all its symbolic inputs):* %d quick, %d thorough, of %s.%s\n\n" % (method.M[i], c["bounds"], len(q), len(th), ", ".join("`%s`" % e for e in sorted({y["entry"] for y in q + th})), "".join(" *Assumption:* " + y for y in c["assumptions"]))
    i, j = t.index(a) + len(a), t.index(b)
    open(D, "w").write(t[:i] + s + t[j:])
