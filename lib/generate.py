#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from properties import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code's LLVM IR (clang -O1 + compiler-pass instrumentation), path conditions and assertions decided by Z3; counterexamples replayed on the same objects"


def row(pid, p):
    a = {"files": p["files"], "mechanism": p["mechanism"]}
    if p.get("observe"):
        a["observe_at"] = p["observe"]
    if p.get("state"):
        a["state"] = p["state"]
    a["hook_needed"] = None
    return {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["over_text"]}, "why_tests_cant": p["why"], "anchors": a}


rows = [row(k, v) for k, v in PROPS.items()] + [row(n["pid"], n) for n in NOT_APPLICABLE]
rows.sort(key=lambda r: r["id"])
with open(V + "/properties.jsonl", "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
checks = []
for k, p in sorted(PROPS.items()):
    cmd = "python3 lib/check.py " + k
    checks.append({"property": k, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd, "technique": TECH, "level": "model_checking",
                   "level_note": p.get("level_note") or ("Bounded: holds for every symbolic value within: " + p["bounds"])})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks,
     "not_applicable": [{"property": n["pid"], "reason": n["reason"]} for n in sorted(NOT_APPLICABLE, key=lambda n: n["pid"])],
     "notes": "Generated by lib/generate.py from lib/properties.py. Checks compile /repo's sources themselves (never /repo's build tree); objects are cached by content in /verif/.build."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for r in rows:
        jsonschema.validate(r, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid:", len(PROPS), "claimed,", len(NOT_APPLICABLE), "not applicable")
except ImportError:
    print("no jsonschema")
# the section of DESIGN.md that lists the properties
from design import ORACLE
out = []
for k, p in sorted(PROPS.items()):
    scen = 0
    for hname in p["harness"]:
        scen += len([l for l in open("%s/harness/%s.cpp" % (V, hname)) if l.startswith("SYM_SCENARIO")])
    out.append("### %s %s\n%s\n- Quantified: %s\n- Harness: %s; oracle: %s\n- Bounds and what lies outside: %s\n- Why tests cannot: %s\n" % (
        k, p["title"], p["statement"], p["over_text"], ", ".join("harness/%s.cpp" % x for x in p["harness"]) + (" (%d scenarios)" % scen if scen else ""), ORACLE.get(k, "-"), p["bounds"], p["why"]))
for n in sorted(NOT_APPLICABLE, key=lambda n: n["pid"]):
    out.append("### %s %s (not applicable)\n%s\n- Reason: %s\n" % (n["pid"], n["title"], n["statement"], n["reason"]))
d = open(V + "/DESIGN.md").read()
a, b = "<!-- properties: generated by lib/generate.py -->\n", "<!-- end of properties -->\n"
if a in d and b in d:
    d = d[:d.index(a) + len(a)] + "\n".join(out) + d[d.index(b):]
    open(V + "/DESIGN.md", "w").write(d)
missing = [k for k in PROPS if k not in ORACLE]
if missing:
    print("no oracle text:", missing)
