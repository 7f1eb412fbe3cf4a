#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from doc/properties.py and props/*.py."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(p):
    s = importlib.util.spec_from_file_location("x", p); m = importlib.util.module_from_spec(s)
    m.Unit = m.Native = lambda *a, **k: None; m.UTILS = m.CORE = []
    s.loader.exec_module(m); return m
P = load(V + "/doc/properties.py").PROPERTIES
HOOKS = load(V + "/doc/properties.py").HOOK_COMMITS
props, checks, na = [], [], []
for p in P:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["for_all"]}, "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": p.get("hook")}})
    f = V + "/props/%s.py" % p["id"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        m = load(f)
        checks.append({"property": p["id"], "quick_cmd": "python3 lib/vfrun.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 lib/vfrun.py " + p["id"],
            "technique": getattr(m, "TECHNIQUE", "contracts on the real C functions, discharged by CBMC (goto-instrument --dfcc)"
                                 + ("; contracts executed on the real code as labelled bounded stand-in and for replay" if getattr(m, "NATIVE", None) else "")),
            "level": getattr(m, "LEVEL", "proof"), "level_note": p["note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in props))
json.dump({"version": 1, "setup_cmd": "true",
  "hooks": {"guard": "DLITE_VERIFY", "enable": "goto-cc -DDLITE_VERIFY (lib/vfrun.py): src/utils/annotations.h then takes loop contracts "
            "from a generated dlite-contracts.h; without it the annotations expand to nothing", "source_commits": HOOKS},
  "checks": checks, "not_applicable": na,
  "notes": "See DESIGN.md. known_findings.txt lists fixed and known defects."}, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    for x in props: jsonschema.validate(x, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid", len(checks), "checks", len(na), "n/a")
except ImportError:
    print("jsonschema missing; run with python3-vt")
