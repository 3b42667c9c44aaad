"""regenerates MANIFEST.json from properties.jsonl and the registered monitors"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "rtmon"))
import main
reg = main.registry()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
    "exploration": "Held on the executions counted in the evidence file: the real command line tool, built from /repo with debug "
                   "assertions and overflow checks, on generated projects, each judged by an independent oracle. Says nothing "
                   "about inputs the generators cannot produce (DESIGN.md lists them).",
    "fault_enumeration": "Every intercepted file and output operation of each generated run is failed once per error code, and the "
                         "outcome judged; trusts the interposition library to see all operations (Rust's standard library "
                         "calls the C library).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        c = reg[i]
        lvl = c.get("level", "exploration")
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "technique": c.get("technique", "runtime monitor: black-box executions of the real tool judged online by a reference-model oracle"),
                       "level": lvl, "level_note": NOTE[lvl]})
    else:
        na.append({"property": i, "reason": "monitor not built yet"})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all monitors observe the tool at its boundary (files, standard output, exit status, intercepted C library calls)."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "not yet")
