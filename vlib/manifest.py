"""writes MANIFEST.json from properties.jsonl and spec.py"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
               evidence_file=f"evidence/{i}.json", technique=spec.PROPERTIES[i]["technique"], level="exploration",
               level_note=spec.PROPERTIES[i]["level_note"]) for i in ids if i in spec.PROPERTIES]
na = [dict(property=i, reason=spec.NOT_APPLICABLE.get(i, "no check yet")) for i in ids if i not in spec.PROPERTIES]
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="Drivers in drv/ are linked with the library sources of /repo's working tree in four instrumented flavours (vlib/build.py), "
               "run with injected delays (rt/) and judged by monitors at the API boundary. No hooks in /repo are needed.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
