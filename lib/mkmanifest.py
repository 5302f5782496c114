"""Writes /verif/MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(V + "/lib/manifest_table.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    t = T.get(p, {})
    if os.path.exists(f"{V}/checks/{p}.py") and "na" not in t:
        checks.append(dict(property=p, quick_cmd=f"python3 checks/{p}.py", thorough_cmd=f"python3 checks/{p}.py --thorough",
                           technique="bounded explicit-state model checking of the implementation: " + t["technique"], level=t.get("level", "model_checking"), level_note=t["note"]))
    else:
        na.append(dict(property=p, reason=t.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: checks compile /repo's sources unmodified against the mini-Kokkos/mini-MPI runtimes of /verif/shim.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
