"""addfix.py PROPERTY COMMIT WHAT  -- record a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p))
pid, commit, what = sys.argv[1:4]
d["findings"].append(dict(property=pid, status="fixed", commit=commit, what=what, line=f"fixed: property={pid} {commit} {what}"))
json.dump(d, open(p, "w"), indent=1)
