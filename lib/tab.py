"""tab.py PID TECHNIQUE NOTE -- set a property's manifest entry and regenerate MANIFEST.json"""
import json, os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = d + "/manifest_table.json"
t = json.load(open(p))
t[sys.argv[1]] = dict(t.get(sys.argv[1], {}), technique=sys.argv[2], note=sys.argv[3])
json.dump(t, open(p, "w"), indent=1)
subprocess.check_call([sys.executable, d + "/mkmanifest.py"])
