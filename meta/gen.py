import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from properties import P
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
if os.path.exists(here + "/manifest.py"):
    import manifest
    with open(root + "/MANIFEST.json", "w") as f:
        json.dump(manifest.build(P), f, indent=1); f.write("\n")
