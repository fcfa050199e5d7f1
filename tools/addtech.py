"""addtech.py ID TECHNIQUE NOTE: record how a property is checked."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
t = json.load(open(p))
t[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(t, open(p, "w"), indent=1, ensure_ascii=False, sort_keys=True)
