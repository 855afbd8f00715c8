#!/usr/bin/env python3
"""show.py BIN: summary of results/dev.BIN.json"""
import json, sys
d = json.load(open(f"/verif/results/dev.{sys.argv[1]}.json"))
for v in d["violations"]:
    print(v["monitor"], v["index"], v.get("key"), "|", v["detail"][:500], "|", v["case"][:300])
for m in d.get("monitors", []):
    if "-v" in sys.argv:
        print(m)
