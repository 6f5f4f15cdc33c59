#!/usr/bin/env python3
"""Prints the overlay that puts DIR/main in MODULE/NAME and each file below DIR/in at its place in MODULE."""
import json, os, sys
d, mod, name = sys.argv[1:4]
r = {os.path.join(mod, name, f): os.path.join(d, "main", f) for f in os.listdir(os.path.join(d, "main"))}
for base, _, fs in os.walk(os.path.join(d, "in")):
    for f in fs:
        p = os.path.join(base, f)
        r[os.path.join(mod, os.path.relpath(p, os.path.join(d, "in")))] = p
json.dump({"Replace": r}, sys.stdout)
