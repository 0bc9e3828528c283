#!/opt/veriftools/pyvenv/bin/python3
"""Prints the project files of a replay of a project-based check."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import proj
d = json.load(open(sys.argv[1]))
c = d["case"]
for p, (t, m) in proj.render(c[0]).items():
    print("##", p)
    print(t)
print(proj.cli(c[0]), proj.environ(c[0]))
print("ops", json.dumps(c[1:]))
