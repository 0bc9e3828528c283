#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from tools/props.py and checks/*.py."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, x) for x in ("tools", "lib", "checks")]
import props, runner  # noqa
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        note = getattr(m, "NOTE", "")
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": m.TECHNIQUE, "level": m.LEVEL,
                       "level_note": (note + " " if note else "") + "Sampled search: holds on every generated case of the run (counts in the evidence file), not a proof. "
                       "Assumes: " + "; ".join(getattr(m, "ASSUMPTIONS", []) or ["only the stand-ins described in DESIGN.md"]) + "."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: checks compile /repo's sources with their own flags (lib/build.py). Replay a violation with bin/check --replay FILE."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not built")
