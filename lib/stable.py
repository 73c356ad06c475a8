"""stable.py OUT.json: which stable tests did not pass."""
import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
o = json.load(open(sys.argv[1]))
p = set(o.get("passed", [])) if isinstance(o, dict) else set()
bad = sorted(set(b) - p)
print(len(b), "stable;", len(bad), "not passing;", len(p), "pass")
print("\n".join(bad[:30]))
