import json, sys
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
d = json.load(open(sys.argv[1]))
p = set(d.get("passed", d.get("pass", [])))
miss = sorted(base - p)
print("stable", len(base), "missing", len(miss), miss[:6])
