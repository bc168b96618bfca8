import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_properties as g
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in g.P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
