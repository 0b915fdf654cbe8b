"""tools/setprop.py: reads JSON objects (one per line on stdin), merges them into properties.jsonl by id."""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
props = {}
for l in open(P):
    x = json.loads(l); props[x["id"]] = x
for l in sys.stdin:
    if l.strip():
        x = json.loads(l); props.setdefault(x["id"], {}).update(x)
with open(P, "w") as f:
    for k in sorted(props):
        f.write(json.dumps(props[k], ensure_ascii=False) + "\n")
