"""Write run/costs.json from the last quick runs (build/*-quick): seconds per contract, used only to order the work."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in glob.glob(os.path.join(V, "build", "*-quick", "*.json")):
    try:
        e = json.load(open(f))["entries"][0]
    except Exception:
        continue
    if e["wall_s"] > 3:
        out[os.path.basename(f)[:-5]] = round(e["wall_s"])
for f in os.listdir(os.path.join(V, "contracts")):
    if f.endswith(".cpp"):
        out[f[:-4]] = 90 if "_3d" in f else 60 if "_2d" in f else 30
json.dump(out, open(os.path.join(V, "run", "costs.json"), "w"), indent=0, sort_keys=True)
