"""specs/shapes.json: the kinds of loops (w while, l loop, r counted, f for and how many locals their conditions mention) of every function, in order,
and the number of closures (c), that the loop contracts were written for. Run after the loops of /repo and the specs have changed together."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
from units import UNITS
vx, sh = sys.argv[1], {}
for n, u in UNITS.items():
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([vx, ",".join(u["overlays"]), "/repo", d + "/o.rs", d + "/r.json"], cwd=HERE + "/specs", check=True, stdout=subprocess.DEVNULL)
        for f in json.load(open(d + "/r.json"))["functions"]:
            if not f["external"] and f["shape"]:
                sh[f["path"]] = f["shape"]
json.dump(sh, open(HERE + "/specs/shapes.json", "w"), indent=0, sort_keys=True)
