#!/usr/bin/env python3
"""caps.json from the reach files of an extended run: VH_REACH=/tmp/reach VH_LONGER=3 run.py ID ...; gen_caps.py /tmp/reach
A group is capped at the last index up to which every shard examined its cases without a violation."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fn = V + "/caps.json"
caps = json.load(open(fn)) if os.path.exists(fn) else {}
for f in sorted(glob.glob(sys.argv[1] + ".*.*")):
    pid, st = f.split(".")[-2:]
    g = {}
    for l in open(f):
        n, _, i = l.rsplit(" ", 2)
        g[n] = min(g.get(n, 1 << 60), int(i))
    caps[f"{pid}/{st}"] = g
json.dump(caps, open(fn, "w"), indent=0, sort_keys=True)
