#!/usr/bin/env python3
"""try_seed.py ID...: for each seeded change, in a scratch copy of /repo: does it apply, do the (stable) tests still
pass, does the demo tell the two trees apart, does the property's check report it?"""
import json, os, shutil, subprocess as sp, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = ["test_qp", "test_static", "test_utils_sparse"]
def sh(cmd, **kw):
    return sp.run(cmd, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)
def go(i, notest):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    res = {}
    try:
        sh(f"git -C /repo archive HEAD | tar -x -C {w}")
        shutil.copytree(d, w + "/.demo")
        demo = f"cd {w} && timeout 300 bash .demo/demo.sh"
        r0 = sh(demo); res["demo_clean"] = r0.returncode
        a = sh(f"cd {w} && git apply --unsafe-paths -p1 {d}/patch.diff"); res["apply"] = a.returncode
        if a.returncode: print(a.stdout)
        r1 = sh(demo); res["demo_bug"] = r1.returncode
        if r0.returncode: print("CLEAN DEMO OUT:", r0.stdout[-1500:])
        if "error:" in r1.stdout or r1.returncode == 0: print("BUG DEMO OUT:", r1.stdout[-1500:])
        if not notest:
            ps = {t: sp.Popen(f"cd {w} && g++ -std=c++20 -O0 -Iinclude -isystem /usr/include/eigen3 tests/{t}.cpp -o {w}/{t} -lgtest -lgtest_main -lpthread && timeout 60 {w}/{t}",
                              shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True) for t in TESTS}
            for t, p in ps.items():
                o, _ = p.communicate()
                if p.returncode: res.setdefault("tests_failed", []).append(t); print(t, [l for l in o.splitlines() if "FAILED" in l or "error" in l][:5])
        c = sh(f"cd {V} && VH_REPO={w} VERIF_SEED=1 timeout 900 python3 run.py {meta['property']}"); res["check"] = c.returncode
        res["keys"] = [l.strip()[:110] for l in c.stdout.splitlines() if l.startswith("  ") and " at " in l][:3]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    ok = res.get("demo_clean") == 0 and res.get("demo_bug") not in (0, None) and "tests_failed" not in res and res["apply"] == 0
    rf = V + "/tools/seed_results.json"
    rs = json.load(open(rf)) if os.path.exists(rf) else {}
    rs[i] = (f"{meta['property']}: " + res["keys"][0].split(":")[0].split(" at ")[0] if res.get("keys") else meta["property"] + " (exit 1)") if res["check"] == 1 else "not caught"
    json.dump(dict(sorted(rs.items())), open(rf, "w"), indent=1)
    print(f"{i:28s} {meta['property']} {'valid' if ok else 'INVALID'} {'CAUGHT' if res['check']==1 else 'MISSED rc=%s'%res['check']} {res}", flush=True)
args = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in args: go(i, "--notest" in sys.argv)
