#!/usr/bin/env python3
"""Driver: builds one property's harness from /repo's working tree, runs it under its monitors and
sanitizers, and turns what they observed into a verdict and an evidence file.

  run.py ID                 quick or thorough run (VERIF_TIER), seed from VERIF_SEED
  run.py ID --replay FILE   repeats the single recorded case
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

SAN_LIGHT = ("-fsanitize=address,bounds,signed-integer-overflow,shift,float-cast-overflow,return,"
             "unreachable,enum,bool,integer-divide-by-zero")
MODES = {
    # fast address + selected undefined-behaviour checks
    "asan": ["clang++", "-O1", SAN_LIGHT, "-fno-sanitize-recover=all", "-gline-tables-only"],
    # everything
    "full": ["clang++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-gline-tables-only",
             "-D_GLIBCXX_ASSERTIONS"],
    "gccfull": ["g++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["clang++", "-O1", "-fsanitize=thread", "-gline-tables-only"],
    # plain optimised build; Eigen and repo assertions stay on
    "plain": ["clang++", "-O1"],
    "vgplain": ["clang++", "-O1", "-gdwarf-4", "-gline-tables-only"],
    "gccplain": ["g++", "-O1"],
    "msan": ["clang++", "-O1", "-fsanitize=memory", "-gline-tables-only"],
}
ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1",
}
BASE = ["-std=c++20", "-I", f"{REPO}/include", "-I", f"{VERIF}/harness"]
EIGEN = ["-isystem", "/usr/include/eigen3"]


CPU = threading.BoundedSemaphore(8)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(d + "/**/*", recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode())
                h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_all(chk, build, log, exe_name="harness"):
    """one object per source, in parallel; objects are cached by content of everything they can include"""
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    treeh = tree_hash([REPO + "/include", VERIF + "/harness", VERIF + "/shim"])
    jobs = []
    for i, src in enumerate(chk["src"]):
        mode = chk.get("mode", "asan")
        extra = []
        if isinstance(src, (list, tuple)):
            src, opt = src
            mode = opt.get("mode", mode)
            extra = opt.get("flags", [])
        cmd = MODES[mode] + BASE + EIGEN + [f.replace("@VERIF@", VERIF) for f in chk.get("flags", []) + extra]
        key = hashlib.sha256((treeh + repr(cmd) + src).encode()).hexdigest()[:32]
        jobs.append((src, cmd, os.path.join(cache, key + ".o")))

    def one(j):
        src, cmd, obj = j
        if os.path.exists(obj) and not os.environ.get("VH_NOCACHE"):
            return (src, 0, "", 0)
        t = time.time()
        tmp = f"{obj}.{os.getpid()}.tmp.o"
        r = subprocess.run(cmd + ["-c", os.path.join(VERIF, "harness", src), "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            os.replace(tmp, obj)
        return (src, r.returncode, r.stdout, time.time() - t)

    def slot(j):
        with CPU:
            return one(j)

    with cf.ThreadPoolExecutor(16) as ex:
        res = list(ex.map(slot, jobs))
    for src, rc, out, dt in res:
        log.append(f"compile {src}: rc={rc} {dt:.1f}s")
        if rc:
            sys.stderr.write(out[:6000] + "\n")
            return None
    exe = os.path.join(build, exe_name)
    link = MODES[chk.get("link_mode", chk.get("mode", "asan"))] + ["-o", exe] + [j[2] for j in jobs] + chk.get("libs", []) + ["-lpthread"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[:4000] + "\n")
        return None
    prune_cache(cache)
    return exe


def prune_cache(cache):
    fs = sorted(glob.glob(cache + "/*.o"), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    while fs and tot > 3 << 30:
        tot -= os.path.getsize(fs[0])
        os.unlink(fs.pop(0))


def run_once(exe, chk, build, env_extra, args=(), timeout=600):
    out = os.path.join(build, "out.jsonl")
    cur = os.path.join(build, "cur")
    for f in (out, cur):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ)
    env.update(ENV_SAN)
    env.update({"VH_OUT": out, "VH_CUR": cur, "VH_SIG": os.path.join(build, "sig"), "TMPDIR": build, "HOME": build})
    env.update(chk.get("env", {}))
    env.update(env_extra)
    p = subprocess.Popen([*chk.get("wrap", []), exe, *args], cwd=build, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        so, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        so, _ = p.communicate()
        rc = "timeout"
    ev = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
    c = ""
    if os.path.exists(cur):
        c = open(cur, "rb").read().split(b"\0")[0].decode("utf8", "replace")
    return rc, so, ev, c


def crash_key(rc, so):
    if rc == 77:
        return "hang"
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([\w-]+(?: race)?)", so)
    if m:
        return f"{m.group(1)}:{m.group(2)}"
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Syscall param)", so)
    if m:
        return "memcheck:" + m.group(1).replace(" ", "-")
    m = re.search(r"([\w./]+):\d+:\d+: runtime error: (.{0,60})", so)
    if m:
        return "UBSan:" + os.path.basename(m.group(1))
    m = re.search(r"([\w./]+):\d+: .*Assertion `(.{0,80})", so)
    if m:
        return "assert:" + os.path.basename(m.group(1))
    if "terminate called" in so or "libc++abi" in so:
        return "exception"
    return f"crash:{rc}"


def salient(so):
    keep = [l for l in so.splitlines() if re.search(r"Sanitizer|runtime error|Assertion|terminate|what\(\)|WARNING|==\d+== +(Cond|Use|Inval|at|by)|#[0-9] .*(repo|smooth)", l)]
    return "\n".join(keep[:14])[:1800] or so[-800:]


SHARDS = 6
CAPS = json.load(open(os.path.join(VERIF, "caps.json"))) if os.path.exists(os.path.join(VERIF, "caps.json")) else {}


def run_stage(pid, chk, exe, build, envx, args):
    """The cases of a stage, dealt out to several processes (a case depends on seed, group and index only)."""
    n = 1 if args else chk.get("shards", SHARDS)

    def part(k):
        d = os.path.join(build, f"{os.path.basename(exe)}-{k}")
        os.makedirs(d, exist_ok=True)
        return run_shard(pid, chk, exe, d, {**envx, "VH_SHARD": f"{k}/{n}"}, args), d

    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(part, range(n)))
    if any(r is None for r, _ in rs):
        return None
    out = dict(viols=[], counters={}, worst={}, samples=[], cases=0, distinct=0, inconclusive=[], done=True)
    sigs = set()
    for r, d in rs:
        for k in ("viols", "inconclusive"):
            out[k] += r[k]
        out["cases"] += r["cases"]
        out["done"] = out["done"] and r["done"]
        for k, v in r["counters"].items():
            out["counters"][k] = out["counters"].get(k, 0) + v
        for k, v in r["worst"].items():
            o = out["worst"].get(k)
            if o is None or isinstance(v, str) or (not isinstance(o, str) and v > o):
                out["worst"][k] = v
        if os.path.exists(d + "/sig"):
            a = array.array("Q")
            a.frombytes(open(d + "/sig", "rb").read())
            sigs.update(a)
    for i in range(max(len(r["samples"]) for r, _ in rs)):
        out["samples"] += [r["samples"][i] for r, _ in rs if i < len(r["samples"])]
    out["distinct"] = len(sigs)
    out["viols"].sort(key=lambda v: (str(v.get("group")), v.get("case") or 0))
    return out


def run_shard(pid, chk, exe, build, envx, args):
    viols, counters, worst, samples, cases, distinct = [], {}, {}, [], 0, 0
    inconclusive = []
    resume = {}
    done = False
    t_start = time.time()
    for attempt in range(8):
        if attempt and time.time() - t_start > 240:
            break
        rc, so, ev, cur = run_once(exe, chk, build, {**envx, **resume}, args)
        viols += [e for e in ev if e["ev"] == "viol"]
        fin = [e for e in ev if e["ev"] == "done"]
        if fin:
            f = fin[-1]
            cases += f["cases"]
            distinct += f["distinct"]
            for k, v in f["counters"].items():
                counters[k] = counters.get(k, 0) + v
            for k, v in f["worst"].items():
                if isinstance(v, str) or (not isinstance(worst.get(k, 0), str) and v > worst.get(k, -1)):
                    worst[k] = v
            samples += f["samples"]
            done = True
            if rc in (0, 1):
                break
            # finished its cases but a sanitizer reported at exit
            viols.append({"key": crash_key(rc, so), "group": "exit", "case": 0, "what": salient(so), "detail": "at process exit"})
            break
        m = re.match(r"(\S*)/(\d+) ?(.*)", cur, re.S)
        grp, idx, det = (m.group(1), int(m.group(2)), m.group(3)) if m else ("", 0, cur)
        if rc in (-9, "timeout", 137) or (rc == 77):
            # possibly machine load / memory guard: repeat that case alone before believing it
            rc2, so2, ev2, _ = run_once(exe, chk, build, envx, ["--group", grp, "--case", str(idx)] if grp else args, timeout=200)
            if rc2 in (0, 1):
                inconclusive.append(f"{grp}/{idx} rc={rc}, fine when repeated")
                if not grp:
                    break
                viols += [e for e in ev2 if e["ev"] == "viol" and e not in viols]
            elif rc2 in (-9, 137):
                print(f"ERROR property={pid}: harness killed twice ({rc}, {rc2})")
                return None
            else:
                key = "hang" if rc2 in ("timeout", 77) else crash_key(rc2, so2)
                viols.append({"key": key, "group": grp, "case": idx, "what": salient(so2), "detail": det})
        else:
            viols.append({"key": crash_key(rc, so), "group": grp, "case": idx, "what": salient(so), "detail": det})
        if args or not grp:
            break
        resume = {"VH_FROM_GROUP": grp, "VH_FROM_CASE": str(idx + 1)}
    return dict(viols=viols, counters=counters, worst=worst, samples=samples, cases=cases, distinct=distinct,
                inconclusive=inconclusive, done=done)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid = a.id
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    log = []
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    build = tempfile.mkdtemp(prefix=f"{pid}-", dir=os.path.join(VERIF, "build"))
    try:
        return go(a, pid, chk, tier, seed, t0, log, build)
    finally:
        shutil.rmtree(build, ignore_errors=True)


def go(a, pid, chk, tier, seed, t0, log, build):
    stages = [{**chk, **st} for st in chk.get("stages", [{}])]
    with cf.ThreadPoolExecutor(len(stages)) as ex:
        exes = list(ex.map(lambda i: compile_all(stages[i], build, log, f"harness{i}"), range(len(stages))))
    if any(e is None for e in exes):
        print(f"ERROR property={pid}: harness does not build against {REPO}")
        return 2
    t_build = time.time() - t0
    envx = {"VERIF_SEED": str(seed), "VERIF_TIER": tier}
    args = []
    only_stage = None
    if a.replay:
        rp = json.load(open(a.replay))
        envx.update({"VERIF_SEED": str(rp["seed"]), "VERIF_TIER": rp["tier"]})
        args = ["--group", rp["group"], "--case", str(rp["case"])]
        only_stage = rp.get("stage")

    viols, counters, worst, samples, inconclusive = [], {}, {}, [], []
    cases = distinct = 0
    done = True
    for i, st in enumerate(stages):
        if only_stage not in (None, i):
            continue
        b = st.get("thorough_budget" if tier == "thorough" else "budget", 300 if tier == "thorough" else 10)
        d = {"VH_BUDGET": str(b * float(os.environ.get("VH_LONGER", "1")))}
        if os.environ.get("VH_REACH"):
            d["VH_REACH"] = f"{os.environ['VH_REACH']}.{pid}.{i}"
        elif tier == "quick" and not a.replay:
            d["VH_CAPS"] = ";" + ";".join(f"{g}={c}" for g, c in CAPS.get(f"{pid}/{i}", {}).items())
        r = run_stage(pid, st, exes[i], build, {**envx, **d}, args)
        if r is None:
            return 2
        for v in r["viols"]:
            v["stage"] = i
        viols += r["viols"]
        pre = f"stage{i}:" if len(stages) > 1 else ""
        for k, v in r["counters"].items():
            counters[pre + k] = counters.get(pre + k, 0) + v
            if pre:
                counters[k] = counters.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[pre + k] = v
        samples += r["samples"]
        inconclusive += r["inconclusive"]
        cases += r["cases"]
        distinct = max(distinct, r["distinct"])
        done = done and r["done"]

    # known findings
    known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json"))) if k["property"] == pid]
    live = [k for k in known if k.get("status") != "fixed"]
    new = []
    for v in viols:
        v["seed"], v["tier"] = seed, tier
        txt = f"{v.get('group')}/{v.get('case')} {v.get('what')} {v.get('detail')}"
        if any(v["key"] == k["key"] and re.search(k["match"], txt) for k in live):
            continue
        new.append(v)
    for k in live:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    short = [r for r in chk.get("require", []) if counters.get(r, 0) <= 0]
    nothing = (not done or cases == 0 or short) and not viols and not a.replay
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"),
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": distinct, "rule": chk["rule"],
            "samples": samples[:12] or ["(none: run ended early)"],
            "observed_events": counters, "worst_observed_over_allowed": worst,
            "inconclusive": inconclusive, "instrumentation": [" ".join([*st.get("wrap", [])[:1], *MODES[st.get("mode", "asan")]]) for st in stages],
            "build_log": log,
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} tier={tier} seed={seed} cases={cases} distinct={distinct} violations={len(new)} "
          f"build={t_build:.1f}s wall={time.time()-t0:.1f}s")
    if new:
        rd = os.path.join(VERIF, "replays", pid)
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            fn = os.path.join(rd, re.sub(r"[^\w.-]", "_", f"{v['key']}-{v['group']}-{v['case']}-s{seed}") + ".json")
            with open(fn, "w") as f:
                json.dump(v, f, indent=1)
            print(f"  {v['key']} at {v['group']}/{v['case']}: {v['what'][:400]}\n    {v['detail'][:500]}")
            print(f"VIOLATION property={pid} replay={fn}")
            if len(seen) >= 8:
                break
        return 1
    if nothing:
        print(f"ERROR property={pid}: monitors observed nothing (missing: {short}); no verdict")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
