#!/usr/bin/env python3
"""Builds and runs the harnesses of one property against /repo's working tree.

usage: check.py C01 [--replay FILE] [--keep] [--list]
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, signal, threading, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "harness"))
import props  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
T0 = time.time()
SOFT = float(os.environ.get("VERIF_SOFT_DEADLINE", "800" if TIER == "quick" else "6000"))

def say(*a):
    print(*a, flush=True)

def run_pool(jobs, n):
    """jobs: list of callables; returns results in order"""
    res = [None] * len(jobs); q = queue.Queue()
    for i, j in enumerate(jobs): q.put((i, j))
    def w():
        while True:
            try: i, j = q.get_nowait()
            except queue.Empty: return
            try: res[i] = j()
            except Exception as e:  # noqa
                res[i] = e
    ts = [threading.Thread(target=w) for _ in range(min(n, max(1, len(jobs))))]
    [t.start() for t in ts]; [t.join() for t in ts]
    for r in res:
        if isinstance(r, Exception): raise r
    return res

def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, start_new_session=True, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        return -999, out.decode("utf-8", "replace")

def compile_job(b, work):
    objs = []
    def one(src, idx):
        o = os.path.join(work, f"{b['name']}.{idx}.o")
        cmd = [b.get("cxx", "g++"), "-std=" + b.get("std", "gnu++14"), "-w", "-DBOOST_ALL_NO_LIB=1"] + b.get("flags", ["-O1"]) + \
              ["-I" + os.path.join(ROOT, i) for i in b.get("shim", [])] + \
              ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness")] + \
              b.get("inc", []) + ["-D" + d for d in b.get("defs", [])] + \
              ["-MD", "-MF", o + ".d", "-c", os.path.join(ROOT, "harness", src), "-o", o]
        for attempt in range(2):
            rc, out = sh(cmd, timeout=700)
            if rc == 0: break
            if re.search(r"\berror:", out): break
        if rc != 0: return (src, rc, out, cmd)
        deps = open(o + ".d").read()
        if "/usr/include/boost/numeric/odeint" in deps:
            return (src, 99, "harness picked up the system copy of odeint", cmd)
        return (src, 0, o, cmd)
    return one

def build(spec, work):
    jobs = []; index = []
    for b in spec["builds"]:
        one = compile_job(b, work)
        for i, s in enumerate(b["src"]):
            jobs.append(lambda one=one, s=s, i=i: one(s, i)); index.append(b["name"])
    res = run_pool(jobs, NCPU)
    bins = {}; errors = []
    for name, r in zip(index, res):
        if r[1] != 0: errors.append((name,) + r)
    if errors: return None, errors
    for b in spec["builds"]:
        objs = [r[2] for name, r in zip(index, res) if name == b["name"]]
        exe = os.path.join(work, b["name"])
        lf = [] if b.get("nolinkflags") else [f for f in b.get("flags", []) if f.startswith("-fsan") or f == "-fopenmp"]
        rc, out = sh([b.get("cxx", "g++")] + lf + objs + ["-o", exe] + b.get("libs", []), timeout=300)
        if rc != 0: errors.append((b["name"], "link", rc, out, []))
        bins[b["name"]] = exe
    return bins, errors

def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=79"
    env["OMP_NUM_THREADS"] = "2"
    return env

def read_journal(path):
    try:
        d = open(path, "rb").read()
        n = int.from_bytes(d[0:4], "little"); ch = list(d[8:8 + min(n, 10000)])
        ctx = d[20000:24000].split(b"\0")[0].decode("utf-8", "replace")
        return ch, ctx
    except Exception:
        return [], ""

def known(prop):
    out = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    spec = props.PROPS[prop]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    work = tempfile.mkdtemp(prefix=f"odeint-mc-{prop}-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    try:
        return run(prop, spec, replay, work)
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: say("kept", work)

def run(prop, spec, replay, work):
    if replay:
        r = json.load(open(replay))
        if r.get("build") is None: say(r["msg"]); return 1
        spec = dict(spec, builds=[b for b in spec["builds"] if b["name"] == r["build"]])
    repdir = os.path.join(ROOT, "replays", prop)
    if not replay:
        shutil.rmtree(repdir, ignore_errors=True); os.makedirs(repdir, exist_ok=True)
    bins, errors = build(spec, work)
    tb = time.time() - T0
    found = []   # dicts: key,msg,build,body,choices,log
    infra = []
    stats = dict(executions=0, transitions=0, skipped=0, checks=0, outcomes=0, maxdepth=0)
    counters = {}; samples = []; bodies_done = {}; capped = []; state_set = set(); state_overflow = 0
    if errors:
        for name, src, rc, out, cmd in errors:
            errs = [l for l in out.splitlines() if "error" in l][:12]
            if rc == 99 or not errs: infra.append(f"build of {name}/{src} failed rc={rc}: {out[-2000:]}")
            else:
                found.append(dict(key=f"does-not-compile:{name}/{src}", msg="a program using the public interface no longer compiles: " + " | ".join(errs)[:1500], build=None, body=None, choices=[], log=out.splitlines()[:80], count=1))
        bins = None
    if bins is None:
        pass
    elif replay:
        b = [x for x in spec["builds"]][0]
        rc, out = sh([bins[b["name"]], "--body", r["body"], "--tier", r.get("tier", TIER), "--replay", ",".join(map(str, r["choices"]))], timeout=300, env=run_env())
        say(out); return 1 if rc else 0
    else:
        jobs = []
        for b in spec["builds"]:
            rc, out = sh([bins[b["name"]], "--list"], timeout=60, env=run_env())
            if rc != 0: infra.append(f"{b['name']} --list rc={rc} {out[-500:]}"); continue
            bodies = out.split()
            for body in bodies:
                cfg = dict(spec.get("body", {}).get("*", {}))
                for pat, extra in spec.get("body", {}).items():
                    if (pat.startswith("*.") and body.endswith(pat[1:])) or (pat.endswith(".*") and body.startswith(pat[:-1])): cfg.update(extra)
                cfg.update(spec.get("body", {}).get(body, {}))
                tcfg = cfg.get(TIER, cfg)
                ns = tcfg.get("shards", cfg.get("shards", 4)); bound = tcfg.get("bound", cfg.get("bound", 1000000))
                if tcfg.get("skip"): continue
                for s in range(ns): jobs.append((b, body, s, ns, bound))
        def mk(b, body, s, ns, bound):
            def f():
                left = SOFT - (time.time() - T0)
                if left < 5: return (b, body, s, -999, "", None, None)
                out = os.path.join(work, f"{b['name']}.{body}.{s}.json"); jr = out + ".journal"
                cmd = [bins[b["name"]], "--body", body, "--shard", f"{s}/{ns}", "--bound", str(bound), "--out", out, "--journal", jr, "--tier", TIER]
                rc, txt = sh(cmd, timeout=left, env=run_env(), cwd=work)
                return (b, body, s, rc, txt, out, jr)
            return f
        results = run_pool([mk(*j) for j in jobs], NCPU)
        for (b, body, s, rc, txt, out, jr) in results:
            tag = f"{b['name']}/{body}"
            if rc == -999: capped.append(f"{tag}#{s}"); continue
            if rc in (0, 1, 3) and os.path.exists(out):
                d = json.load(open(out))
                if rc == 3 or d["error"]: infra.append(f"{tag}#{s}: {d['error']} {txt[-300:]}")
                for k in ("executions", "transitions", "skipped", "checks", "outcomes"): stats[k] += d[k]
                stats["maxdepth"] = max(stats["maxdepth"], d["maxdepth"])
                for h in d["state_hashes"]: state_set.add((tag, h))
                state_overflow += max(0, d["states"] - len(d["state_hashes"]))
                for k, v in d["counters"].items(): counters[k] = counters.get(k, 0) + v
                bd = bodies_done.setdefault(tag, dict(executions=0, bound=d["bound"], outcomes=0)); bd["executions"] += d["executions"]; bd["outcomes"] += d["outcomes"]
                if len(samples) < 24: samples += [f"{tag}: {x}" for x in d["samples"][:2]]
                for v in d["violations"]: found.append(dict(v, build=b["name"], body=body))
            else:
                ch, ctx = read_journal(jr)
                kind = {77: "hang", 78: "memory-error", 79: "undefined-behaviour"}.get(rc, f"crash(rc={rc})")
                # replay the crashing execution alone before reporting it
                rc2, txt2 = sh([bins[b["name"]], "--body", body, "--journal", jr + "2", "--tier", TIER, "--replay", ",".join(map(str, ch))], timeout=200, env=run_env(), cwd=work)
                if rc2 == 0: infra.append(f"{tag}#{s}: {kind} did not replay: {ctx}: {txt[-1500:]}")
                else:
                    found.append(dict(key=f"{kind}:{ctx}", msg=f"[{ctx}] {kind}: " + " ".join(l for l in txt2.splitlines() if "ERROR" in l or "runtime error" in l or "Assert" in l)[:600], build=b["name"], body=body, choices=ch, log=txt2.splitlines()[-120:], count=1))
    kn = known(prop); new = {}; seen_known = {}
    for v in found:
        for k, desc in kn:
            if k == v["key"]: seen_known[k] = desc; break
        else: new.setdefault(v["key"], v)
    for k, desc in seen_known.items(): say(f"KNOWN-FINDING: property={prop} {desc}")
    n = 0
    for key, v in sorted(new.items()):
        n += 1
        if n > 25: break
        p = os.path.join(repdir, f"{n}.json")
        json.dump(dict(property=prop, tier=TIER, **v, how=f"python3 {ROOT}/bin/check.py {prop} --replay {p}"), open(p, "w"), indent=1)
        say(f"VIOLATION property={prop} replay={p}")
        say(f"   key={key} count={v.get('count', 1)}: {v['msg'][:500]}")
    wall = time.time() - T0
    nstates = len(state_set) + state_overflow
    ev = dict(property=prop, tier=TIER, seed=SEED, level=spec.get("level", "model_checking"), wall_s=round(wall, 1), violations=len(new),
              assumptions=spec.get("assumptions", []),
              coverage=dict(states=nstates, transitions=stats["transitions"], traces_validated_against_impl=stats["executions"],
                            oracle_comparisons=stats["checks"], distinct_outcomes=stats["outcomes"], max_choice_depth=stats["maxdepth"],
                            exhaustive=not capped and not infra, capped_jobs=capped, per_body=bodies_done, counters=counters,
                            build_s=round(tb, 1), samples=samples or ["none"], explanation=spec.get("explain", "")))
    if stats["checks"] in (stats["transitions"], stats["executions"]): del ev["coverage"]["oracle_comparisons"]   # one count, one name
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    say(f"{prop} {TIER}: executions={stats['executions']} states={nstates} transitions={stats['transitions']} comparisons={stats['checks']} outcomes={stats['outcomes']} capped={len(capped)} build={tb:.0f}s wall={wall:.0f}s violations={len(new)}")
    if new: return 1
    if infra:
        for i in infra: say("CHECK-ERROR:", i)
        return 2
    if stats["executions"] == 0: say("CHECK-ERROR: nothing was explored"); return 2
    if capped: say("note: wall-time cap reached for", len(capped), "jobs; everything below the cap was explored")
    return 0

if __name__ == "__main__":
    sys.exit(main())
