#!/usr/bin/env python3
"""Driver: builds the engine and the harnesses from /repo's current tree, runs the symbolic executor, replays models, reports.

  vf.py setup                        build everything once
  vf.py check C05 [--tier T]         decide one property (exit 0 held, 1 violated, 2 no answer)
  vf.py run ENTRY [engine options]   one harness, engine output on stdout
  vf.py replay FILE                  run a replay file natively
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
ENGINE = os.path.join(ROOT, "engine")
HARNESS = os.path.join(ROOT, "harness")
SYMEX = os.path.join(ENGINE, "target/release/symex")
TOOLCHAIN = "stable"
CORES = min(8, os.cpu_count() or 1)


def env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith("CARGO_") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "RUSTC")}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    return e


def sh(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError(f"{what} failed ({p.returncode}):\n" + "\n".join(p.stdout.splitlines()[-40:]))
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline"], ENGINE, "engine build")


def tool(name):
    root = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True).stdout.strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)


def target_dir(feature):
    return os.path.join(HARNESS, "target", feature)


def build_ir(feature):
    """returns (binary, ll)"""
    t = target_dir(feature)
    sh(["cargo", "rustc", "--offline", "--bin", "harness", "--no-default-features", "--features", feature, "--target-dir", t, "--",
        "-C", "save-temps", "--emit=llvm-ir,link", "-A", "warnings"], HARNESS, "harness build")
    deps = os.path.join(t, "debug/deps")
    bcs = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".lto.input.bc")]
    bc = max(bcs, key=os.path.getmtime)
    binary = os.path.join(t, "debug/harness")
    names = subprocess.run([binary, "--list"], capture_output=True, text=True).stdout.split()
    h1, h2, ll = (os.path.join(t, x) for x in ("h1.bc", "h2.bc", "h.ll"))
    sh([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(names + ["sym_at_exit"]), bc, "-o", h1], t, "opt (1)")
    sh([tool("opt"), "-passes=function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,adce),globaldce", h1, "-o", h2], t, "opt (2)")
    sh([tool("llvm-dis"), h2, "-o", ll], t, "llvm-dis")
    for f in [h1, h2] + [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("harness-") and (f.endswith(".bc") and not f.endswith(".lto.input.bc") or f.endswith(".ll"))]:
        os.unlink(f)
    return binary, ll


def merge(o):
    """combine the parts of a parallel run"""
    parts = o.get("parts", [o])
    r = {"complete": all(p.get("complete", False) for p in parts), "violations": [], "samples": [], "functions": set(), "asserts": {}, "covers": {}, "engine_errors": {}}
    for k in ("paths", "assumed", "forks", "steps", "queries", "sat", "unsat", "unknown", "cache_hits", "exprs"):
        r[k] = sum(p.get(k, 0) for p in parts)
    r["solver_secs"] = round(sum(p.get("solver_secs", 0) for p in parts), 3)
    for k in ("max_path_steps", "max_query_secs", "secs"):
        r[k] = max([p.get(k, 0) for p in parts] or [0])
    for p in parts:
        if "worker_failed" in p:
            r["engine_errors"]["a worker process failed"] = r["engine_errors"].get("a worker process failed", 0) + 1
        for k in ("asserts", "covers", "engine_errors"):
            for n, c in p.get(k, {}).items():
                r[k][n] = r[k].get(n, 0) + c
        r["violations"] += p.get("violations", [])
        r["samples"] += p.get("samples", [])
        r["functions"] |= set(p.get("functions", []))
        if p.get("z3"):
            r["z3"] = p["z3"]
    return r


def symex(ll, entry, jobs=1, max_time=300, max_steps=50_000_000, samples=12, known=(), seed=1, extra=()):
    cmd = [SYMEX, "--ll", ll, "--entry", entry, "--jobs", str(jobs), "--max-time", str(max_time), "--max-steps", str(max_steps),
           "--samples", str(samples), "--seed", str(seed)]
    # paths with huge allocations are given up, the others go on
    for k in list(known) + ["allocation above 64 MiB"]:
        cmd += ["--known", k]
    cmd += list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max_time + 120)
    if p.returncode != 0:
        raise RuntimeError(f"symex {entry} ended with {p.returncode}: {p.stderr[-800:]}")
    return merge(json.loads(p.stdout))


def write_replay(path, entry, feature, inputs, head=()):
    with open(path, "w") as f:
        f.write(f"# harness {entry} feature {feature}\n")
        for h in head:
            for l in str(h).splitlines():
                f.write("# " + l + "\n")
        for tag, vals in inputs:
            f.write(tag + " " + " ".join(str(v) for v in vals) + "\n")


def native(binary, entry, replay, timeout=20):
    """returns (kind, text, trace)"""
    d = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        os.mkdir(os.path.join(d, "symfs"))
        try:
            p = subprocess.run([binary, entry, os.path.abspath(replay)], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               preexec_fn=limit_memory)
        except subprocess.TimeoutExpired:
            return "hang", f"no result after {timeout} s", []
        out = p.stdout.decode("utf8", "replace")
        trace = re.findall(r"^TRACE ?(.*)$", out, re.M)
        m = re.search(r"^RESULT (.*)$", out, re.M)
        text = m.group(1) if m else f"ended with {p.returncode}: " + p.stderr.decode("utf8", "replace")[-300:]
        kind = {0: "ok", 10: "assert", 11: "panic", 12: "assume", 13: "diverged"}.get(p.returncode, "crash")
        if not m:
            kind = "crash"
        return kind, text, trace
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


# which native outcomes confirm which kind of violation
CONFIRMS = {"assert": {"assert"}, "panic": {"panic", "crash"}, "hang": {"hang", "crash"}, "abort": {"crash", "panic"}, "memory": {"crash", "panic", "hang"},
            "stack-overflow": {"crash"}, "alloc": {"crash", "panic"}, "div0": {"panic", "crash"}, "unreachable": {"crash", "panic", "hang", "assert"}}


def known_findings():
    r = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) id=(\S+) (.*)", l)
            if m:
                r.append(dict(property=m[1], harness=m[2], id=m[3], what=m[4].strip()))
    return r


def check(pid, tier):
    import checks
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[pid]
    todo = [h for h in spec["harnesses"] if tier in h.get("tiers", ("quick", "thorough"))]
    features = sorted({h["feature"] for h in todo})
    evfile = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    if os.path.exists(evfile):
        os.unlink(evfile)
    with cf.ThreadPoolExecutor(4) as ex:
        fe = ex.submit(build_engine)
        fi = {f: ex.submit(build_ir, f) for f in features}
        try:
            fe.result()
            irs = {f: x.result() for f, x in fi.items()}
        except RuntimeError as e:
            print(e)
            print(f"NO-ANSWER property={pid} the build failed")
            return 2
    tb = time.time() - t0
    known = [k for k in known_findings() if k["property"] == pid]
    lock = threading.Condition()
    free = [CORES]
    stop = threading.Event()

    def one(h):
        jobs = min(h.get("jobs", 1), CORES)
        with lock:
            while free[0] < jobs:
                lock.wait()
            free[0] -= jobs
        try:
            if stop.is_set():
                return h, None
            ks = [k["id"] for k in known if k["harness"] == h["entry"]]
            mt = h.get("max_time", 240)
            return h, symex(irs[h["feature"]][1], h["entry"], jobs, mt, h.get("max_steps", 50_000_000), h.get("samples", 12), ks, seed)
        finally:
            with lock:
                free[0] += jobs
                lock.notify_all()

    results, errors = [], []
    with cf.ThreadPoolExecutor(16) as ex:
        # big ones first
        futs = [ex.submit(one, h) for h in sorted(todo, key=lambda h: -h.get("jobs", 1))]
        for f in cf.as_completed(futs):
            try:
                h, r = f.result()
                if r is None:
                    continue
                results.append((h, r))
                if any(v["kind"] != "alloc" and not any(k["harness"] == h["entry"] and k["id"] == v["id"] for k in known) for v in r["violations"]):
                    stop.set()
            except Exception as e:
                errors.append(str(e))
    # ---- judge
    rc = 0
    viol_lines, notes = [], []
    seen_known = {}
    mismatches, toolarge = [], []
    validated = compared = 0
    samples_out = []
    jobs_native = []
    tmp = tempfile.mkdtemp(prefix="vf-")
    replays = []
    for h, r in results:
        per = {}
        for n, v in enumerate(r["violations"]):
            # workers may report the same thing several times
            per[v["kind"], v["id"]] = per.get((v["kind"], v["id"]), 0) + 1
            if per[v["kind"], v["id"]] > 3:
                continue
            path = os.path.join(ROOT, "evidence", "replay", f"{pid}-{h['entry']}-{n}.txt")
            write_replay(path, h["entry"], h["feature"], v["inputs"],
                         [f"property {pid}: {v['kind']} {v['id']}", "replay: python3 /verif/tools/vf.py replay " + path, "stack: " + " < ".join(v["stack"][:12])])
            replays.append((h, v, path))
    with cf.ThreadPoolExecutor(CORES) as ex:
        outcomes = list(ex.map(lambda j: native(irs[j[0]["feature"]][0], j[0]["entry"], j[2]), replays))
    for (h, v, path), (kind, text, _) in zip(replays, outcomes):
        kn = [k for k in known if k["harness"] == h["entry"] and k["id"] == v["id"]]
        ok = kind in CONFIRMS.get(v["kind"], set()) and (kind != "assert" or text == "assert " + v["id"])
        if kn:
            if ok:
                seen_known[kn[0]["what"]] = kn[0]
            else:
                mismatches.append(f"{h['entry']}: known finding {v['id']} does not reproduce natively: {kind} {text}")
        elif ok:
            viol_lines.append((path, f"{h['entry']}: {v['kind']} {v['id']}; natively: {text}"))
        elif v["kind"] == "alloc":
            toolarge.append(f"{h['entry']}: paths with an allocation above 64 MiB are not followed ({path})")
        else:
            mismatches.append(f"{h['entry']}: {v['kind']} {v['id']} does not reproduce natively: {kind} {text} ({path})")
    for h, r in results:
        binary = irs[h["feature"]][0]
        for n, s in enumerate(r["samples"][: h.get("samples", 12)]):
            p = os.path.join(tmp, f"{h['entry']}-{n}.txt")
            write_replay(p, h["entry"], h["feature"], s["inputs"])
            jobs_native.append((h, binary, p, s))

    def val(j):
        h, binary, p, s = j
        kind, text, tr = native(binary, h["entry"], p)
        return j, kind, text, tr

    with cf.ThreadPoolExecutor(CORES) as ex:
        for (h, binary, p, s), kind, text, tr in ex.map(val, jobs_native):
            compared += 1
            if kind == "ok" and tr == s["trace"]:
                validated += 1
                if len(samples_out) < 8:
                    samples_out.append({"harness": h["entry"], "inputs": [[t, v if len(v) <= 64 else v[:64]] for t, v in s["inputs"]], "observed": [t[:200] for t in s["trace"]][:12]})
            else:
                mismatches.append(f"{h['entry']}: a path of the engine and the native run differ ({kind} {text}); engine {s['trace'][:6]} native {tr[:6]} inputs {s['inputs']}")
    shutil.rmtree(tmp, ignore_errors=True)
    incomplete, vacuous, harness_ev = [re.sub(r' \(.*', '', t) for t in toolarge], [], []
    incomplete = sorted(set(incomplete))
    tot = dict(paths=0, forks=0, steps=0, queries=0, unsat=0, sat=0, unknown=0, assumed=0, solver=0.0, asserts=0)
    funcs, z3 = set(), ""
    for h, r in results:
        if not r["complete"] or r["unknown"] or r["engine_errors"]:
            if not r["violations"] or r["engine_errors"] or r["unknown"]:
                incomplete.append(f"{h['entry']}: complete={r['complete']} paths={r['paths']} unknown={r['unknown']} engine_errors={dict(list(r['engine_errors'].items())[:4])}")
        missing = [c for c in h.get("covers", []) if c not in r["covers"]]
        if missing and r["complete"] and not r["violations"]:
            vacuous.append(f"{h['entry']}: never reached {missing}")
        if r["paths"] + len(r["violations"]) == 0:
            errors.append(f"{h['entry']}: no path was completed: {r['engine_errors']}")
        harness_ev.append({"harness": h["entry"], "bounds": h["bounds"], "complete": r["complete"], "paths": r["paths"], "forks": r["forks"], "assumed_away": r["assumed"],
                           "instructions": r["steps"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"], "unknown": r["unknown"], "cache_hits": r["cache_hits"],
                           "solver_s": r["solver_secs"], "max_query_s": r["max_query_secs"], "wall_s": r["secs"], "assertions": r["asserts"], "reached": r["covers"]})
        for a, b in (("paths", "paths"), ("forks", "forks"), ("steps", "steps"), ("queries", "queries"), ("unsat", "unsat"), ("sat", "sat"), ("unknown", "unknown"), ("assumed", "assumed")):
            tot[a] += r[b]
        tot["solver"] += r["solver_secs"]
        tot["asserts"] += sum(r["asserts"].values())
        funcs |= {f for f in r["functions"] if "ratelmq" in f or "passwd" in f}
        z3 = r.get("z3", z3)
    if viol_lines:
        rc = 1
    elif errors or vacuous or (mismatches and not viol_lines):
        rc = 2
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": validated, "samples": samples_out[:8] or [{"none": "stopped at the first violation"}],
                       "exhaustive": not incomplete and not errors and rc == 0,
                       "meaning": "states: symbolic paths carried to the end; transitions: feasible branch, choice and concretisation splits; every assertion is decided by Z3 for all inputs of its path",
                       "assertion_checks": tot["asserts"], "instructions": tot["steps"], "paths_cut_by_assumptions": tot["assumed"],
                       "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver"], 3), "solver": "Z3 " + z3,
                       "harnesses": sorted(harness_ev, key=lambda x: x["harness"]), "functions_encoded": sorted(funcs), "traces_compared": compared,
                       "incomplete": incomplete, "not_reached": vacuous, "mismatches": mismatches[:10], "errors": errors[:10], "build_s": round(tb, 1)},
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol_lines)}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for l in incomplete:
        print("INCOMPLETE", l)
    for l in errors + vacuous + mismatches[:5]:
        print("PROBLEM", l)
    for p, l in viol_lines:
        print("VIOLATED", l)
        print(f"VIOLATION property={pid} replay={p}")
    print(f"{pid} {tier}: {tot['paths']} paths, {tot['queries']} queries ({tot['unsat']} unsat), {tot['asserts']} assertion checks, {validated}/{compared} paths agree natively, build {tb:.0f} s, total {time.time()-t0:.0f} s -> exit {rc}")
    return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        with cf.ThreadPoolExecutor(2) as ex:
            import checks
            fs = [ex.submit(build_engine)] + [ex.submit(build_ir, f) for f in sorted({h["feature"] for c in checks.CHECKS.values() for h in c["harnesses"]})]
            for f in fs:
                f.result()
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a[0] == "build":
        build_engine()
        print(build_ir(a[1]))
        return 0
    if a[0] == "run":
        feature, entry = a[1], a[2]
        os.execv(SYMEX, [SYMEX, "--ll", os.path.join(target_dir(feature), "h.ll"), "--entry", entry] + a[3:])
    if a[0] == "replay":
        m = re.match(r"# harness (\S+) feature (\S+)", open(a[1]).readline())
        binary, _ = build_ir(m[2])
        kind, text, tr = native(binary, m[1], a[1], 60)
        for t in tr:
            print("TRACE", t)
        print(kind, text)
        return 0 if kind == "ok" else 1
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
