#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS]

Decides one property: builds the engine and the harness crate against /repo's working tree,
explores every path of the property's harnesses symbolically, replays counterexamples
natively, and writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no answer.
"""
import sys, os, json, re, subprocess, time, glob, fcntl, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import spec

T0 = time.time()
SKIP = []   # assertions of other properties: not evaluated
CORES = os.cpu_count() or 4
TC = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu"

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def die(msg):
    log("NO ANSWER:", msg)
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("RUSTFLAGS", None)
    return e

def build_engine():
    e = env(); e["CARGO_TARGET_DIR"] = HERE + "/build/engine"
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HERE + "/engine", env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "engine build failed:\n" + p.stdout[-4000:]
    return None

def build_crate(c):
    p = subprocess.run(["bash", HERE + "/build_ir.sh", c], env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "build of %s failed:\n%s" % (c, p.stdout[-6000:])
    return None

def build(crates):
    os.makedirs(HERE + "/build", exist_ok=True)
    with open(HERE + "/build/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # /repo's Cargo.lock is git-ignored and not needed by the harness crates (they have their own)
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(build_engine)] + [ex.submit(build_crate, c) for c in crates]
            for f in fs:
                r = f.result()
                if r:
                    die(r)

def libllvm():
    g = glob.glob(TC + "/lib/libLLVM.so.*")
    if not g:
        die("libLLVM of the toolchain not found")
    return g[0]

def explore(crate, h, param, jobs, secs, opts):
    cmd = [HERE + "/build/engine/release/vpse", "--llvm", libllvm(), "--ir",
           "%s/build/%s/%s.ll" % (HERE, crate, crate), "--entry", h, "--param", str(param),
           "--jobs", str(jobs), "--secs", str(secs), "--skip", ",".join(SKIP)] + opts
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
        out, rc, er = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:
        out, rc, er = "", -1, "timeout"
    r = dict(harness=h, param=param, stat={}, checks={}, covers={}, viols=[], errors={}, samples=[], funcs=set(),
             solver="", wall=time.time() - t)
    end = False
    for l in out.splitlines():
        f = l.split("\t")
        k = f[0]
        if k == "STAT":
            for kv in f[1:]:
                a, b = kv.split("=")
                b = int(b)
                if a.startswith("max_") or a in ("z3_max_ms",):
                    r["stat"][a] = max(r["stat"].get(a, 0), b)
                else:
                    r["stat"][a] = r["stat"].get(a, 0) + b
        elif k == "CHECK": r["checks"][f[1]] = r["checks"].get(f[1], 0) + int(f[2])
        elif k == "COVER": r["covers"].setdefault(f[1], f[2])
        elif k == "VIOL": r["viols"].append(dict(kind=f[1], id=f[2], model=f[3], trace=f[4]))
        elif k == "ERROR": r["errors"][f[1]] = r["errors"].get(f[1], 0) + int(f[2])
        elif k == "SAMPLE": r["samples"].append((f[1], f[2]))
        elif k == "FUNC": r["funcs"].add(f[1])
        elif k == "SOLVER": r["solver"] = f[1]
        elif k == "END": end = True
    if not end:
        r["errors"]["engine ended with status %s: %s" % (rc, er[-600:])] = 1
    return r

def native(crate, h, param, model, timeout=20):
    e = dict(os.environ); e["VP_REPLAY"] = model; e["VP_PARAM"] = str(param); e["RUST_BACKTRACE"] = "0"
    e["VP_SKIP"] = ",".join(SKIP)
    try:
        p = subprocess.run(["%s/build/%s/release/%s" % (HERE, crate, crate), h], env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, cwd="/tmp",
                           preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CORE, (0, 0)))
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

def known():
    """lines 'finding: property=<id> match=<regex> :: <what fails>' of KNOWN_FINDINGS"""
    o = []
    try:
        for l in open(HERE + "/KNOWN_FINDINGS"):
            m = re.match(r"finding: property=(\S+) match=(\S+) :: (.*)", l.strip())
            if m:
                o.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return o

def demangle(n):
    # enough of v0 mangling to name functions in the evidence
    parts = re.findall(r"(?<![0-9])(\d{1,3})_?([A-Za-z_][A-Za-z0-9_]*)", n)
    out = []
    for k, s in parts:
        k = int(k)
        if len(s) >= k > 1:
            out.append(s[:k])
    return "::".join(out) if out else n

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier": tier = a[1]
        if a[0] == "--only": only = a[1]
        a = a[2:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = spec.CHECKS[prop]
    SKIP[:] = [p for p in spec.PREFIXES if not re.search(c.get("ids", "."), "check:" + p)]
    runs = [r for r in c["runs"] if not only or r["h"] == only]
    budget = 600 if tier == "quick" else 780
    build(sorted({r["crate"] for r in runs}))
    log("built")
    todo = []
    for r in runs:
        for p in r["quick"] if tier == "quick" else r["thorough"]:
            todo.append((r, p, p in r["heavy"], False))
        if tier == "thorough":
            todo += [(r, p, True, True) for p in r["deep"]]
    ndeep = sum(t[3] for t in todo)
    if tier == "thorough":
        budget = int(os.environ.get("VP_BUDGET", "780"))
    results = []
    heavy = [t for t in todo if t[2] and not t[3]]
    light = [t for t in todo if not t[2]]
    def go(t, jobs):
        r, p, _, deep = t
        left = max(30, min(r.get("cap", 300 if tier == "quick" else 700), budget - (time.time() - T0)))
        x = explore(r["crate"], r["h"], p, jobs, left, r.get("opts", []))
        x["crate"] = r["crate"]; x["spec"] = r; x["deep"] = deep
        log("%s(%s): paths=%s forks=%s z3=%s %.1fs viol=%d err=%d" % (r["h"], p, x["stat"].get("paths"),
            x["stat"].get("forks"), x["stat"].get("z3"), x["wall"], len(x["viols"]), len(x["errors"])))
        return x
    with cf.ThreadPoolExecutor(CORES) as ex:
        results += list(ex.map(lambda t: go(t, 1), light))
    for t in heavy:
        results.append(go(t, CORES))
    unfinished = []
    for i, t in enumerate([t for t in todo if t[3]]):
        cap = (budget - (time.time() - T0)) / (ndeep - i)
        if cap < 20:
            unfinished.append("%s(%s): not started" % (t[0]["h"], t[1]))
            continue
        r = dict(t[0]); r["cap"] = cap
        x = go((r, t[1], True, True), CORES)
        lim = [e for e in x["errors"] if e.startswith("time limit")]
        if lim:
            unfinished.append("%s(%s): %s paths in %.0f s" % (x["harness"], x["param"], x["stat"].get("paths"), x["wall"]))
        for e in lim: del x["errors"][e]
        results.append(x)

    problems, viols, knownhits = [], [], []
    validated = mism = 0
    samples = []
    kf = known()
    ids = re.compile(c.get("ids", "."))
    ignored = 0
    for x in results:
        tag = "%s(%s)" % (x["harness"], x["param"])
        for v in x["viols"]:
            if not ids.search("%s:%s" % (v["kind"], v["id"])):
                log("not of this property: %s %s: %s" % (tag, v["kind"], v["id"][:160]))
                ignored += 1
                continue
            rc, so, se = native(x["crate"], x["harness"], x["param"], v["model"], 4 if v["kind"] == "steps" else 20)
            fail = (rc == "timeout") if v["kind"] == "steps" else (rc not in (0, 77, 2, "timeout") and
                   ("VPFAIL" in so or "panicked at" in se or (isinstance(rc, int) and rc < 0) or rc == 134))
            what = "%s %s: %s" % (tag, v["kind"], v["id"])
            if not fail and v["kind"] == "memory":
                problems.append("memory error seen by the engine did not reproduce: %s (native rc %s)" % (what, rc))
                continue
            if not fail:
                problems.append("counterexample did not reproduce: %s model %s (native rc %s %s %s)" % (what, v["model"], rc, so[-200:], se[-300:]))
                continue
            hit = None
            for (kp, rx, txt) in kf:
                if kp == prop and rx.search("%s:%s:%s" % (x["harness"], v["kind"], v["id"])):
                    hit = txt
            v2 = dict(property=prop, crate=x["crate"], harness=x["harness"], param=x["param"], kind=v["kind"], id=v["id"],
                      symbolic_bytes=v["model"], backtrace=v["trace"], native_exit=str(rc),
                      native_output=(so[-600:] + se[-1200:]),
                      reproduce="VP_PARAM=%s VP_REPLAY=%s %s/build/%s/release/%s %s" % (x["param"], v["model"], HERE, x["crate"], x["crate"], x["harness"]))
            if hit: knownhits.append((hit, v2))
            else: viols.append(v2)
        for e, n in x["errors"].items():
            problems.append("%s: %s (x%d)" % (tag, e, n))
        need = x["spec"].get("covers", {})
        need = need.get(x["param"], need.get("*", [])) if isinstance(need, dict) else need
        for cv in need:
            if cv not in x["covers"]:
                problems.append("%s: reachability witness '%s' not reached (vacuous)" % (tag, cv))
        # the engine against the native build, on sampled paths
        ss = x["samples"]
        if len(ss) > 8:
            step = len(ss) / 8.0
            ss = [ss[int(i * step)] for i in range(8)]
        for m, h in ss:
            rc, so, se = native(x["crate"], x["harness"], x["param"], m)
            got = re.search(r"VPOUT ([0-9a-f]{16})", so)
            if rc == 0 and got and got.group(1) == h:
                validated += 1
            else:
                # a path on which another value violates a check is reported above
                mism += 1
                if x["viols"]:
                    continue
                problems.append("%s: native run disagrees with the engine on %s: rc=%s %s %s" % (tag, m, rc, so[-120:], se[-200:]))
        if ss and len(samples) < 12:
            samples.append(dict(harness=tag, symbolic_bytes=ss[-1][0], trace_hash=ss[-1][1],
                                witnesses={k: v for k, v in list(x["covers"].items())[:6]}))

    tot = lambda k: sum(x["stat"].get(k, 0) for x in results)
    funcs = set()
    for x in results: funcs |= x["funcs"]
    real = sorted({demangle(f) for f in funcs if "ntex_amqp" in f})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
      coverage=dict(
        states=tot("paths") + tot("infeasible"), transitions=tot("forks"),
        traces_validated_against_impl=validated, samples=samples or [dict(note="none")],
        paths_explored_to_the_end=tot("paths"), instructions_executed=tot("steps"), basic_blocks_covered=tot("blocks"),
        assertions_evaluated={"%s/%s" % (x["harness"], k): v for x in results for k, v in x["checks"].items()},
        assertions_decided_by_solver=tot("checks_sym"),
        queries_z3=tot("z3"), z3_sat=tot("z3_sat"), z3_unsat=tot("z3_unsat"), z3_seconds=round(tot("z3_ms") / 1000.0, 2),
        z3_longest_ms=max([x["stat"].get("z3_max_ms", 0) for x in results] or [0]),
        queries_byte_domain=tot("dom"), queries_cached=tot("cache"), queries_by_known_model=tot("model"),
        solver="Z3 " + (results[0]["solver"] if results else ""),
        harnesses=[dict(harness=x["harness"], param=x["param"], paths=x["stat"].get("paths"), symbolic_bytes=x["stat"].get("max_sym"),
                        witnesses=sorted(x["covers"]), seconds=round(x["wall"], 1)) for x in results],
        functions_encoded_total=len(funcs), functions_encoded_of_repo=len(real), functions_encoded=real[:400],
        bounds=c["bounds"], outside_the_claim=c["outside"],
        exhaustive=not problems, unfinished_deep_runs=unfinished, violations_of_other_properties_seen=ignored,
        known_findings_seen=[h for h, _ in knownhits]),
      assumptions=spec.ASSUMPTIONS + c.get("assumptions", []),
      wall_s=round(time.time() - T0, 1), violations=len(viols))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    for h in sorted({h for h, _ in knownhits}):
        print("KNOWN-FINDING: property=%s %s" % (prop, h), flush=True)
    if viols:
        os.makedirs(HERE + "/build/replay", exist_ok=True)
        for i, v in enumerate(viols):
            p = "%s/build/replay/%s-%d.json" % (HERE, prop, i)
            json.dump(v, open(p, "w"), indent=1)
            log("violated: %s(%s) %s: %s" % (v["harness"], v["param"], v["kind"], v["id"]))
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        for q in problems[:8]: log("also:", q[:300])
        sys.exit(1)
    if problems:
        for q in problems[:20]: log("problem:", q[:700])
        die("%d problems" % len(problems))
    log("held: %d paths, %d z3 queries (%.1fs), %d traces validated" % (tot("paths"), tot("z3"), tot("z3_ms") / 1000.0, validated))

main()
