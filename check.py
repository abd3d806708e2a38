#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property (see DESIGN.md)
   check.py --setup                              build everything the checks need"""
import fcntl, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from jobs import JOBS, ASSUME, BOUNDS

HARNESS = os.path.join(HERE, "harness")
RSYM = os.path.join(HERE, "rsym", "target", "release", "rsym")
WORK = os.path.join(HERE, ".work")
TARGET = "x86_64-unknown-linux-gnu"
CARGO = ["cargo", "+stable"]


def die(msg, code=2):
    print("check: " + msg, flush=True)
    sys.exit(code)


def run(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def forget(target):
    """Make cargo rebuild everything that depends on /repo, whatever the time stamps say."""
    for d in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
        for n in os.listdir(d):
            if n.startswith(("rx509-", "harness-", "decoder-")):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_rsym():
    with Lock("rsym"):
        rc, out = run(CARGO + ["build", "--release", "--offline"], os.path.join(HERE, "rsym"))
        if rc != 0:
            die("building rsym failed\n" + out[-4000:])


def build_ir(feature):
    """LLVM IR of the harnesses of one property together with rx509 and std, from /repo as it is now."""
    target = os.path.join(WORK, "ir")
    flags = "-C no-vectorize-loops -C no-vectorize-slp --cap-lints allow"
    env = {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": flags}
    cmd = CARGO + ["rustc", "--offline", "--release", "--lib", "--features", feature, "-Zbuild-std=std,panic_abort",
                   "--target", TARGET, "--target-dir", target, "--crate-type", "cdylib", "--", "--emit=llvm-ir"]
    with Lock("ir"):
        forget(target)
        ll = os.path.join(target, TARGET, "release", "deps", "harness.ll")
        if os.path.exists(ll):
            os.unlink(ll)
        rc, out = run(cmd, HARNESS, env)
        if rc != 0 or not os.path.exists(ll):
            die("building the harness failed\n" + out[-6000:])
        dst = os.path.join(WORK, feature + ".ll")
        shutil.copy(ll, dst)
    return dst


def build_native(profile):
    """Replay binary.  profile: dev, user (a plain release build) or replay (assertions on, fast)."""
    target = os.path.join(WORK, "native")
    with Lock("native"):
        forget(target)
        cmd = CARGO + ["build", "--offline", "--profile", profile, "--features", "native", "--bin", "replay",
                       "--target-dir", target]
        env = {"RUSTFLAGS": "--cap-lints allow"}
        rc, out = run(cmd, HARNESS, env)
        if rc != 0:
            die("building the native replay failed\n" + out[-6000:])
        d = {"dev": "debug"}.get(profile, profile)
        dst = os.path.join(WORK, "replay-" + profile)
        shutil.copy(os.path.join(target, d, "replay"), dst + ".new")
        os.replace(dst + ".new", dst)
    return dst


def replay(binary, name, arg, tier, hexin, timeout=20):
    """(kind, text): ok / assume / check / panic / hang / crash / unknown"""
    cmd = "ulimit -v 8000000; ulimit -c 0; exec " + " ".join(shlex.quote(x) for x in [binary, name, str(arg), str(tier), hexin])
    try:
        p = subprocess.run(["bash", "-c", cmd], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "still running after %d s" % timeout
    out = p.stdout.decode(errors="replace")
    err = p.stderr.decode(errors="replace")
    last = [l for l in out.splitlines() if l.startswith("REPLAY ")]
    last = last[-1] if last else ""
    if p.returncode == 0 and last.startswith("REPLAY ok"):
        return "ok", last[9:].strip()
    if p.returncode == 3:
        return "assume", ""
    if p.returncode == 1 and "check-failed" in last:
        return "check", last.split("check-failed ", 1)[1]
    if p.returncode == 4:
        return "unknown", "no such harness"
    if p.returncode == 101:
        return "panic", err.strip()[:400]
    if p.returncode < 0 or p.returncode >= 128:
        return "crash", ("signal, status %d " % p.returncode) + err.strip()[:400]
    return "unknown", "status %d %s" % (p.returncode, err.strip()[:300])


def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) harness=(\S+) input=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        t = time.time()
        build_rsym()
        build_ir("c05")
        for p in ("replay", "dev", "user"):
            build_native(p)
        rc, out = run([RSYM, "--selftest", "2000"], HERE)
        if rc != 0:
            die("self-test of the expression layer failed\n" + out)
        print("setup done in %.0f s" % (time.time() - t))
        return
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = JOBS[prop]
    tn = 1 if tier == "thorough" else 0
    feature = prop.lower()
    evfile = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    if os.path.exists(evfile):
        os.unlink(evfile)

    joblist = list(spec["quick"])
    if tn:
        joblist += [j for j in spec["thorough"] if j not in joblist]
    build_rsym()
    # the native build runs beside the symbolic one
    with ThreadPoolExecutor(2) as ex:
        nat = ex.submit(build_native, "replay")
        ll = build_ir(feature)
        tb = time.time() - t0
        res = os.path.join(WORK, feature + ".json")
        dump = os.path.join(WORK, feature + "-smt")
        shutil.rmtree(dump, ignore_errors=True)
        if os.path.exists(res):
            os.unlink(res)
        cmd = [RSYM, "--ll", ll, "--json", res, "--threads", str(os.cpu_count() or 4), "--tier", str(tn), "--seed", str(seed),
               "--time", "3300" if tn else "600", "--z3-ms", "150000", "--samples", "24" if tn else "6",
               "--dump-every", "400" if tn else "1500", "--dump-dir", dump] + joblist
        limit = 3600 if tn else 700
        try:
            p = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        except subprocess.TimeoutExpired:
            die("rsym ran out of time")
        native = nat.result()
    if p.returncode != 0 or not os.path.exists(res):
        die("rsym failed (%d): %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    d = json.load(open(res))
    os.unlink(ll)

    # ---- counterexamples: only what reproduces natively counts
    confirmed, unconfirmed = [], []
    viol = [(j, v) for j in d["jobs"] for v in j["violations"]]
    if viol:
        bins = [(p, build_native(p)) for p in ("dev", "user")] + [("replay", native)]
        for j, v in viol[:40]:
            hit = None
            for prof, b in bins:
                k, text = replay(b, j["name"], j["arg"], tn, v["input"])
                if k in ("check", "panic", "crash", "hang"):
                    hit = (prof, k, text)
                    break
            (confirmed if hit else unconfirmed).append((j, v, hit))
    known = known_findings(prop)
    reported, seen_known = [], []
    for j, v, hit in confirmed:
        m = [k for k in known if k[0] == j["name"] and v["input"].startswith(k[1])]
        if m:
            seen_known.append(m[0])
        else:
            reported.append((j, v, hit))

    # ---- models of clean paths, run natively: same observations?
    tasks = [(j, s) for j in d["jobs"] for s in j["samples"]]

    def validate(t):
        j, s = t
        k, text = replay(native, j["name"], j["arg"], tn, s["input"])
        return k == "ok" and text == ",".join(str(x) for x in s["obs"]), k, text

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        val = list(ex.map(validate, tasks))
    good = sum(1 for v in val if v[0])
    mismatch = [(t, v) for t, v in zip(tasks, val) if not v[0]]

    # ---- a sample of the queries, decided again by other solvers
    cross = cross_check(dump, 200 if tn else 24)
    shutil.rmtree(dump, ignore_errors=True)

    covers = {}
    for j in d["jobs"]:
        for k, n in j["covers"].items():
            covers[k] = covers.get(k, 0) + n
    src = open(os.path.join(HARNESS, "src", feature + ".rs")).read()
    wanted = sorted(set(re.findall(r'cover\("([^"]*)"\)', src)))
    if "covers" in spec:
        wanted = spec["covers"]
    missing = [w for w in wanted if w not in covers]
    incon = {}
    for j in d["jobs"]:
        for k, n in j["inconclusive"].items():
            incon["%s:%s %s" % (j["name"], j["arg"], k)] = n
    empty = ["%s:%s" % (j["name"], j["arg"]) for j in d["jobs"] if j["paths"] == 0]

    tot = lambda k: sum(j[k] for j in d["jobs"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": good,
            "samples": [{"harness": "%s:%s" % (t[0]["name"], t[0]["arg"]), "input": t[1]["input"][:400], "observed": t[1]["obs"][:40]} for t in tasks[:12]],
            "explanation": "states: symbolic paths followed to their end, each standing for all inputs that take it; "
                           "transitions: LLVM IR instructions executed symbolically; traces validated: models of such "
                           "paths run on natively compiled code with equal observations",
            "exhaustive": not incon,
            "method": "symbolic execution of the LLVM IR of the harness, rx509 and std built from /repo's working tree; Z3 decides every branch and assertion over all input values within the bounds",
            "bounds": BOUNDS.get(prop, ""),
            "instances": [{k: j[k] for k in ("name", "arg", "paths", "forks", "killed", "instructions", "checks", "checks_solver", "symbolic_bytes", "max_call_depth", "cpu_s", "covers")} for j in d["jobs"]],
            "functions_encoded": d["functions"],
            "lines_encoded": {k: len(v) for k, v in d["lines"].items()},
            "assertions": tot("checks"),
            "assertions_sent_to_solver": tot("checks_solver"),
            "queries": d["queries"], "sat": d["sat"], "unsat": d["unsat"], "unknown": d["unknown"],
            "cache_hits": d["cache_hits"], "answered_by_known_model": d["model_hits"],
            "solver_s": d["solver_s"], "max_query_s": d["max_query_s"], "solver": d["z3"],
            "queries_rechecked": cross["checked"], "queries_rechecked_solvers": cross["solvers"],
            "symbolic_execution_wall_s": d["wall_s"], "build_s": round(tb, 1),
            "covers": covers, "inconclusive": incon,
        },
        "assumptions": ASSUME["*"] + ASSUME.get(prop, []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(reported),
    }
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if reported:
        rd = os.path.join(WORK, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (j, v, hit) in enumerate(reported):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            json.dump({"property": prop, "harness": j["name"], "arg": j["arg"], "tier": tn, "input": v["input"], "kind": v["kind"],
                       "message": v["msg"], "stack": v["stack"], "reproduced": {"profile": hit[0], "as": hit[1], "text": hit[2]},
                       "rerun": "%s/.work/replay-%s %s %s %s %s" % (HERE, hit[0], j["name"], j["arg"], tn, v["input"])}, open(path, "w"), indent=1)
            print("  %s:%s %s: %s [%s build: %s %s] input=%s" % (j["name"], j["arg"], v["kind"], v["msg"], hit[0], hit[1], hit[2][:200], v["input"][:200]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rd, "%s-0.json" % prop)))
        sys.exit(1)
    if unconfirmed:
        for j, v, _ in unconfirmed[:10]:
            print("  not reproduced: %s:%s %s %s input=%s %s" % (j["name"], j["arg"], v["kind"], v["msg"], v["input"][:200], v["stack"][:4]))
        die("%d counterexamples did not reproduce natively" % len(unconfirmed))
    if incon:
        die("inconclusive: " + json.dumps(incon)[:3000])
    if mismatch:
        (j, s), v = mismatch[0]
        die("%d of %d models behave differently natively, e.g. %s:%s %s obs=%s native=%s" % (len(mismatch), len(tasks), j["name"], j["arg"], s["input"][:400], s["obs"][:40], v[1:]))
    if missing or empty:
        die("vacuous: not reached %s, no path in %s" % (missing, empty))
    if cross["disagree"]:
        die("solvers disagree on %s" % cross["disagree"][:3])
    if not d["lines"]:
        die("no line of the repository was executed")
    print("%s %s: held on %d paths, %d instructions, %d assertions (%d by solver), %d queries, %.1f s solver, %d models validated, %.1f s"
          % (prop, tier, tot("paths"), tot("instructions"), tot("checks"), tot("checks_solver"), d["queries"], d["solver_s"], good, time.time() - t0))


def cross_check(dump, limit):
    """Decide some of the dumped queries with other solvers; their answers must agree."""
    solvers = [s for s in (["cvc5", "--tlimit=10000"], ["z3", "-T:10"]) if shutil.which(s[0])]
    files = sorted(glob.glob(os.path.join(dump, "*.smt2")))
    files = files[:: max(1, len(files) // limit)][:limit]
    bad, n = [], 0

    def one(f):
        want = "unsat" if f.endswith("-unsat.smt2") else "sat"
        r = []
        for s in solvers:
            try:
                p = subprocess.run(s + [f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=15)
                a = p.stdout.decode(errors="replace").split()
                if a and a[0] in ("sat", "unsat"):
                    r.append(a[0] == want)
            except subprocess.TimeoutExpired:
                pass
        return f, r

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, r in ex.map(one, files):
            n += bool(r)
            if not all(r):
                bad.append(os.path.basename(f))
    return {"checked": n, "disagree": bad, "solvers": [s[0] for s in solvers]}


if __name__ == "__main__":
    main()
