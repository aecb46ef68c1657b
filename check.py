#!/usr/bin/env python3
"""Driver of every check: rebuilds the monitored programs from /repo's working tree, runs them on all cores with
seeded workloads, aggregates what the monitors observed and writes the verdict and the evidence.

    check.py P01 [--tier quick|thorough] [--secs S]     exit 0 held / 1 VIOLATION / 3 inconclusive / 2 error
    check.py --replay FILE                              re-runs the recorded case of a violation
    check.py --setup                                    builds everything once
"""
import fcntl, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
from plan import PLAN, T  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "examples"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# target -> (cargo arguments, manifest, directory of the target, extra environment, packages of the tree under test)
def targets():
    hm = os.path.join(VERIF, "harness", "Cargo.toml")
    t = {}
    for b in ("core", "tsptw", "psp", "srflp"):
        prof = "release" if b == "core" else "models"
        t[b] = dict(args=["build", "--profile", prof, "--bin", b], manifest=hm, dir="harness", env={}, out=f"{prof}/{b}")
    t["examples"] = dict(args=["build", "--examples"], manifest=os.path.join(REPO, "Cargo.toml"), dir="examples",
                         env={"CARGO_PROFILE_DEV_OPT_LEVEL": "2", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}, out="debug/examples/tsptw")
    # the programs as `cargo build` makes them, with overflow checks
    t["checked"] = dict(args=["build", "--examples"], manifest=os.path.join(REPO, "Cargo.toml"), dir="checked",
                        env={"CARGO_PROFILE_DEV_OPT_LEVEL": "1"}, out="debug/examples/tsptw")
    sm = os.path.join(VERIF, "sched", "Cargo.toml")
    t["sched"] = dict(args=["build", "--release", "--bin", "sched"], manifest=sm, dir="sched", env={}, out="release/sched", optional=True)
    # the same programs under the compiler's sanitizers, the standard library included, with parking_lot's one racy ordering corrected
    for short, name in SANITIZERS.items():
        for b in ("core", "tsptw", "psp", "srflp"):
            prof = "release" if b == "core" else "models"
            t[short if b == "core" else f"{short}-{b}"] = dict(
                toolchain=["+nightly"], args=["build", "--profile", prof, "-Zbuild-std", "--target", TRIPLE, "--bin", b], manifest=os.path.join(VERIF, "san", "Cargo.toml"), dir=f"san-{name}",
                env={"RUSTFLAGS": f"-Zsanitizer={name}"}, out=f"{TRIPLE}/{prof}/{b}", optional=True)
    # the core monitors, interpreted
    t["miri"] = dict(toolchain=["+nightly"], args=["miri", "run", "--no-default-features", "--bin", "sched"], manifest=sm, dir="miri",
                     env={"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks", "XDG_CACHE_HOME": os.path.join(BUILD, "miri", "cache")}, out=None, optional=True)
    return t


SANITIZERS = {"tsan": "thread", "asan": "address", "msan": "memory"}
TRIPLE = "x86_64-unknown-linux-gnu"
REPORT = 66  # the exit code of a sanitizer that found something


class BuildError(Exception):
    pass


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    tg = targets()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for n in names:
            t = tg[n]
            d = os.path.join(BUILD, t["dir"])
            os.makedirs(d, exist_ok=True)
            stamp = os.path.join(d, ".tree")
            old = open(stamp).read() if os.path.exists(stamp) else ""
            if old != th:
                # never trust modification times across copies of the sandbox
                for pat in ("engineering-*", "vharness-*", "vsched-*"):
                    for p in glob.glob(os.path.join(d, "*", ".fingerprint", pat)) + glob.glob(os.path.join(d, "*", "*", ".fingerprint", pat)):
                        shutil.rmtree(p, ignore_errors=True)
            env = dict(ENV, CARGO_TARGET_DIR=d, **t["env"])
            cmd = ["cargo"] + (t.get("toolchain") or []) + t["args"] + ["--offline", "--quiet", "--manifest-path", t["manifest"]]
            if n == "miri":
                cmd += ["--", "utils", "--max", "1", "--tiny"]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=BUILD)
            if r.returncode != 0:
                raise BuildError(f"{' '.join(cmd)}\n{r.stdout[-6000:]}")
            open(stamp, "w").write(th)


# ---------------------------------------------------------------- running
def binpath(name):
    t = targets()[name]
    return os.path.join(BUILD, t["dir"], t["out"])


def command(name):
    """the start of a command line that runs a built target, and what it needs in the environment"""
    t = targets()[name]
    if name == "miri":
        return ["cargo"] + t["toolchain"] + t["args"] + ["--offline", "--quiet", "--manifest-path", t["manifest"], "--"], dict(t["env"], CARGO_TARGET_DIR=os.path.join(BUILD, t["dir"]))
    return [binpath(name)], {}


def run_env(scratch, log_path=None, extra={}):
    san = {}
    if log_path:
        o = f"halt_on_error=1:exitcode={REPORT}:log_path={log_path}:abort_on_error=0:handle_abort=1"
        san = dict(TSAN_OPTIONS=o + ":report_signal_unsafe=0", ASAN_OPTIONS=o + ":detect_leaks=0:detect_stack_use_after_return=1", MSAN_OPTIONS=o)
    return dict(ENV, **san, **extra, VERIF_SCRATCH=scratch, VERIF_EXAMPLES=os.path.join(BUILD, "examples", "debug", "examples"),
                VERIF_CHECKED=os.path.join(BUILD, "checked", "debug", "examples"))


def known_findings():
    """(property, id) -> text, for the defects listed as known"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"^known: property=(\S+) id=(\S+) -- (.+)$", l.strip())
            if m:
                out[m.group(1), m.group(2)] = m.group(3)
    return out


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE}


def explore(prop, tier, seed, secs):
    spec = PLAN[prop]
    t0 = time.time()
    tasks = [t for t in spec["tasks"] if t.get("tier", tier) == tier]
    bins = []
    for t in tasks:
        for b in [t["bin"]] + t.get("needs", []):
            if b not in bins:
                bins.append(b)
    notes = []
    optional = {n for n, t in targets().items() if t.get("optional")}
    build([b for b in bins if b not in optional])
    for b in bins:
        if b not in optional:
            continue
        try:
            build([b])
        except BuildError as e:
            # the tree under test may use locks the scheduler does not provide, or need another compiler: the native runs still judge it
            notes.append(f"left out, the {b} program cannot be built from the tree under test: " + str(e)[-600:])
            log(notes[-1])
            tasks = [t for t in tasks if t["bin"] != b] or [T("core", t["check"]) for t in tasks]
    tb = time.time() - t0
    ncpu = os.cpu_count() or 8
    scratch = tempfile.mkdtemp(prefix=f"{prop}-", dir=mk(os.path.join(BUILD, "scratch")))
    jobs = []
    for w in range(max(ncpu, len(tasks))):
        # tasks are dealt to the workers in proportion of their weight
        tot = sum(t.get("weight", 1) for t in tasks)
        x = (w + 0.5) / max(ncpu, len(tasks)) * tot
        acc = 0
        for t in tasks:
            acc += t.get("weight", 1)
            if x < acc:
                break
        jobs.append((w, t))
    covered = {id(j[1]) for j in jobs}
    for t in tasks:
        if id(t) not in covered:
            jobs.append((len(jobs), t))
    procs = []
    res = dict(evals=0, skipped=0, nontrivial=0, counters={}, skips={}, samples=[], violations=[], problems=[], known={})
    hashes = set()
    try:
        for w, t in jobs:
            hf = os.path.join(scratch, f"h{w}")
            of = open(os.path.join(scratch, f"o{w}"), "w+")
            head, extra = command(t["bin"])
            env = run_env(scratch, os.path.join(scratch, f"san{w}"), extra)
            cmd = head + [t["check"], "--secs", str(secs), "--seed", str(seed), "--worker", str(w), "--tier", tier, "--hashes", hf] + t.get("args", [])
            ef = open(os.path.join(scratch, f"e{w}"), "w")
            p = subprocess.Popen(cmd, env=env, stdout=of, stderr=ef, cwd=scratch, start_new_session=True)
            ef.close()
            procs.append((p, w, t, cmd, of, hf))
        deadline = time.time() + secs + (420 if tier == "thorough" else 240)
        for p, w, t, cmd, of, hf in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                kill(p)
                res["problems"].append(f"worker {w} of {t['check']} did not end")
            of.seek(0)
            got = False
            for line in of.read().splitlines():
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if "violation" in j:
                    got = True
                    if not t.get("bare"):
                        res["violations"].append(dict(j["violation"], task=t, worker=w))
                elif "inconclusive" in j:
                    got = True
                    res["problems"].append(f"{t['check']}: {j['inconclusive']['what']} (case {j['inconclusive']['case']})")
                elif "stats" in j:
                    got = True
                    s = j["stats"]
                    pre = "" if len(tasks) == 1 else f"{t['bin']}.{t['check']}."
                    for k in ("evals", "skipped", "nontrivial"):
                        res[k] += s[k]
                    for k, v in s["counters"].items():
                        k = pre + k
                        res["counters"][k] = max(res["counters"].get(k, 0), v) if ".max_" in "." + k else res["counters"].get(k, 0) + v
                    for k, v in ({} if t.get("bare") else s.get("known", {})).items():
                        o = res["known"].setdefault(k, dict(v, count=0, task=t, worker=w))
                        o["count"] += v["count"]
                    for k, v in s["skips"].items():
                        res["skips"][k] = res["skips"].get(k, 0) + v
                    if len(res["samples"]) < 12:
                        res["samples"] += s["samples"][:2]
            if os.path.exists(hf):
                b = open(hf, "rb").read()
                hashes.update((t["bin"], t["check"]) + x for x in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]))
            err = open(os.path.join(scratch, f"e{w}"), errors="replace").read()
            reports = [open(f, errors="replace").read() for f in sorted(glob.glob(os.path.join(scratch, f"san{w}.*")))]
            if t["bin"] == "miri" and "Undefined Behavior" in err:
                reports.append(err[err.index("Undefined Behavior"):])
            if p.returncode == REPORT or (t["bin"] == "miri" and reports):
                what = "\n".join(reports)[:4000] or f"{t['bin']} reported an error"
                res["violations"].append(dict(case="0", what=what, input=" ".join(cmd), task=t, worker=w))
            elif any("unexpected memory mapping" in r for r in reports + [err]):
                notes.append(f"worker {w}: the runtime of {t['bin']} does not start in this environment")
            elif p.returncode is not None and p.returncode < 0 and -p.returncode in CRASH and not res["violations"]:
                # a crash of the monitored program: only a violation when it happens again
                q = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=scratch, timeout=secs + 240)
                if q.returncode < 0 and -q.returncode in CRASH:
                    res["violations"].append(dict(case="0", what=f"the program was killed by signal {-q.returncode}, twice", input=" ".join(cmd), task=t, worker=w))
                else:
                    res["problems"].append(f"worker {w} of {t['check']} crashed once with signal {-p.returncode}")
            elif not got:
                res["problems"].append(f"worker {w} of {t['check']} gave no result (exit {p.returncode})")
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(scratch, ignore_errors=True)
    res["notes"] = notes
    res["distinct"] = len(hashes)
    res["build_s"] = tb
    res["wall_s"] = time.time() - t0
    return res


def mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        used = {b for s in PLAN.values() for t in s["tasks"] if t.get("tier") != "thorough" for b in [t["bin"]] + t.get("needs", [])}
        tg = targets()
        build([t for t in tg if t in used and not tg[t].get("optional")])
        for t in tg:
            if t in used and tg[t].get("optional"):
                try:
                    build([t])
                except BuildError as e:
                    log(f"the {t} programs cannot be built: {e}")
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PLAN[prop]
    secs = spec.get("secs", 20) if tier == "quick" else spec.get("thorough_secs", 600)
    if "--secs" in a:
        secs = float(a[a.index("--secs") + 1])
    ev_path = os.path.join(mk(os.path.join(VERIF, "evidence")), f"{prop}.json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    try:
        res = explore(prop, tier, seed, secs)
    except BuildError as e:
        log(f"cannot build the monitored programs for {prop}:\n{e}")
        return 2
    known = known_findings()
    fresh = list(res["violations"])
    for k, v in sorted(res["known"].items()):
        if (prop, k) in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[prop, k]}")
        else:
            fresh.append(dict(case="0", what=f"{k}: {v['witness']}", input="", task=v["task"], worker=v["worker"]))
    cov = dict(evaluations=res["evals"], distinct_nontrivial=res["distinct"], rule=spec["rule"], samples=res["samples"],
               observed=res["counters"], skipped=res["skipped"], skip_reasons=res["skips"], nontrivial_with_repeats=res["nontrivial"],
               workers=[f"{t['bin']} {t['check']} (weight {t.get('weight', 1)})" for t in spec["tasks"] if t.get("tier", tier) == tier], build_s=round(res["build_s"], 1), run_s=secs)
    if res["known"]:
        cov["known_findings_seen"] = {k: dict(count=v["count"], witness=v["witness"]) for k, v in res["known"].items()}
    if res["notes"]:
        cov["notes"] = res["notes"]
    if res["problems"]:
        cov["inconclusive"] = res["problems"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec["assumptions"],
              wall_s=round(res["wall_s"], 1), violations=len(fresh))
    json.dump(ev, open(ev_path, "w"), indent=1)
    if fresh:
        v = fresh[0]
        t = v["task"]
        rp = os.path.join(mk(os.path.join(VERIF, "replays")), f"{prop}-{t['bin']}-{t['check']}-{v['case']}.json")
        json.dump(dict(property=prop, bin=t["bin"], check=t["check"], args=t.get("args", []), needs=t.get("needs", []), case=v["case"],
                       tier=tier, seed=seed, worker=v["worker"], what=v["what"], input=v.get("input", "")), open(rp, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  {v['what'][:3000]}")
        print(f"  input: {v.get('input', '')[:3000]}")
        return 1
    if res["problems"]:
        for p in res["problems"]:
            print(f"INCONCLUSIVE property={prop} {p}")
        return 3
    floor = spec.get("floor", 20)
    if res["distinct"] < floor:
        print(f"INCONCLUSIVE property={prop} only {res['distinct']} distinct non-trivial cases observed (at least {floor} expected)")
        return 3
    print(f"held: property={prop} {res['evals']} cases, {res['distinct']} distinct non-trivial, {res['skipped']} skipped, {res['wall_s']:.1f} s")
    return 0


def replay(path):
    r = json.load(open(path))
    build([r["bin"]] + r["needs"])
    scratch = tempfile.mkdtemp(prefix="replay-", dir=mk(os.path.join(BUILD, "scratch")))
    try:
        head, extra = command(r["bin"])
        cmd = head + [r["check"], "--secs", "600", "--seed", str(r["seed"]), "--worker", str(r["worker"]), "--tier", r["tier"]]
        if r["case"] != "0":
            cmd += ["--replay", r["case"]]
        return subprocess.run(cmd + r["args"], env=run_env(scratch, "stderr", extra), cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
