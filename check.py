#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the monitor of a property against /repo's working tree in
several instrumented builds, runs it, and turns what the monitors report into a verdict.

  check.py <ID>                    quick or thorough (VERIF_TIER), seeded by VERIF_SEED
  check.py <ID> --replay FILE      run the build, scenario and case of a reported violation again
  check.py --setup                 prebuild everything (optional; a check builds what it needs)

exit 0: held on everything observed; 1: violated; 2: inconclusive (build failure, timeout, nothing observed)
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPO = "/repo"
sys.path.insert(0, VERIF)
from plan import PLAN, RULES, ASSUMPTIONS, REQUIRED  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
if "--thorough" in sys.argv:
    TIER = "thorough"
HOST = "x86_64-unknown-linux-gnu"

KINDS = {
    # kind: (cargo args, extra env, target sub dir, binary directory)
    "rel": (["cargo", "build", "--release"], {}, "stable", "release"),
    "dbg": (["cargo", "build", "--profile", "dbg"], {}, "stable", "dbg"),
    "tsan": (["cargo", "+nightly", "build", "--release", "-Zbuild-std", "--target", HOST],
             {"RUSTFLAGS": "-Zsanitizer=thread"}, "tsan", HOST + "/release"),
    "asan": (["cargo", "+nightly", "build", "--release", "--target", HOST],
             {"RUSTFLAGS": "-Zsanitizer=address"}, "asan", HOST + "/release"),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.03"
TSAN_OPTIONS = "halt_on_error=1:abort_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4"
ASAN_OPTIONS = "halt_on_error=1:abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1"


class Inconclusive(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("CARGO_", "RUST", "MIRI")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + fh.read() + b"\0")
        except OSError:
            pass
    return h.hexdigest()


def run_cmd(cmd, env, timeout, cwd=HARNESS):
    """returns (code, output); code None on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    PROCS.add(p)
    out, done = bytearray(), threading.Event()

    def rd():
        while True:
            b = p.stdout.read1(65536)
            if not b:
                break
            if len(out) < 8_000_000:
                out.extend(b)
        done.set()
    t = threading.Thread(target=rd, daemon=True)
    t.start()
    try:
        code = p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        p.wait()
        code = None
    done.wait(5)
    PROCS.discard(p)
    return code, bytes(out).decode("utf-8", "replace")


PROCS = set()


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def fresh(tdir, env, toolchain):
    """the build of the crate under test must be of the current tree, whatever the time stamps say"""
    os.makedirs(tdir, exist_ok=True)
    stamp, h = os.path.join(tdir, "tree.sha256"), tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h and old is not None:
        code, out = run_cmd(["cargo"] + toolchain + ["clean", "--offline", "-p", "orx-concurrent-vec", "-p", "mon",
                                                     "--target-dir", tdir], env, 120)
        if code != 0:
            shutil.rmtree(tdir, ignore_errors=True)
            os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(h)


LOCKS = {k: threading.Lock() for k in ("stable", "tsan", "asan", "miri")}


def build(kind, bin_):
    args, extra, sub, rel = KINDS[kind]
    env = base_env()
    env.update(extra)
    tdir = os.path.join(TARGET, sub)
    with LOCKS[sub]:
        fresh(tdir, env, args[1:2] if args[1].startswith("+") else [])
        env["CARGO_TARGET_DIR"] = tdir
        code, out = run_cmd(args + ["--offline", "--bin", bin_], env, 600)
    if code != 0:
        raise Inconclusive(f"{kind} build of {bin_} failed ({code}):\n{out[-3000:]}")
    return os.path.join(tdir, rel, bin_)


def miri_cmd(bin_):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", bin_, "--"]


def build_miri(bin_):
    """compiles for miri without interpreting anything of interest"""
    env = base_env()
    tdir = os.path.join(TARGET, "miri")
    with LOCKS["miri"]:
        fresh(tdir, env, ["+nightly"])
        env["CARGO_TARGET_DIR"] = tdir
        env["MIRIFLAGS"] = MIRIFLAGS
        code, out = run_cmd(miri_cmd(bin_) + ["--build-only"], env, 600)
    if code != 0 or "@@BUILT" not in out:
        raise Inconclusive(f"miri build of {bin_} failed ({code}):\n{out[-3000:]}")


class Outcome:
    def __init__(self, kind, seed, args):
        self.kind, self.seed, self.args = kind, seed, args
        self.result, self.violation, self.problem = None, None, None
        self.sigs, self.tail = set(), ""


CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE}


def judge(o, code, out):
    o.tail = out[-6000:]
    for line in out.splitlines():
        if line.startswith("@@VIOLATION\t"):
            f = line.split("\t")
            o.violation = {"scenario": f[3], "case": int(f[4]), "what": f[5] if len(f) > 5 else "?"}
        elif line.startswith("@@RESULT\t"):
            try:
                o.result = json.loads(line.split("\t", 1)[1])
            except ValueError:
                pass
        elif line.startswith("@@SIGS\t") and len(line) > 7:
            o.sigs |= {int(x, 16) for x in line[7:].split(",") if x}
        elif line.startswith("@@HARNESS-ERROR"):
            o.problem = line
    if o.violation:
        return
    m = re.search(r"WARNING: ThreadSanitizer: (.*)|ERROR: AddressSanitizer: (.*)|error: Undefined Behavior: (.*)|"
                  r"error: (the evaluated program (?:deadlocked|leaked memory).*)|error: (deadlock.*)", out)
    if m and "allocation-size-too-big" not in m.group(0) and "out-of-memory" not in m.group(0):
        lines = out[m.start():].splitlines()
        frames = [l.strip() for l in lines if "/repo/src/" in l or "orx_concurrent" in l][:4]
        o.violation = {"scenario": None, "case": None, "what": m.group(0)[:400] + (" | " + " | ".join(frames) if frames else "")}
        return
    if code is None:
        o.problem = o.problem or "the run did not end in time"
        return
    if code < 0:
        if -code in CRASH and "memory allocation of" not in out:
            o.violation = {"scenario": None, "case": None,
                           "what": f"the process crashed with {signal.Signals(-code).name}: " + out[-300:].replace("\n", " ")}
        else:
            o.problem = f"the run was ended by signal {-code}: {out[-300:]}"
        return
    if code != 0 or o.result is None:
        o.problem = o.problem or f"the run ended with {code}: {out[-1500:]}"


def run_native(kind, exe, seed, ms, extra=()):
    sigs = os.path.join(TARGET, f"sigs-{os.path.basename(exe)}-{kind}-{seed}.bin")
    args = ["--seed", str(seed), "--ms", str(ms), "--kind", kind, "--tier", TIER, "--sigs", sigs, *map(str, extra)]
    o = Outcome(kind, seed, args)
    env = base_env()
    env["TSAN_OPTIONS"], env["ASAN_OPTIONS"] = TSAN_OPTIONS, ASAN_OPTIONS
    env["RUST_BACKTRACE"] = "0"
    code, out = run_cmd([exe] + args, env, ms / 1000 * 5 + 150)
    judge(o, code, out)
    if os.path.exists(sigs):
        data = open(sigs, "rb").read()
        o.sigs = set(struct.unpack(f"<{len(data) // 8}Q", data))
        os.remove(sigs)
    return o


def run_miri(bin_, seed, cases, ms, extra=()):
    args = ["--seed", str(seed), "--cases", str(cases), "--ms", str(ms), "--kind", "miri", "--tier", TIER, "--sigs", "y", *map(str, extra)]
    o = Outcome("miri", seed, args)
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
    # borrow model and spurious scheduling vary with the seed
    env["MIRIFLAGS"] = MIRIFLAGS + f" -Zmiri-seed={seed}"
    code, out = run_cmd(miri_cmd(bin_) + args, env, ms / 1000 * 4 + 150)
    judge(o, code, out)
    return o


def main():
    if "--setup" in sys.argv:
        try:
            build("rel", "c01")
        except Inconclusive as e:
            print(e)
            return 1
        return 0
    prop = sys.argv[1]
    bin_ = prop.lower()
    stages = PLAN[prop][TIER]
    start = time.time()
    if "--replay" in sys.argv:
        return replay(prop, bin_, json.load(open(sys.argv[sys.argv.index("--replay") + 1])))
    outcomes, problems, stop = [], [], threading.Event()
    lock = threading.Lock()

    def done(o):
        with lock:
            outcomes.append(o)
        print(f"[{time.time() - start:6.1f}s] {prop} {o.kind} seed {o.seed}: " + (
            "VIOLATED " + o.violation["what"][:200] if o.violation else
            o.problem[:500] if o.problem else
            f"held on {o.result['evaluations']} cases, {o.result['distinct']} distinct"), flush=True)
        if o.violation:
            stop.set()
            for p in list(PROCS):
                kill(p)

    def native_lane():
        exes, errs = {}, {}

        def bg(kind):
            try:
                exes[kind] = build(kind, bin_)
            except Exception as e:  # noqa: BLE001
                errs[kind] = str(e)
        kinds = [k for k in ("rel", "dbg", "tsan", "asan") if stages.get(k)]
        ts = {}
        for k in kinds:
            ts[k] = threading.Thread(target=bg, args=(k,), daemon=True)
            ts[k].start()
            if k == "rel":
                ts[k].join()
        for k in kinds:
            ts[k].join()
            if stop.is_set():
                return
            if k in errs:
                problems.append(errs[k])
                continue
            ms = stages[k]
            n = max(1, ms // 60_000)
            for r in range(n):
                if stop.is_set():
                    return
                done(run_native(k, exes[k], SEED * 1000 + kinds.index(k) * 100 + r, ms // n))

    def miri_lane():
        procs, cases, ms = stages["miri"]
        try:
            build_miri(bin_)
        except Inconclusive as e:
            problems.append(str(e))
            return
        sem = threading.Semaphore(stages.get("miri_jobs", 4))

        def one(k):
            with sem:
                if not stop.is_set():
                    done(run_miri(bin_, SEED * 1000 + k, cases, ms))
        ts = [threading.Thread(target=one, args=(k,), daemon=True) for k in range(procs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    lanes = [threading.Thread(target=native_lane, daemon=True)]
    if stages.get("miri"):
        lanes.append(threading.Thread(target=miri_lane, daemon=True))
    for t in lanes:
        t.start()
    for t in lanes:
        t.join()

    bad = [o for o in outcomes if o.violation]
    # runs which were ended because another one had found a violation are not of interest
    problems += [f"{o.kind} seed {o.seed}: {o.problem}" for o in outcomes if o.problem and not bad]
    known = known_findings(prop)
    unlisted = []
    for o in bad:
        sig = signature(o)
        if sig in known:
            print(f"KNOWN-FINDING: property={prop} {known[sig]}")
        else:
            unlisted.append(o)
    good = [o for o in outcomes if o.result and not o.violation]
    cov = coverage(prop, good)
    if not unlisted and not problems:
        for k in REQUIRED.get(prop, []):
            if cov["observed"].get(k, 0) <= 0:
                problems.append(f"nothing observed for '{k}'")
        if not good:
            problems.append("no run completed")
    write_evidence(prop, cov, time.time() - start, len(unlisted))
    if unlisted:
        o = unlisted[0]
        path = write_replay(prop, o)
        print(f"violated: {o.violation['what']}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if problems:
        print("INCONCLUSIVE:", *problems, sep="\n  ", flush=True)
        return 2
    print(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct and non-trivial) "
          f"in {time.time() - start:.0f} s", flush=True)
    return 0


def signature(o):
    v = o.violation
    return f"{v['scenario']}|{re.sub(r'[0-9]+', '#', v['what'])[:160]}"


def known_findings(prop):
    """lines 'finding: property=<id> signature=<signature> :: <what fails>' ('fixed:' lines suppress nothing)"""
    res = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) signature=(.*?) :: (.*)", line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def coverage(prop, good):
    counts, maxima, scen, samples, sigs, per = {}, {}, {}, [], set(), {}
    for o in good:
        r = o.result
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        for k, v in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
        p = per.setdefault(o.kind, {"runs": 0, "cases": 0, "wall_ms": 0})
        p["runs"] += 1
        p["cases"] += r["evaluations"]
        p["wall_ms"] += r["wall_ms"]
        sigs |= o.sigs
        if len(samples) < 12:
            samples += [f"[{o.kind} seed {o.seed}] {s}" for s in r["samples"]][:4]
    return {
        "evaluations": sum(o.result["evaluations"] for o in good),
        "distinct_nontrivial": len(sigs),
        "rule": RULES[prop],
        "samples": samples[:12],
        "observed": counts,
        "maxima": maxima,
        "cases_per_scenario": scen,
        "builds": per,
    }


def write_evidence(prop, cov, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
                   "assumptions": ASSUMPTIONS, "wall_s": round(wall, 1), "violations": violations}, f, indent=1)


def write_replay(prop, o):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{o.kind}-{o.seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": o.kind, "seed": o.seed, "args": o.args, **o.violation,
                   "signature": signature(o),
                   "how": f"python3 /verif/check.py {prop} --replay {path}", "output": o.tail}, f, indent=1)
    return path


def replay(prop, bin_, r):
    extra = []
    if r.get("scenario"):
        extra = ["--only", r["scenario"], "--case", r["case"]]
    try:
        if r["kind"] == "miri":
            build_miri(bin_)
            i = r["args"].index("--cases")
            o = run_miri(bin_, r["seed"], 1 if extra else r["args"][i + 1], 60_000, extra)
        else:
            exe = build(r["kind"], bin_)
            # schedules of a native run are not reproducible: the case is repeated
            o = run_native(r["kind"], exe, r["seed"], 60_000 if extra else r["args"][3], extra)
    except Inconclusive as e:
        print(e)
        return 2
    if o.violation:
        print(o.tail)
        print(f"violated: {o.violation['what']}")
        return 1
    print(o.problem or "not reproduced (the schedule of a native run may differ)")
    return 2 if o.problem else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        print("INCONCLUSIVE:", e)
        sys.exit(2)
