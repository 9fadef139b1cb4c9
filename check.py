#!/usr/bin/env python3
"""Runs the monitor of one property: check.py <ID>.

Builds the monitor against /repo's current working tree in two build profiles (the overflow-checked
"checked" profile and a plain release profile), runs both, merges what they observed into
evidence/<ID>.json and gives the verdict. Exit 0: held, 1: VIOLATION, anything else: no answer.
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
BUILD = os.path.join(HERE, "target")
# properties whose release leg is built with a cargo feature of the harness (and so of mixed-num)
RELEASE_FEATURES = {"C19": ["std"]}
LEGS = [("checked", ["--profile", "checked"], "checked"), ("release", ["--release"], "release")]
# with the standard library, floats get other implementations of some functions (the language's own)
STD_LEG = ("std", ["--release", "--features", "std"], "release")
STD_QUICK = ("C10", "C11")
NO_STD_LEG = ("C19", "C20", "C23")

NOTHING = {"profile": "none", "rule": "-", "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "outside_domain_skipped": 0, "panics_observed": 0, "jobs": 0, "threads": 0, "calls_by_operation": {}, "observed": {}, "worst_observed": {}, "wall_s": 0}
TRIPLE = "x86_64-unknown-linux-gnu"
SHARDS = 8


def legs(pid, tier):
    with_std = pid in STD_QUICK or tier == "thorough" and pid not in NO_STD_LEG
    return LEGS + [STD_LEG] if with_std else LEGS


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def literals():
    """The numeric literals of the library's sources, as landmarks for the input generators (a fuzzer's dictionary)."""
    got = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            for line in open(os.path.join(d, f), errors="replace"):
                line = line.split("//")[0]
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][-+]?[0-9]+)?)", line):
                    t = m.group(1).replace("_", "")
                    try:
                        v = float(int(t, 0)) if t[:2].lower() in ("0x", "0b", "0o") else float(t)
                    except (ValueError, OverflowError):
                        continue
                    got.add(v)
                    if t.lower().startswith("0x") and int(t, 0) >= 1 << 20:
                        # perhaps the bits of a float
                        n = int(t, 0)
                        b = struct.unpack("<f", struct.pack("<I", n))[0] if n < 1 << 32 else struct.unpack("<d", struct.pack("<Q", n))[0] if n < 1 << 64 else 0.0
                        if b == b and abs(b) != float("inf"):
                            got.add(b)
    got.discard(0.0)
    return ",".join(repr(v) for v in sorted(got)[:2000])


def env_for(tgt):
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings", CARGO_INCREMENTAL="0")
    return e


def build(pid, out, tier):
    """All profiles side by side, each in its own target directory. Returns an error text or None."""
    h = repo_hash()
    procs = []
    for leg, flags, _ in legs(pid, tier):
        tgt = os.path.join(BUILD, leg)
        os.makedirs(tgt, exist_ok=True)
        stamp = os.path.join(tgt, "repo.sha256")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h and old:
            # do not depend on file times: what was built from another tree is dropped
            subprocess.run(["cargo", "clean", "--offline", "-p", "mixed-num"] + [f for f in flags if f not in ("--features", "std")], cwd=HARNESS, env=env_for(tgt), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(stamp, "w").write(h)
        cmd = ["cargo", "build", "--offline", "--quiet", "--bin", pid.lower()] + flags
        if leg == "release" and pid in RELEASE_FEATURES:
            cmd += ["--features", ",".join(RELEASE_FEATURES[pid])]
        log = open(os.path.join(out, f"{leg}.build.log"), "w")
        procs.append((leg, subprocess.Popen(cmd, cwd=HARNESS, env=env_for(tgt), stdout=log, stderr=log), log))
    bad = None
    for leg, p, log in procs:
        rc = p.wait()
        log.close()
        if rc != 0:
            bad = f"building the {leg} leg failed:\n" + open(log.name).read()[-3000:]
    return bad


def sanitizer_legs(pid, out, base_env, tier, limit):
    """C23: the same workload under AddressSanitizer, ThreadSanitizer and the Miri interpreter.
    Returns (parts, violations, error)."""
    h = repo_hash()
    def tenv(leg, flags):
        tgt = os.path.join(BUILD, leg)
        os.makedirs(tgt, exist_ok=True)
        stamp = os.path.join(tgt, "repo.sha256")
        if os.path.exists(stamp) and open(stamp).read() != h:
            shutil.rmtree(tgt)
            os.makedirs(tgt)
        open(stamp, "w").write(h)
        return dict(env_for(tgt), RUSTFLAGS=("-Awarnings " + flags).strip())
    b = pid.lower()
    asan, tsan, miri = tenv("asan", "-Zsanitizer=address"), tenv("tsan", "-Zsanitizer=thread"), tenv("miri", "")
    sysroot = os.path.join(BUILD, "miri-sysroot")
    miri["MIRI_SYSROOT"] = sysroot
    logs = {k: open(os.path.join(out, f"{k}.build.log"), "w") for k in ("asan", "tsan", "miri")}
    sp = lambda k, cmd, e: subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=logs[k], stderr=logs[k])
    pa = sp("asan", ["cargo", "+nightly", "build", "--offline", "--profile", "checked", "--target", TRIPLE, "--bin", b], asan)
    pt = sp("tsan", ["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--release", "--target", TRIPLE, "--bin", b], tsan)
    ready = os.path.join(sysroot, "lib", "rustlib", TRIPLE, "lib")
    pm = None if os.path.isdir(ready) and os.listdir(ready) else sp("miri", ["cargo", "+nightly", "miri", "setup"], miri)
    for k, p in (("asan", pa), ("tsan", pt), ("miri", pm)):
        if p is not None and p.wait() != 0:
            for q in (pa, pt, pm):
                if q is not None and q.poll() is None:
                    q.kill()
            logs[k].flush()
            return [], [], f"building the {k} leg failed:\n" + open(logs[k].name).read()[-3000:]
    # the interpreter's own build step, once, with a job that does nothing (an absent shard)
    mcmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--features", "soft", "--bin", b]
    runs = []
    def start(leg, cmd, e):
        f = open(os.path.join(out, f"{leg}.log"), "w")
        runs.append((leg, subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True), f))
    for leg, d, opt in (("asan", "checked", "ASAN_OPTIONS"), ("tsan", "release", "TSAN_OPTIONS")):
        e = dict(base_env, MON_OUT=os.path.join(out, f"{leg}.json"), MON_PROFILE=leg)
        e[opt] = "exitcode=66:halt_on_error=1:detect_leaks=0:detect_stack_use_after_return=1" if leg == "asan" else "exitcode=66:halt_on_error=1"
        start(leg, [os.path.join(BUILD, leg, TRIPLE, d, b)], e)
    for i in range(SHARDS):
        e = dict(base_env)
        e.update({k: miri[k] for k in ("CARGO_TARGET_DIR", "CARGO_NET_OFFLINE", "CARGO_TERM_COLOR", "RUSTFLAGS", "CARGO_INCREMENTAL", "MIRI_SYSROOT")})
        e.update(MON_PROFILE="miri", MON_THREADS="1", MON_BUDGET=str(200 if tier == "quick" else 3600), MON_SHARD=str(i), MON_SHARDS=str(SHARDS), MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={base_env['VERIF_SEED']}{i}")
        start(f"miri{i}", mcmd, e)
    parts, viol, deadline = [], [], time.time() + limit
    waiting = list(runs)
    def stop():
        for _, q, _ in waiting:
            try:
                os.killpg(q.pid, signal.SIGKILL)  # cargo and the interpreter it started
            except ProcessLookupError:
                pass
    while waiting:
        i = next((i for i, (_, p, _) in enumerate(waiting) if p.poll() is not None), None)
        if i is None:
            if viol:
                deadline = min(deadline, t_viol + 60)
            if time.time() > deadline:
                stop()
                return parts, viol, "the legs " + ", ".join(l for l, _, _ in waiting) + f" gave no answer within {limit} s"
            time.sleep(0.2)
            continue
        leg, p, f = waiting.pop(i)
        if not viol:
            t_viol = time.time()  # a violation stands whatever the others see: they get a minute more from here
        f.close()
        text = open(f.name, errors="replace").read()
        rc = p.returncode
        report = next((l for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l or "Undefined Behavior" in l or "Data race detected" in l or "error: the evaluated program leaked" in l or "error: deadlock" in l), None)
        if report or rc < 0 or rc == 66:
            viol.append({"sig": f"{leg}:{(report or str(rc)).strip()[:120]}", "detail": (report or f"the process ended with {rc}") + "\n" + text[-1500:], "count": 1, "profile": leg})
            continue
        if leg.startswith("miri"):
            if "unsupported operation" in text:
                print(f"{pid} [{leg}] the interpreter does not support an operation of the code; its shard observed nothing")
                continue
            i = text.find('{\n"property"')
            if rc not in (0, 1) or i < 0:
                stop()
                return parts, viol, f"the {leg} leg ended with {rc}: {text[-1500:]}"
            j = json.JSONDecoder().raw_decode(text[i:])[0]
            j["profile"] = leg
        else:
            part = os.path.join(out, f"{leg}.json")
            if rc not in (0, 1) or not os.path.exists(part):
                stop()
                return parts, viol, f"the {leg} leg ended with {rc}: {text[-1500:]}"
            j = json.load(open(part))
        print(next((l for l in reversed(text.splitlines()) if l.startswith(pid + " [")), ""))
        parts.append(j)
        viol += [dict(v, profile=leg) for v in j["violations"]]
    return parts, viol, None


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # every check builds what it needs; this only shows early that building works offline
        return subprocess.run(["cargo", "build", "--offline", "--quiet", "--lib", "--profile", "checked"], cwd=HARNESS, env=env_for(os.path.join(BUILD, "checked"))).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ["MON_DICT"] = literals()
    out = os.path.join(BUILD, "out", pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    ev = os.path.join(evdir, f"{pid}.json")
    if os.path.exists(ev):
        os.unlink(ev)
    err = None if pid == "C23" else build(pid, out, tier)
    if err:
        print(f"ERROR {pid}: {err}", file=sys.stderr)
        return 2
    t_build = time.time() - t0
    limit = 330 if tier == "quick" else 6 * 3600
    parts, viol, known, errors = [], [], [], []
    if pid == "C23":
        parts, viol, err = sanitizer_legs(pid, out, dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier), tier, max(limit, 600))
        if err and not viol:
            print(f"ERROR {pid}: {err}", file=sys.stderr)
            return 3
    for leg, _, d in [] if pid == "C23" else legs(pid, tier):
        exe = os.path.join(BUILD, leg, d, pid.lower())
        part = os.path.join(out, f"{leg}.json")
        e = dict(os.environ, MON_OUT=part, MON_PROFILE=leg, VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_KNOWN=os.path.join(HERE, "known_findings.txt"), MON_DIGEST_DIR=out, MON_DEADLINE=str(int(limit * 0.6)))
        try:
            p = subprocess.run([exe], env=e, timeout=limit, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            errors.append(f"the {leg} leg gave no answer within {limit} s")
            continue
        sys.stdout.write(p.stdout)
        rc = p.returncode
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
            viol.append({"sig": f"crash:{leg}", "detail": f"the process running the library died of {signal.Signals(-rc).name} (stack overflow, abort or undefined behaviour): {p.stdout[-500:]}", "count": 1, "profile": leg})
            continue
        if rc not in (0, 1) or not os.path.exists(part):
            errors.append(f"the {leg} leg ended with {rc}")
            continue
        j = json.load(open(part))
        parts.append(j)
        viol += [dict(v, profile=leg) for v in j["violations"]]
        known += [dict(k, profile=leg) for k in j["known_findings_seen"]]
    if errors:
        print(f"ERROR {pid}: " + "; ".join(errors), file=sys.stderr)
        if not viol:  # what one leg saw stands, whatever became of the other
            return 4
    seen = set()
    for k in known:
        if k["sig"] not in seen:
            seen.add(k["sig"])
            print(f"KNOWN-FINDING: property={pid} {k['sig']} {k['what']}")
    if not parts and viol:
        parts = [NOTHING]
    if not parts:
        print(f"ERROR {pid}: nothing was observed", file=sys.stderr)
        return 5
    evals = sum(p["evaluations"] for p in parts)
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
        "rule": (parts[0]["rule"] if parts else "-") + "; every case counts once per build profile it ran in",
        "samples": [s for p in parts for s in p["samples"]][:16],
        "profiles": {p["profile"]: {k: p[k] for k in ("evaluations", "distinct_nontrivial", "outside_domain_skipped", "panics_observed", "jobs", "threads", "calls_by_operation", "observed", "worst_observed", "wall_s")} for p in parts},
        "known_findings_seen": known,
        "build_s": round(t_build, 1),
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["the host's f64 arithmetic and libm are the reference where an oracle computes in floating point",
                               "rustc, the fixed, cordic, libm and num crates are as locked in harness/Cargo.lock"],
               "wall_s": round(time.time() - t0, 1), "violations": len(viol)}, open(ev, "w"), indent=1)
    if viol:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}-{seed}-{tier}.json")
        json.dump({"property": pid, "tier": tier, "seed": seed, "repo_src_sha256": repo_hash(), "violations": viol[:100],
                   "replay": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 {os.path.join(HERE, 'check.py')} {pid}  # the inputs are a function of the seed; each violation lists its exact arguments"}, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
