#!/usr/bin/env python3
"""Sanitizer and interpreter runs: C23 (AddressSanitizer + Miri) and C24 (ThreadSanitizer + Miri).

Usage: san.py <C23|C24> [--tier quick|thorough] [--replay FILE] | --setup
Builds the monitor against /repo's working tree with the sanitizer and for the interpreter, runs
both, and turns their reports into VIOLATION lines. Exit code 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time

ROOT = os.environ.get("VP_ROOT", "/verif")
HARNESS = ROOT + "/harness/Cargo.toml"
TARGET = ROOT + "/target"
TRIPLE = "x86_64-unknown-linux-gnu"
SAN = {"C23": "address", "C24": "thread"}
SHARDS = 8
# Suites by parts of their names; one case of these takes the interpreter more than about ten seconds.
SKIP = {"C23": """large wide hub big fat high many huge crowd C11/all8 C11/block16 C11/u C18/rewire C18/deep C20/hierarchy C19/compare""".split(), "C24": []}


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VP_ROOT=ROOT, VP_NO_RLIMIT="1",
             MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance",
             ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
             TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:report_thread_leaks=0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def forget(target):
    """Never trust modification times for the code under test."""
    subprocess.run(["find", target, "-maxdepth", "5", "-path", "*.fingerprint/portgraph-*", "-prune", "-exec", "rm", "-rf", "{}", "+"],
                   stderr=subprocess.DEVNULL)


def san_build(pid):
    bin_, t = pid.lower(), f"{TARGET}/{SAN[pid]}"
    flags = f"-Zsanitizer={SAN[pid]} -Zub-checks=yes --cfg vp_san"
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", HARNESS, "--profile", "san", "--target", TRIPLE, "--target-dir", t, "--bin", bin_]
    if pid == "C24":
        # A race is only seen if both sides are instrumented, the standard library included.
        cmd += ["-Zbuild-std=std,panic_unwind"]
    return cmd, env(RUSTFLAGS=flags)


def miri_cmd(pid):
    return ["cargo", "miri", "run", "--offline", "--locked", "--manifest-path", HARNESS, "--profile", "san", "--target-dir", TARGET + "/miri", "--bin", pid.lower()]


def build(pid):
    os.makedirs(TARGET, exist_ok=True)
    forget(f"{TARGET}/{SAN[pid]}")
    forget(f"{TARGET}/miri")
    logs = []
    cmd, e = san_build(pid)
    ps = []
    jobs = [("san", cmd, e), ("miri", miri_cmd(pid), env(VP_MIRI_SECS=0))]
    if pid == "C24":
        forget(f"{TARGET}/vp")
        jobs.append(("plain", ["cargo", "build", "--offline", "--locked", "--manifest-path", HARNESS, "--profile", "vp", "--target-dir", TARGET, "--bin", "c24"],
                     env(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")))
    for name, c, ee in jobs:
        p = f"{TARGET}/build-{pid.lower()}-{name}.log"
        logs.append(p)
        ps.append(subprocess.Popen(c, env=ee, stdout=subprocess.DEVNULL, stderr=open(p, "w"), stdin=subprocess.DEVNULL, cwd=ROOT))
    bad = False
    for p, l in zip(ps, logs):
        if p.wait() != 0:
            sys.stderr.write("".join(open(l).readlines()[-40:]))
            bad = True
    if bad:
        sys.stderr.write(f"check {pid}: the build failed\n")
        sys.exit(2)


def write_replay(pid, d):
    os.makedirs(ROOT + "/replays", exist_ok=True)
    p = f"{ROOT}/replays/{pid}-{d['engine']}-{d['suite'].replace('/', '_')}-{d['case_seed']}.json"
    d["property"] = pid
    d["replay"] = f"bash /verif/check.sh {pid} --replay {p}"
    json.dump(d, open(p, "w"), indent=1)
    return p


def miri_verdict(out, err, code):
    """(violation message or None, summary)"""
    last = None
    s = {"cases": 0, "distinct": 0, "suites": {}, "counts": {}, "done": False}
    for l in out.splitlines():
        if l.startswith("@ "):
            last = l[2:].split(",")
            s["cases"] += 1
        elif l.startswith("SUITE "):
            _, n, k, ms = l.split()
            s["suites"][n] = (int(k), int(ms))
        elif l.startswith("COUNT "):
            _, n, k = l.split()
            s["counts"][n] = int(k)
        elif l.startswith("DONE"):
            s["done"] = True
            if len(l.split()) > 2:
                s["distinct"] = int(l.split()[2])
    s["last"] = last
    if code == 0 or s["done"]:
        return None, s
    m = re.search(r"^error: (Undefined Behavior: .*|the evaluated program deadlocked.*|abnormal termination: .*|the program aborted execution.*|.*[Dd]ata race.*)$", err, re.M)
    if m and last:
        ctx = err[m.start():m.start() + 3000]
        return m.group(1) + "\n" + ctx, s
    s["other_error"] = (re.search(r"^error.*$", err, re.M) or re.search(".*", "")).group(0)
    return None, s


def run_miri(pid, secs, seed):
    procs = []
    for i in range(SHARDS):
        o, e = (open(f"{TARGET}/miri-{pid.lower()}-{i}.{x}", "w+") for x in ("out", "err"))
        ee = env(VP_SHARD=i, VP_SHARDS=SHARDS, VP_MIRI_SECS=secs, VERIF_SEED=seed, VP_SKIP=",".join(SKIP[pid]))
        if pid == "C24":
            # another schedule in each shard
            ee["MIRIFLAGS"] += f" -Zmiri-seed={seed * SHARDS + i} -Zmiri-preemption-rate=0.{'1' if i % 2 else '3'}"
        procs.append((subprocess.Popen(miri_cmd(pid), env=ee, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=ROOT), o, e))
    end = time.time() + secs + 60
    found, sums = [], []
    for i, (p, o, e) in enumerate(procs):
        try:
            code = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-P", str(p.pid)])
            p.kill()
            p.wait()
            code = -9
        o.seek(0), e.seek(0)
        v, s = miri_verdict(o.read(), e.read(), code)
        s["code"] = code
        sums.append(s)
        if v:
            found.append((i, v, s["last"]))
    return found, sums


def main():
    if sys.argv[1] == "--setup":
        for pid in SAN:
            if os.path.exists(f"{ROOT}/harness/src/bin/{pid.lower()}.rs"):
                build(pid)
        return 0
    pid, args = sys.argv[1], sys.argv[2:]
    get = lambda k, d=None: args[args.index(k) + 1] if k in args else d
    tier = get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = f"{TARGET}/{SAN[pid]}/{TRIPLE}/san/{pid.lower()}"
    t0 = time.time()
    build(pid)
    if get("--replay"):
        d = json.load(open(get("--replay")))
        if d.get("engine") == "miri":
            e = env(VP_ONE=f"{d['suite']},{d['case_seed']},{d['size']}")
            e["MIRIFLAGS"] += d.get("miriflags", "")
            p = subprocess.run(miri_cmd(pid), env=e, stdin=subprocess.DEVNULL, cwd=ROOT, capture_output=True, text=True)
            v, _ = miri_verdict(p.stdout, p.stderr, p.returncode)
            if v:
                print(f"VIOLATION property={pid} replay={get('--replay')}\n  {v}")
                return 1
            print("no violation on replay")
            return 0
        return subprocess.run([exe, "--replay", get("--replay")], env=env(), cwd=ROOT).returncode
    quick = tier != "thorough"
    ev = f"{ROOT}/evidence/{pid}.json"
    plain = None
    if pid == "C24":
        # 0. at full speed, without a sanitizer: more and other interleavings
        r = subprocess.run([f"{TARGET}/vp/c24", "--tier", tier], env=env(VP_SCALE=os.environ.get("VP_SCALE", "600"), VERIF_SEED=seed), cwd=ROOT, stdin=subprocess.DEVNULL)
        if r.returncode:
            return r.returncode if r.returncode == 1 else 2
        plain = json.load(open(ev))["coverage"]
    # 1. the sanitizer
    scale = os.environ.get("VP_SCALE", {"C23": "35", "C24": "200"}[pid])
    p = subprocess.run([exe, "--tier", tier], env=env(VP_SCALE=scale, VERIF_SEED=seed), cwd=ROOT, stdin=subprocess.DEVNULL, capture_output=True, text=True)
    sys.stdout.write(p.stdout)
    sys.stdout.flush()
    reports = re.findall(r"^.*(?:ERROR: AddressSanitizer|WARNING: ThreadSanitizer|UNDEFINED BEHAVIOUR|unsafe precondition).*$", p.stderr, re.M)
    for r in reports[:3]:
        print("  " + r)
    if p.returncode not in (0, 1):
        sys.stderr.write(p.stderr[-4000:])
        return 2
    rc = p.returncode
    j = json.load(open(ev))
    # 2. the interpreter
    msecs = int(os.environ.get("VP_MIRI_SECS", {"C23": 75, "C24": 60}[pid] if quick else 1800))
    found, sums = ([], []) if rc else run_miri(pid, msecs, seed)
    for i, v, last in found[:3]:
        f = write_replay(pid, {"engine": "miri", "suite": last[0], "case_seed": last[1], "size": int(last[2]), "message": v,
                               "miriflags": f" -Zmiri-seed={seed * SHARDS + i} -Zmiri-preemption-rate=0.{'1' if i % 2 else '3'}" if pid == "C24" else ""})
        print(f"VIOLATION property={pid} replay={f}\n  miri: " + v[:1500].replace("\n", "\n  "))
        rc = 1
    other = [s for s in sums if s.get("other_error")]
    suites = {}
    counts = {}
    for s in sums:
        for n, (k, ms) in s["suites"].items():
            a = suites.setdefault(n, [0, 0])
            a[0] += k
            a[1] += ms
        for n, k in s["counts"].items():
            counts[n] = counts.get(n, 0) + k
    j["coverage"]["sanitizer"] = SAN[pid] + " (nightly, release semantics, unsafe precondition checks on)"
    j["coverage"]["sanitizer_reports"] = len(reports)
    j["coverage"]["interpreter"] = {
        "engine": "miri", "processes": len(sums), "cases": sum(s["cases"] for s in sums), "distinct_nontrivial": sum(s["distinct"] for s in sums),
        "cases_per_suite": {n: k for n, (k, _) in sorted(suites.items())}, "observed": counts,
        "not_run_too_slow": SKIP[pid], "shards_cut_off": sum(1 for s in sums if not s["done"]), "reports": len(found),
        "schedules": "preemption at random points, one seed per process" if pid == "C24" else "single thread",
    }
    if plain:
        j["coverage"]["without_sanitizer"] = {k: plain[k] for k in ("evaluations", "distinct_nontrivial", "observed", "cases_per_suite")}
        j["coverage"]["evaluations"] += plain["evaluations"]
    j["coverage"]["evaluations"] += sum(s["cases"] for s in sums)
    j["wall_s"] = time.time() - t0
    j["violations"] = max(j["violations"], len(found))
    json.dump(j, open(ev, "w"), indent=1)
    if rc == 0 and (len(other) == len(sums) or sum(s["cases"] for s in sums) == 0):
        sys.stderr.write("the interpreter did not run: " + str([s.get("other_error") for s in other][:1]) + "\n")
        return 2
    if rc == 0:
        print(f"{pid}: interpreter ok, {j['coverage']['interpreter']['cases']} cases in {SHARDS} processes; {time.time() - t0:.0f} s in total")
        if os.environ.get("VP_SLOW"):
            for n, (k, ms) in sorted(suites.items(), key=lambda x: x[1][1] / x[1][0])[-40:]:
                print(f"   {ms / k:9.0f} ms {k:5d} {n}")
            print([s["last"] for s in sums if not s["done"]])
    return rc


sys.exit(main())
