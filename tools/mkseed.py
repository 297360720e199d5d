#!/usr/bin/env python3
"""Creates planted bugs from a spec (a python file defining SEEDS) and confirms each in a scratch copy.
usage: mkseed.py SPEC [ID...]      Each seed: dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=<rust main source>)
Confirmation: the patched tree compiles, the stable tests pass, the demo passes without and fails with the patch."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = "/verif/seeded"
SCR = "/tmp/seedscratch"
DEMO = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory; exit 0 iff its assertions hold.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
portgraph = { path = "$repo", features = ["serde", "petgraph"EXTRA] }
DEPS
T
cd "$d" && timeout 280 cargo run --offline -q
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
    PROPTEST_RNG_SEED="1", PROPTEST_DISABLE_FAILURE_PERSISTENCE="true", INSTA_UPDATE="no", INSTA_FORCE_PASS="0", PYO3_PYTHON="/usr/bin/python3")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    if not os.path.isdir(SCR): sh(f"cp -a /repo {SCR}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {SCR} fetch -q /repo HEAD; git -C {SCR} checkout -q -f {head}; git -C {SCR} checkout -q -- .")
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        r = one(s)
        print(s["id"], r, flush=True)
def one(s):
    sh(f"git -C {SCR} checkout -q -- .")
    for f, old, new in s["edits"]:
        p = f"{SCR}/{f}"; t = open(p).read()
        if t.count(old) != 1: return f"BAD EDIT: {t.count(old)} matches in {f}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(f"git -C {SCR} diff").stdout
    d = f"{ROOT}/{s['id']}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(s["demo"].lstrip().replace("use portgraph::", "use ::portgraph::"))
    open(f"{d}/demo.sh", "w").write(DEMO.replace("DEPS", s.get("deps", "")).replace("EXTRA", "".join(f', "{f}"' for f in s.get("features", []))).replace("export HOME", "export PYO3_PYTHON=/usr/bin/python3 HOME" if "pyo3" in s.get("features", []) else "export HOME"))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    def drop(why):
        os.makedirs("/tmp/seedrejected", exist_ok=True)
        shutil.rmtree(f"/tmp/seedrejected/{s['id']}", ignore_errors=True); shutil.move(d, "/tmp/seedrejected/")
        return "REJECTED: " + why
    sh(f"touch {SCR}/src/lib.rs")
    r = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1", cwd=SCR, env=ENV)
    open("/tmp/seedtest.log", "w").write(r.stdout)
    sh(f"python3 /opt/vp/results.py /tmp/seedres.json cargo:/tmp/seedtest.log")
    res = json.load(open("/tmp/seedres.json"))
    miss = stable - set(res["passed"])
    if miss: return drop(f"tests fail: {sorted(miss)[:5]} " + ("(build?) " + r.stdout[-1500:] if len(miss) > 100 else ""))
    r = sh("cargo build --no-default-features --offline 2>&1", cwd=SCR, env=ENV)
    if r.returncode: return drop("no-default build fails")
    r = sh(f"bash {d}/demo.sh", cwd=SCR)
    if r.returncode == 0: return drop("demo passes with the patch")
    fail = [l for l in r.stderr.splitlines() if "error" in l][:3]
    if fail: return drop("demo does not compile? " + r.stderr[-1500:])
    why = (r.stderr.strip().splitlines() or ["?"])
    sh(f"git -C {SCR} checkout -q -- .")
    r = sh(f"bash {d}/demo.sh", cwd=SCR)
    if r.returncode: return drop("demo fails without the patch: " + r.stderr[-800:])
    return "CONFIRMED (" + " | ".join(why[:2])[:200] + ")"
main()
