#!/usr/bin/env python3
"""Planted bugs: makes and confirms /verif/seeded/<id>.

usage: seed.py ID [--skip-tests] [--check]     (ID names a file tools/seeds/ID.py)

tools/seeds/ID.py sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO (the text of a Rust main program); optional PRELUDE is put in demo.sh.
"""
import json, os, runpy, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/seed-scratch"
DEMO_SH = r'''#!/bin/bash
# Builds a small program against the current directory's bellman and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" && cp "$here/demo.rs" "$work/src/main.rs" && cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 2
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
bellman = { path = "$repo" @FEATURES@ }
@GROTH16@
bls12_381 = "0.8"
ff = "0.13"
group = "0.13"
pairing = "0.23"
rand_core = "0.6"
rand_xorshift = "0.3"
@EXTRA@
[profile.dev]
opt-level = 2
debug = 0
debug-assertions = true
overflow-checks = true
EOF
@PRELUDE@cd "$work" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> "$work/log" || { tail -30 "$work/log"; exit 3; }
timeout @TIMEOUT@ "$work/target/demo" 2>&1 || timeout @TIMEOUT@ "$work/target/debug/demo"
'''.replace('timeout @TIMEOUT@ "$work/target/demo" 2>&1 || ', '')

def sh(c, cwd=None, env=None, quiet=True):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE if quiet else None, stderr=subprocess.STDOUT if quiet else None, text=True)

def main():
    i = sys.argv[1]
    sys.path.insert(0, os.path.join(VERIF, "tools/seeds"))
    m = runpy.run_path(os.path.join(VERIF, "tools/seeds/%s.py" % i))
    if not os.path.isdir(SCR):
        shutil.copytree("/repo", SCR, symlinks=True)
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", SCR)
    out = os.path.join(VERIF, "seeded", i)
    os.makedirs(out, exist_ok=True)
    for f, old, new in m["EDITS"]:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s" % (i, s.count(old), f))
        open(p, "w").write(s.replace(old, new))
    d = sh("git diff", SCR).stdout
    open(os.path.join(out, "patch.diff"), "w").write(d)
    ser = m.get("SERIAL", False)
    t = DEMO_SH.replace("@FEATURES@", ', default-features = false' if ser else "")
    t = t.replace("@GROTH16@", "" if ser else 'groth16 = { path = "$repo/groth16" }')
    t = t.replace("@EXTRA@", m.get("EXTRA", "")).replace("@TIMEOUT@", str(m.get("TIMEOUT", 60)))
    t = t.replace("@PRELUDE@", m.get("PRELUDE", ""))
    open(os.path.join(out, "demo.sh"), "w").write(t)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.rs"), "w").write(m["DEMO"].lstrip())
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    a = sh("bash %s/demo.sh" % out, SCR)
    print(i, "patched demo:", a.returncode, a.stdout.strip()[-300:].replace("\n", " | "))
    if a.returncode in (0, 2, 3):
        print("   BAD: demo does not fail with the patch")
    if "--skip-tests" not in sys.argv:
        env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.70.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_PROFILE_DEV_DEBUG="1", RUSTDOCFLAGS="-C opt-level=3 -C debug-assertions=on -C overflow-checks=on")
        env.pop("CARGO_TARGET_DIR", None); env.pop("RUSTFLAGS", None)
        env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8 2>&1", SCR, env)
        open("/tmp/seed-test.log", "w").write(r.stdout)
        import re
        ok = set(re.findall(r"^test (.*?) \.\.\. ok", r.stdout, re.M))
        bad = re.findall(r"^test (.*?) \.\.\. FAILED", r.stdout, re.M)
        print("   tests: %d ok, failed: %s rc=%d" % (len(ok), bad, r.returncode))
    sh("git checkout -q -f HEAD", SCR)
    b = sh("bash %s/demo.sh" % out, SCR)
    print("   clean demo:", b.returncode, b.stdout.strip()[-200:].replace("\n", " | "))

main()
