#!/usr/bin/env python3
"""mkbug.py SPEC.py [ID...]: makes seeded/<id>/ from edit specifications, confirming each in a scratch copy.
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, what_it_breaks, main=<rust source> or files={}, demo=<sh>)]"""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/bugscratch"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV.pop("CARGO_TARGET_DIR", None)
DEMO = r'''#!/bin/bash
# Builds the program beside this script against the tree in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
monoasm = { path = "$R/monoasm" }
monoasm_macro = { path = "$R/monoasm_macro" }
EOF
cd "$T" && cargo build -q --offline && ulimit -c 0 && timeout 120 ./target/debug/demo
'''
# the program beside the script must not compile, although the control program does
DEMO_REJECT = r'''#!/bin/bash
# ok.rs must compile, bad.rs must be refused by the macro.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
mkdir -p "$T/src/bin"
cp "$D/ok.rs" "$D/bad.rs" "$T/src/bin/"
[ -f Cargo.lock ] && cp Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
monoasm = { path = "$R/monoasm" }
monoasm_macro = { path = "$R/monoasm_macro" }
EOF
cd "$T" || exit 2
cargo build -q --offline --bin ok || exit 3
if cargo build -q --offline --bin bad 2>"$T/err"; then echo "bad.rs was accepted"; exit 1; fi
exit 0
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    if not os.path.isdir(SCR):
        subprocess.run(["git", "clone", "-q", "/repo", SCR], check=True)
    subprocess.run(["git", "-C", SCR, "fetch", "-q", "origin"], check=True)
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    for b in spec:
        if only and b["id"] not in only:
            continue
        subprocess.run(["git", "-C", SCR, "checkout", "-q", "-f", head], check=True)
        out = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        files = dict(b.get("files", {}))
        if "main" in b:
            files["main.rs"] = b["main"]
        for n, s in files.items():
            open(os.path.join(out, n), "w").write(s.lstrip("\n"))
        demo = b.get("demo") or (DEMO_REJECT if "bad.rs" in files else DEMO)
        open(out + "/demo.sh", "w").write(demo)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what_it_breaks"]), open(out + "/meta.json", "w"), indent=1)
        clean = sh(["bash", out + "/demo.sh"], SCR)
        ok = clean.returncode == 0
        for f, old, new in b["edits"]:
            p = os.path.join(SCR, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES", s.count(old), repr(old[:80]))
                ok = False
                continue
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", SCR, "diff"], capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        t = sh(["cargo", "nextest", "run", "--workspace", "--offline", "--no-fail-fast"], SCR)
        tests = [l for l in t.stderr.split("\n") if "Summary" in l or " FAIL " in l or "error" in l]
        bug = sh(["bash", out + "/demo.sh"], SCR)
        good = ok and t.returncode == 0 and bug.returncode not in (0,)
        print("%s %s clean=%d tests=%s bug=%d %s" % ("KEEP" if good else "BAD ", b["id"], clean.returncode, "; ".join(x.strip() for x in tests)[:200], bug.returncode,
                                                  (bug.stdout + bug.stderr).strip().replace("\n", " | ")[-220:]), flush=True)
        if clean.returncode:
            print("  clean:", (clean.stdout + clean.stderr)[-1500:])
        subprocess.run(["git", "-C", SCR, "checkout", "-q", "-f", head], check=True)


main()
