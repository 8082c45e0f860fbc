"""Build and confirm planted bugs.  usage: mkseed.py FILE.py [ID...]
FILE.py defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], main=RUST)};
release=True runs the demo optimised; control=RUST (with main=RUST that must be refused) makes
a demo which is right when control compiles and main does not.  SEEDOUT: where to keep them.
Each is made in a scratch copy of /repo, which is removed afterwards; kept in
/verif/seeded only if it builds, passes the stable tests and the demo tells it apart."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exits 0 when the behaviour is right; cwd is the repository
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
monoasm = { path = "$PWD/monoasm" }
monoasm_macro = { path = "$PWD/monoasm_macro" }
[workspace]
E
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target" CARGO_TERM_COLOR=never
cd "$d" && ulimit -c 0 && timeout 250 cargo run -q --offline
'''
REFUSE = DEMO.replace('timeout 250 cargo run -q --offline', """true || exit 2
cp "$here/control.rs" src/main.rs
timeout 120 cargo build -q --offline || { echo the control does not build; exit 3; }
cp "$here/main.rs" src/main.rs; touch src/main.rs
if timeout 120 cargo build -q --offline 2>/dev/null; then echo accepted; exit 1; fi""")
E = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
         CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=E, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = ns["SEEDS"]
    work = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    w = os.path.join(work, "repo")
    subprocess.check_call(["cp", "-a", "/repo", w])
    try:
        for sid in sys.argv[2:] or seeds:
            s = seeds[sid]
            subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=w)
            out = os.path.join(work, sid)
            os.makedirs(out)
            open(out + "/main.rs", "w").write("#![allow(warnings)]\n" + s["main"].strip() + "\n")
            if "control" in s:
                open(out + "/control.rs", "w").write("#![allow(warnings)]\n" + s["control"].strip() + "\n")
                open(out + "/demo.sh", "w").write(REFUSE)
            else:
                open(out + "/demo.sh", "w").write(DEMO.replace("run -q", "run -q --release") if s.get("release") else DEMO)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            r = sh("%s/demo.sh" % out, w)
            if r.returncode:
                print(sid, "REJECTED: demo fails on the unchanged tree\n", r.stdout[-1500:])
                continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(w, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(sid, "REJECTED: edit matches", t.count(old), "times:", old[:80])
                    bad = True
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                continue
            d = subprocess.check_output(["git", "diff"], cwd=w, text=True)
            open(out + "/patch.diff", "w").write(d)
            r = sh("cargo nextest run --workspace --offline --no-tests pass", w)
            if r.returncode:
                print(sid, "REJECTED: build or tests fail\n", r.stdout[-2500:])
                continue
            r = sh("%s/demo.sh" % out, w)
            if r.returncode == 0:
                print(sid, "REJECTED: demo passes with the patch\n", r.stdout[-500:])
                continue
            dst = os.path.join(os.environ.get("SEEDOUT") or os.path.join(ROOT, "seeded"), sid)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(sid, "kept; demo says:", r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else r.returncode, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
