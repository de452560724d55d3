#!/usr/bin/env python3
"""seed.py [ID...]: (re)creates /verif/seeded/<id> from tools/bugs/*.py, confirming
in a scratch copy that each change builds, passes the tests and fails its demo."""
import glob, json, os, re, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
topogeo = { path = "$repo" }
encoding = "0.2.33"
[workspace]
EOF
cd "$d"
cargo build --offline -q
timeout 60 ./target/debug/demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d, repo):
    e = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedwork-demo")
    s = open(os.path.join(d, "demo.sh")).read().replace("./target/debug/demo", "/tmp/seedwork-demo/debug/demo")
    t = os.path.join(d, ".demo-test.sh"); open(t, "w").write(s)
    r = sh(["bash", t], cwd=repo, env=e); os.remove(t)
    return r
def main():
    bugs = []
    for f in sorted(glob.glob(os.path.join(V, "tools/bugs/*.py"))): bugs += runpy.run_path(f)["BUGS"]
    want = sys.argv[1:]
    if os.path.exists(W): shutil.rmtree(W)
    sh(["git", "clone", "-q", "/repo", W])
    sh("cp -a /repo/target %s/target" % W)
    orig = subprocess.run(["git", "-C", W, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    for b in bugs:
        if want and b["id"] not in want: continue
        sh(["git", "-C", W, "checkout", "-q", "--", "."])
        base_lines = {}
        for (f, old, new) in b["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), f); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True).stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            orig_txt = subprocess.run(["git", "-C", W, "grep", "-h", "", orig, "--", "src"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            nonorig = [l for l in removed if l.strip() and l not in orig_txt]
            env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="")
            r = sh("cargo test --workspace --no-fail-fast --offline 2>&1", cwd=W, env=env)
            m = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
            ok = r.returncode == 0 and sum(int(x[1]) for x in m) >= 51
            d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip())
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r1 = demo(d, W); 
            r0 = demo(d, "/repo")
            good = ok and r1.returncode != 0 and r0.returncode == 0 and "error[E" not in r1.stdout and "could not compile" not in r1.stdout
            print(b["id"], b["property"], "tests", "ok" if ok else "FAIL %s\n%s" % (m, r.stdout[-1500:] if not m else "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or "panicked" in l)), "demo clean=%d bug=%d" % (r0.returncode, r1.returncode), "GOOD" if good else "BAD\n" + r0.stdout[-1500:] + "\n--bug--\n" + r1.stdout[-1500:], "non-original lines: %s" % nonorig if nonorig else "", flush=True)
            if not good: shutil.rmtree(d)
    shutil.rmtree(W)
main()
