"""Creates and validates planted bugs: seeds described in tools/seeds/*.py.
usage: mkseed.py [id-regex...]   (writes /verif/seeded/<id>/)"""
import sys, os, re, json, subprocess, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO = '''#!/bin/bash
# %(what)s
set -e
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/demo/src" "$scratch/work"
cp "$here/main.rs" "$scratch/demo/src/main.rs"
cp "$repo/Cargo.lock" "$scratch/demo/Cargo.lock"
cat > "$scratch/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[profile.dev]
debug = false
[dependencies]
%(deps)s
EOF
cd "$scratch/demo"
CARGO_TARGET_DIR="$scratch/target" cargo build -q --offline
cd "$scratch/work"
REPO_BIN="$repo/target/debug" timeout 120 "$scratch/target/debug/demo"
'''
PATHDEPS = {n: '%s = { path = "$repo/%s" }' % (n, n) for n in ("measureme", "decodeme", "analyzeme")}
CRATES = {"serde_json": 'serde_json = "1.0"', "rustc-hash": 'rustc-hash = "1.0.1"', "parking_lot": 'parking_lot = "0.12.0"', "serde": 'serde = { version = "1.0", features = ["derive"] }'}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
SEEDS = []
def S(id, prop, edits, main, needs, breaks, deps="measureme", script=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, deps=deps, script=script))
def sh(cmd, cwd, t=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr
def main():
    ns = {"S": S}
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))): exec(compile(open(f).read(), f, "exec"), ns)
    pats = sys.argv[1:] or ["."]
    sel = [s for s in SEEDS if any(re.search(p, s["id"]) for p in pats)]
    W = "/tmp/mm_seed"; R = W + "/repo"
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True); sh("cp -a /repo %s" % R, "/")
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
    for s in sel:
        sh("git checkout -q -f . && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", R)
        for f, old, new in s["edits"]:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(old) != 1: print(s["id"], "BAD EDIT: %d matches of %r in %s" % (t.count(old), old[:60], f)); break
            open(p, "w").write(t.replace(old, new))
        else:
            _, diff = sh("git diff", R)
            d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if s["main"]:
                open(d + "/main.rs", "w").write(s["main"].lstrip("\n"))
                deps = "\n".join(PATHDEPS.get(x) or CRATES[x] for x in s["deps"].split())
                demo = DEMO % {"what": s["breaks"].split("\n")[0], "deps": deps}
                # the heredoc expands $repo
            else: demo = s["script"]
            open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
            rc, o = sh("cargo build -q --workspace --offline && cargo test -q --workspace --no-run --offline", R)
            if rc: print(s["id"], "DOES NOT BUILD", o[-600:]); continue
            rc, o = sh("rm -rf analyzeme/test-tmp; cargo test --workspace --no-fail-fast --offline -- --test-threads 8", R)
            bad = re.findall(r"^test (\S+) \.\.\. FAILED", o, re.M)
            n = len(re.findall(r"^test .* \.\.\. ok", o, re.M))
            rc1, o1 = sh("bash %s/demo.sh" % d, R)
            sh("git checkout -q -f .", R); rc, o = sh("cargo build -q --workspace --offline", R)
            rc0, o0 = sh("bash %s/demo.sh" % d, R)
            good = not bad and n >= len(stable) and rc0 == 0 and rc1 != 0
            print(s["id"], "OK" if good else "NOT USABLE", "tests ok %d failed %s; demo unpatched %d patched %d" % (n, bad, rc0, rc1))
            if not good: print("   unpatched:", o0[-500:], "\n   patched:", o1[-500:])
            else: print("   ", o1.strip().split("\n")[-1][:200])
        sys.stdout.flush()
main()
