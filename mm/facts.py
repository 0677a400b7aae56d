"""Extracts MIR facts from /repo's current working tree (or the tree named by
MM_REPO) by type-checking the workspace with the mmfacts compiler wrapper.
Nothing of the code under analysis is executed."""
import hashlib, json, os, shutil, subprocess, sys, glob, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MM_REPO", "/repo")
CACHE = os.environ.get("MM_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_DIR = os.path.join(VERIF, "driver")
CRATES = ["measureme", "decodeme", "analyzeme", "summarize", "crox", "mmview", "mmedit", "stack_collapse", "flamegraph"]
STD_ALLOW = ",".join([
    "core::option::Option", "<core::option::Option", "core::result::Result", "<core::result::Result",
    "<core::ops::control_flow", "core::ops::control_flow",
    "core::bool::", "core::cmp::Ordering", "core::cmp::PartialOrd", "core::cmp::Ord", "core::cmp::PartialEq::ne",
    "core::cmp::impls::",
])

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"], cwd="/").stdout.strip()

def build_driver():
    tgt = os.path.join(CACHE, "driver")
    exe = os.path.join(tgt, "release", "mmfacts")
    srcs = [os.path.join(DRIVER_DIR, "Cargo.toml")] + sorted(glob.glob(os.path.join(DRIVER_DIR, "src", "*.rs")))
    h = hashlib.sha256()
    for f in srcs:
        h.update(open(f, "rb").read())
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe, h.hexdigest()
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt)
    env.pop("RUSTFLAGS", None); env.pop("RUSTUP_TOOLCHAIN", None)
    r = sh(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER_DIR, env=env)
    if r.returncode != 0:
        raise BuildError("cannot build the fact extractor:\n" + r.stdout)
    with open(stamp, "w") as f:
        f.write(h.hexdigest())
    return exe, h.hexdigest()

def tree_hash(repo):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, repo).encode()); h.update(b"\0")
                h.update(open(p, "rb").read()); h.update(b"\0")
    h.update(STD_ALLOW.encode())
    return h.hexdigest()

def extract(big=False):
    """Returns the directory holding the fact files for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe, dh = build_driver()
        key = hashlib.sha256((tree_hash(REPO) + dh + str(big)).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, "facts", key)
        done = os.path.join(out, "done")
        if os.path.exists(done):
            return out
        fdir = os.path.join(CACHE, "facts")
        os.makedirs(fdir, exist_ok=True)
        olds = sorted(glob.glob(os.path.join(fdir, "*")), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(CACHE, "target-be" if big else "target")
        for c in CRATES:
            # force the wrapper to run on every workspace crate (either target layout)
            for p in glob.glob(os.path.join(target, "debug", ".fingerprint", c + "-*")) + \
                    glob.glob(os.path.join(target, "debug", "build", c)):
                shutil.rmtree(p, ignore_errors=True)
        sr = sysroot()
        env = dict(os.environ)
        env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=exe,
                   RUSTFLAGS="--cap-lints allow -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off",
                   MMFACTS_OUT=out, MMFACTS_STD=STD_ALLOW, MMFACTS_ENDIAN="big" if big else "little",
                   CARGO_INCREMENTAL="0",
                   LD_LIBRARY_PATH=os.path.join(sr, "lib") + ":" + env.get("LD_LIBRARY_PATH", ""))
        env.pop("RUSTUP_TOOLCHAIN", None)
        cmd = ["cargo", "+nightly", "check", "--offline"]
        cmd += (["-p", "measureme@" + ws_version("measureme")] if big else ["--workspace"])
        r = sh(cmd, cwd=REPO, env=env)
        if r.returncode != 0:
            raise BuildError("the workspace does not type-check:\n" + r.stdout[-6000:])
        want = ["measureme"] if big else CRATES
        have = {os.path.basename(f).split(".")[0] for f in glob.glob(os.path.join(out, "*.json"))}
        missing = [c for c in want if c not in have]
        if missing:
            raise BuildError("no facts for crates %s" % missing)
        open(done, "w").close()
        return out
    finally:
        lock.close()

def ws_version(name):
    import re
    txt = open(os.path.join(REPO, name, "Cargo.toml")).read()
    m = re.search(r'^version\s*=\s*"([^"]+)"', txt, re.M)
    if m:
        return m.group(1)
    txt = open(os.path.join(REPO, "Cargo.toml")).read()
    return re.search(r'^version\s*=\s*"([^"]+)"', txt, re.M).group(1)

if __name__ == "__main__":
    print(extract(big="--big" in sys.argv))
