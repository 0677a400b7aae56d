"""Small client programs checked by the compiler against /repo's recording library:
each must be rejected (with a given error) or accepted.  Nothing is run."""
import facts, fcntl, glob, json, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

class Cannot(Exception): pass

def library():
    """check the library from the current tree; (rmeta, folder of its dependencies)"""
    target = os.path.join(facts.CACHE, "witness")
    for p in glob.glob(os.path.join(target, "debug", ".fingerprint", "measureme-*")) + glob.glob(os.path.join(target, "debug", "build", "measureme")):
        shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints warn", CARGO_INCREMENTAL="0")
    env.pop("RUSTUP_TOOLCHAIN", None)
    r = subprocess.run(["cargo", "check", "--offline", "-p", "measureme@" + facts.ws_version("measureme"), "--message-format=json"],
                       cwd=facts.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: raise Cannot("the library does not type-check: " + r.stderr[-800:])
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] == "measureme" and "lib" in d["target"]["kind"]:
            for f in d["filenames"]:
                if f.endswith(".rmeta"): return f, os.path.join(target, "debug", "deps")
    raise Cannot("the library left no metadata")

def verdict(src, lib, out):
    """[] if accepted, else the (code, message, line) of each error"""
    f, deps = lib
    d = tempfile.mkdtemp(dir=out)
    p = os.path.join(d, "witness.rs")
    with open(p, "w") as h: h.write(src)
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "witness", "--emit=metadata", "--error-format=json",
                        "--extern", "measureme=" + f, "-L", "dependency=" + deps, "-o", os.path.join(d, "w.rmeta"), p],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d)
    errs = []
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("level") == "error" and m.get("spans"):
            errs.append(((m.get("code") or {}).get("code") or "", m["message"], m["spans"][0]["line_start"]))
    if r.returncode and not errs: raise Cannot("rustc: " + r.stderr[-500:])
    return errs if r.returncode else []

def run(programs):
    os.makedirs(facts.CACHE, exist_ok=True)
    with open(os.path.join(facts.CACHE, "witness.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        lib = library()
        out = tempfile.mkdtemp(dir=facts.CACHE)
        try:
            with ThreadPoolExecutor(8) as ex:
                return dict(zip(programs, ex.map(lambda n: verdict(programs[n], lib, out), programs)))
        finally: shutil.rmtree(out, ignore_errors=True)
