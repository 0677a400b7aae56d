"""Self-test of the checks: applies small edits to a scratch copy of /repo and
runs checks on it.  usage: mutate.py [-j N] [ID-or-property-regex ...]
Edits live in tools/mutants_*.py as M(id, properties, file, old, new, expect)
with expect 'bad' (some listed property must report) or 'ok' (all quiet)."""
import sys, os, re, shutil, subprocess, importlib.util, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
MUT = []
def M(id, props, file, old, new=None, expect="bad", count=1):
    if isinstance(old, list): file, old = [(file, *(tuple(e) + (1,))[:3]) for e in old], None
    MUT.append((id, props.split(), [(file, old, new, count)] if isinstance(file, str) else file, expect or "bad"))
def load():
    for p in sorted(glob.glob(os.path.join(HERE, "mutants_*.py"))):
        exec(compile(open(p).read(), p, "exec"), {"M": M})
def setup(i):
    d = os.environ.get("MM_MUT", "/tmp/mm_mut") + "/%d" % i
    os.makedirs(d, exist_ok=True)
    cache = d + "/cache"
    os.makedirs(cache, exist_ok=True)
    if not os.path.exists(cache + "/driver"): subprocess.run(["cp", "-a", VERIF + "/.cache/driver", cache + "/driver"])
    return d
def run(job, q):
    id, props, edits, expect = job
    i = q.get()
    try:
        d = setup(i)
        repo = d + "/repo"
        subprocess.run("rsync -a --delete --exclude target --exclude .git /repo/ %s/ 2>/dev/null || (rm -rf %s && mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s)" % (repo, repo, repo, repo), shell=True)
        for file, old, new, count in edits:
            p = os.path.join(repo, file); s = open(p).read()
            if s.count(old) < 1: return id, "NOMATCH", file
            s = s.replace(old, new) if count == 0 else (s.replace(old, new, 1) if count == 1 else new.join(s.rsplit(old, 1)))
            open(p, "w").write(s)
        env = dict(os.environ, MM_REPO=repo, MM_CACHE=d + "/cache", MM_EVIDENCE=d + "/ev")
        res = {}
        for pr in props:
            r = subprocess.run([sys.executable, VERIF + "/mm/check.py", pr], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[pr] = r
        fired = [p for p, r in res.items() if r.returncode == 1 and 'VIOLATION property' in r.stdout]
        broke = [p for p, r in res.items() if r.returncode != 0 and p not in fired]
        und = sum(r.stdout.count("UNDECIDED ") for r in res.values())
        detail = ""
        if broke: 
            return id, "BROKEN", (broke, [res[p].stdout[-600:] for p in broke])
        if expect == "bad": return id, "caught" if fired else "MISSED", (fired, und, "" if fired else "\n".join(r.stdout[:500] for r in res.values()))
        return id, "FALSE-ALARM" if fired else "quiet", (fired, und, "\n".join(res[p].stdout[:900] for p in fired) if fired else ("\n".join(r.stdout[:500] for r in res.values()) if und else ""))
    finally:
        q.put(i)
def main():
    a = sys.argv[1:]; n = 6
    if a[:1] == ["--setup"]:
        load()
        id, props, edits, expect = next(j for j in MUT if j[0] == a[1])
        d = setup(99); repo = d + "/repo"
        subprocess.run("rm -rf %s; mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (repo, repo, repo), shell=True)
        for file, old, new, count in edits:
            p = os.path.join(repo, file); s = open(p).read(); assert old in s
            open(p, "w").write(s.replace(old, new, 1))
        open("/tmp/mm_mut/env", "w").write("export MM_REPO=%s MM_CACHE=%s/cache MM_EVIDENCE=%s/ev MM_DEBUG=1\n" % (repo, d, d))
        return
    if "-j" in a: k = a.index("-j"); n = int(a[k + 1]); del a[k:k + 2]
    load()
    jobs = [j for j in MUT if not a or any(re.search(x, j[0]) or x in j[1] for x in a)]
    q = queue.Queue()
    for i in range(n): q.put(i)
    bad = 0
    with ThreadPoolExecutor(n) as ex:
        for id, st, info in ex.map(lambda j: run(j, q), jobs):
            show = st in ("MISSED", "FALSE-ALARM", "BROKEN", "NOMATCH") or (info[1] if isinstance(info, tuple) and len(info) > 1 and isinstance(info[1], int) else 0)
            print("%-34s %-11s %s" % (id, st, info if show else (info[0] if isinstance(info, tuple) else info)))
            sys.stdout.flush()
            bad += st in ("MISSED", "FALSE-ALARM", "BROKEN", "NOMATCH")
    print("%d edits, %d problems" % (len(jobs), bad))
main()
