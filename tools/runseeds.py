"""Runs the checks against planted bugs in a scratch copy.
usage: runseeds.py [-a] [-j N] [id-regex...]   (-a: all properties, not only the bug's own)"""
import sys, os, re, json, subprocess, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
av = sys.argv[1:]; J = 3
allp = "-a" in av
if allp: av.remove("-a")
if "-j" in av: i = av.index("-j"); J = int(av[i + 1]); del av[i:i + 2]
ids = sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*") if os.path.exists(d + "/meta.json"))
ids = [i for i in ids if not av or any(re.search(p, i) for p in av)]
claimed = [c["property_id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if allp else []
import queue
slots = queue.Queue()
for n in range(J): slots.put(n)
def one(i):
    n = slots.get()
    try:
        R = "/tmp/mm_rs/%d/repo" % n; W = "/tmp/mm_rs/%d" % n
        os.makedirs(R, exist_ok=True)
        subprocess.run("rsync -a --delete --exclude target --exclude .git /repo/ %s/" % R if os.path.exists("/usr/bin/rsync") else "rm -rf %s && mkdir -p %s && cd /repo && tar c --exclude=./target --exclude=./.git . | tar x -C %s" % (R, R, R), shell=True, check=True)
        r = subprocess.run("patch -p1 -s < %s/seeded/%s/patch.diff" % (V, i), shell=True, cwd=R, capture_output=True, text=True)
        if r.returncode: return i, "PATCH FAILS " + r.stdout[:200]
        env = dict(os.environ, MM_REPO=R, MM_CACHE=W + "/cache", MM_EVIDENCE=W + "/evidence")
        os.makedirs(W + "/evidence", exist_ok=True)
        prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        out = []
        for p in ([prop] if not allp else claimed):
            r = subprocess.run([sys.executable, V + "/mm/check.py", p], env=env, capture_output=True, text=True, timeout=1200)
            und = len(re.findall(r"^undecided", r.stdout, re.M | re.I))
            if p == prop or r.returncode: out.append("%s:%s%s" % (p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode), " (%d undecided)" % und if und else ""))
            if p == prop and not allp:
                m = re.findall(r"^(violated.*|undecided.*)", r.stdout, re.M)
                out += ["   " + x[:200] for x in m[:3]]
        return i, "\n".join(out)
    finally: slots.put(n)
with ThreadPoolExecutor(J) as ex:
    for i, o in ex.map(one, ids): print(i, o); sys.stdout.flush()
