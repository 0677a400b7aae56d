"""Debug helper: analyse one function with symbolic arguments and print the result.
usage: probe.py CRATE PATH-REGEX [--events]"""
import sys, re, json, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from interp import *
def load(crate, kind=None, big=False):
    d = facts.extract(big)
    for kd in ([kind] if kind else ["lib", "bin"]):
        p = os.path.join(d, "%s.%s.json" % (crate, kd))
        if os.path.exists(p):
            return Prog(json.load(open(p)))
def symargs(P, fn):
    out = []
    for i in range(fn["argc"]):
        ty, *nm = fn["locals"][i + 1]
        out.append(sym((nm[0] if nm and nm[0] else "a%d" % i), P.tyinfo(ty)))
    return out
if __name__ == "__main__":
    t0 = time.time()
    P = load(sys.argv[1])
    ev = "--events" in sys.argv
    for fn in P.fns:
        if not re.search(sys.argv[2], fn["path"]) : continue
        I = Interp(P)
        if '--contracts' in sys.argv:
            import contracts; contracts.install(I)
        if ev:
            I.observers.append(lambda kd, kw: print("   ", kd, {x: (y if not hasattr(y, "mem") else "St") for x, y in kw.items() if x not in ("call", "fn", "outs")}, kw["call"].path if "call" in kw else "", kw["fn"]["path"] if "fn" in kw else "") if kd not in ("enter", "leave") else None)
        print("==", fn["path"], fn.get("targs"), fn["file"], fn["line"])
        try:
            outs = I.call_fn(fn, symargs(P, fn), State(), 0)
        except Undecided as e:
            print("UNDECIDED", e); continue
        for s, v in outs or []:
            print("-> ", str(v)[:1500])
            for c, b in s.facts.d.items(): print("      if", b, str(c)[:300])
            for r, x in s.mem.items():
                if r[0] in ("P", "G", "O"): print("      ", r[0], r[1:], "=", str(x)[:1500])
        seen = {}
        for p in I.panics: seen.setdefault((p[1], p[2], p[4]), []).append(p[3])
        for p, fs in seen.items(): print("  panic", len(fs), *p)
        if I.unmodelled: print("  unmodelled", I.unmodelled)
        print("  %.2fs steps %d" % (time.time() - t0, I.steps))
