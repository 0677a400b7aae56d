"""C23: aggregation of profiles."""
from rules_crox import *
import re

# ------------------------------------------------------------------ profiles of the same run
def rand_points(r, n):
    """a run as a list of points in time: ("s"|"e", event) and ("i", event)"""
    out = []; left = [n]
    def event():
        left[0] -= 1
        return {"kind": randint.twist(r, r.choice(KINDS)), "label": r.choice((b"a", b"b", b"typeck", b"x y", b"q")), "args": tuple(r.choice((b"x", b"y", b"1 2")) for _ in range(r.choice((0, 0, 1, 1, 2))))}
    def grow(depth):
        for _ in range(r.choice((0, 1, 1, 2, 3)) if depth else 9):
            if left[0] <= 0: return
            e = event()
            if r.random() < .25: e["m"] = 1; out.append(("i", e)); continue
            e["m"] = 0; out.append(("s", e))
            if depth < 4 and r.random() < .7: grow(depth + 1)
            out.append(("e", e))
    grow(0)
    if r.random() < .15: e = event(); e["m"] = 1; out.append(("i", e))
    return out

def timed(r, points, tid):
    """the events of one run, with times of its own"""
    t = r.choice((8, 5, 10**9, 10**18)); steps = r.choice(((1, 2, 3), range(1, 100), (1, 2, 3, 4, 5, 6, 7, 8, 9), (1, 7, 50, 999, 10**6, 10**12), (0, 1, 2), range(1, 60)))
    evs = []; open_ = []
    for what, e in points:
        if r.random() < .08:
            evs.append({"kind": b"ArtifactSize", "label": b"size", "args": (), "tid": r.choice((tid, tid + 1)), "m": 2, "v": r.getrandbits(20)})
        t += randint.near(r, 10**13, lambda: r.choice(steps), .1)
        if what == "i": evs.append(dict(e, tid=tid, s=t, e=t))
        elif what == "s": open_.append(t)
        else: evs.append(dict(e, tid=tid, s=open_.pop(), e=t))
    return evs

def spoil(r, evs):
    """another sequence of events, or None"""
    if not evs: return None
    evs = [dict(e) for e in evs]; i = r.choice((r.randrange(len(evs)), 0, len(evs) - 1)); e = evs[i]
    w = r.randrange(10)
    if i == len(evs) - 1 and e['m'] == 1: w %= 5
    if w >= 6:      # the same and more before or after it
        ts = [(x["s"], x["e"]) for x in evs if x["m"] < 2]
        if not ts: return None
        lo, hi = min(x[0] for x in ts), max(x[1] for x in ts); n = r.choice((0, 1, 5))
        x = {"kind": b"Query", "label": b"more", "args": (), "tid": evs[0]["tid"] if evs[0]["m"] < 2 else [y["tid"] for y in evs if y["m"] < 2][0], "m": r.randrange(2)}
        if w < 9 and lo > n: x["s"] = lo - 1 - n if x["m"] == 0 else lo - 1; x["e"] = lo - 1; evs.insert(0, x)
        else: x["s"] = hi + 1; x["e"] = hi + 1 + (n if x["m"] == 0 else 0); evs.append(x)
        return evs
    if w == 0: del evs[i]
    elif w == 1: e["label"] += b"2"
    elif w == 2: e["kind"] += b"x"
    elif w == 3: e["args"] += (b"z",)
    elif w == 4: e["tid"] += 1
    elif w == 5 and e["args"]: e["args"] = e["args"][:-1] + (e["args"][-1] + b" ",)
    elif e["m"] < 2: evs.insert(i, dict(e))
    return evs

# ------------------------------------------------------------------ what is to be reported
class Refused(Exception): pass
def desc(e): return None if e is None else (e["kind"], e["label"], e["args"])
def samples(evs):
    """the points of a profile, last first: (which, what, time, what encloses it)"""
    evs = [e for e in evs if e["m"] < 2][::-1]
    if len({e["tid"] for e in evs}) > 1: raise Refused
    stack = []; out = []; top = lambda: stack[-1] if stack else None
    for e in evs:
        while stack and not (stack[-1]["s"] <= e["s"] and e["e"] <= stack[-1]["e"]):
            x = stack.pop(); out.append(("s", desc(x), x["s"], desc(top())))
        out.append(("e" if e["m"] == 0 else "i", desc(e), e["e"], desc(top())))
        if e["m"] == 0: stack.append(e)
    while stack:
        x = stack.pop(); out.append(("s", desc(x), x["s"], desc(top())))
    return out
def aggregated(profiles):
    """[(start, end, shortest, longest)] of corresponding intervals, last first"""
    per = []
    for evs in profiles:
        p = samples(evs)
        per.append([(b, a, a[2] - b[2]) for a, b in zip(p, p[1:])])
    if len({len(p) for p in per}) > 1: raise Refused
    out = []
    for xs in zip(*per):
        if len({(x[0][:2] + x[0][3:], x[1][:2] + x[1][3:]) for x in xs}) > 1: raise Refused
        out.append((xs[0][0], xs[0][1], min(x[2] for x in xs), max(x[2] for x in xs)))
    return out
def extremes(pairs, largest):
    """{value: the intervals that have it} for the ten most extreme values"""
    d = {}
    for v, what in pairs: d.setdefault(v, []).append(what)
    return {v: d[v] for v in sorted(d, reverse=largest)[:10]}
def shown(d): return "%s(%s)" % (d[1].decode(), ", ".join(a.decode() for a in d[2]))
def mentions(iv):
    """the events named for an interval, in order"""
    (sk, sd, _, sp), (ek, ed, _, ep) = iv[0], iv[1]
    if sk == "s": return [shown(sd)] if ek == "e" else [shown(sd), shown(ed)]
    if ek == "e": return [shown(ed), shown(sd)]
    return ([shown(sp)] if sp else []) + [shown(sd), shown(ed)]

SECTION = re.compile(r"^(Smallest|Largest) (\d+) (durations|variances):$", re.M)
ENTRY = re.compile(r"^  (±?)(\d+(?:\.\d+)?) ns: ", re.M)
def report(v):
    """{(Smallest|Largest, durations|variances): {value in ns: text}} of what was printed, or None"""
    s = text(v)
    if s is None: return None
    out = {}; hs = list(SECTION.finditer(s))
    for i, h in enumerate(hs):
        body = s[h.end():hs[i + 1].start() if i + 1 < len(hs) else len(s)]
        es = list(ENTRY.finditer(body)); d = {}
        for j, e in enumerate(es):
            x = float(e.group(2)) * 2 if e.group(1) else int(e.group(2))
            if x in d: return None
            d[int(x)] = body[e.end():es[j + 1].start() if j + 1 < len(es) else len(body)]
        out[h.group(1), h.group(3)] = d
    return out if len(out) == 4 else None

class Agg:
    """summarize aggregate over n profiles, from its options to what it prints"""
    def __init__(self, cx, n):
        self.n = n; self.names = [b"d/p%d" % i for i in range(n)]; self.files = [sym("spec.file%d" % i, "seq") for i in range(n)]
        def extra(I): profiles(I.p, I); I.fact_limit = 8
        self.R = tool(cx, "summarize", ("Aggregate", {"files": cat(*[unit(f) for f in self.files])}), extra=extra)
        self.P = self.R.P; self.t = outcome(self.R, (OUT,)); self.good = good(self.t); self.memo = {}
    def fx(self, r):
        pts = rand_points(r, r.choice((0, 1, 2, 3, 4, 6, 9, 12, 12)))
        ps = [timed(r, pts, r.choice((0, 1, 7, 2**32 - 2))) for _ in self.names]
        if r.random() < .3:
            i = r.randrange(self.n); ps[i] = spoil(r, ps[i]) or ps[i]
        m = self.memo; m["p"] = ps
        try: m["want"] = aggregated(ps)
        except Refused: m["want"] = None
        f = dict(self.good); f.update(zip(self.files, self.names))
        prof = dict(zip(self.names, ps)); P = self.P
        f["fn", "spec.events"] = lambda p: tuple(event_value(P, e) for e in prof[bytes(p)])
        f["fn", "spec.light"] = lambda p: tuple(light_value(P, e, i) for i, e in enumerate(prof[bytes(p)]))
        f["fn", "spec.nevents"] = lambda p: len(prof[bytes(p)])
        f["fn", "spec.readable"] = lambda *a: True
        return f

@rule("C23")
def c23_aggregate(cx):
    for n in (1, 2, 3):
        X = Agg(cx, n); memo = X.memo; sfx = " (%d profile%s)" % (n, "s"[:n > 1])
        kw = dict(where=X.R.where, interp=X.R.I, fixed=X.fx, total="tell", need=200, tries=400)
        def refused(vs): return vs[0] == randint.PANICKED or (unagg(vs[0], "spec.Out") is not None and not succeeded(vs[0]))
        def refuse(e, vs):
            if memo["want"] is None: return refused(vs)
            return True
        cx.holds("profiles whose sequences differ, or that have several threads, are refused" + sfx, [X.t], refuse,
                 **dict(kw, classes=(lambda e, vs: memo["want"] is None, {True, False})))
        def printed(fn):
            def test(e, vs):
                if memo["want"] is None: return True
                if refused(vs): return False
                f = unagg(vs[0], "spec.Out")
                d = report(f[1]) if f is not None else None
                return None if d is None else fn(d, memo["want"])
            return test
        seen = (lambda e, vs: None if memo["want"] is None else (bool(memo["want"]), len({x[2] for x in memo["want"]}) > 10), {(False, False), (True, False), (True, True)})
        for which in ("Smallest", "Largest"):
            big = which == "Largest"
            want = {"durations": lambda w: extremes([(x[3] if big else x[2], x) for x in w], big), "variances": lambda w: extremes([(x[3] - x[2], x) for x in w], big)}
            name = {"durations": "%s durations" % ("longest" if big else "shortest"), "variances": "%s differences between longest and shortest" % ("largest" if big else "smallest")}
            for what in ("durations", "variances"):
                g, k_ = want[what], (which, what)
                cx.holds("the ten %s of corresponding intervals are reported" % name[what] + sfx, [X.t], printed(lambda d, w: set(d[k_]) == set(g(w))), classes=seen, **kw)
                def sources(d, w):
                    for v, xs in g(w).items():
                        s = d[k_].get(v, "")
                        if len(xs) == 1:
                            if re.findall("`([^`]*)`", s) != mentions(xs[0]): return False
                        else:
                            q = re.match(r"(\d+) occurrences, or (\d+\.\d+)%", s)
                            if q is None: return None
                            if int(q.group(1)) != len(xs) or abs(float(q.group(2)) - 100 * len(xs) / len(w)) > .0051: return False
                    return True
                cx.holds("each of the %s comes with the interval that has it, or how many have" % name[what] + sfx, [X.t], printed(sources), classes=seen, **kw)
