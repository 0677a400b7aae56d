"""C19, C20: accounting over the events of a profile: the analysis of labels, the collapsed stacks."""
from rules_diff import *
import randint
EVENTS = sym("spec.events", "seq")
EVT, LWT, PLT, TST = "decodeme::event::Event", "decodeme::lightweight_event::LightweightEvent", "decodeme::event_payload::EventPayload", "decodeme::event_payload::Timestamp"
PDT = "analyzeme::profiling_data::ProfilingData::"

def profile_model(P, I, events=EVENTS):
    """iterating over a profile gives its events (that it does is C17); events as light-weight ones, and back"""
    evt = mk("spec.full", sym("spec.i", u(64))); n = length(events)
    fl = fields(P, LWT)
    def light(e, i): return agg(LWT, None, [{"event_index": i}.get(x, fld(e, fields(P, EVT).index(x) if x in fields(P, EVT) else 0, x)) for x in fl])
    def iter_full(I, st, c): return [(st, agg("it.vec", None, [events, k(0), n, k(evseq(P))]))]
    I.overrides[PDT + "iter_full"] = iter_full
    lws = sym("spec.light", "seq")
    def iter_(I, st, c): return [(st, agg("it.vec", None, [lws, k(0), n, k(evseq(P))]))]
    I.overrides[PDT + "iter"] = iter_
    def num(I, st, c): return [(st, n)]
    I.overrides[PDT + "num_events"] = num
    def full(I, st, c):
        e = M.content(I, st, c.args[1])
        ix = e if c.tys and I.p.types[c.tys[1]]["k"] in ("int", "uint") else fld(e, fl.index("event_index"), "event_index", u(63))
        return [(st, mk("idx", events, ix))]
    I.overrides[PDT + "to_full_event"] = I.overrides[PDT + "decode_full_event"] = full
    return lws

def evseq(P): return -1

QK, GK, BK, LK, HK, CK, SK = (x.encode() for x in ("Query", "GenericActivity", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing", "QueryCacheHit", "ArtifactSize"))
KINDS = (QK, QK, GK, BK, LK, HK, b"Other", b"")

def rand_trace(r, labels=("a", "b", "c", "q q", ""), maxn=9, jitter=False, adjacent=False):
    """events as a recorder writes them: per thread well nested, children before their parent, threads interleaved"""
    nthreads = r.choice((1, 1, 2, 3)); evs = []
    if r.random() < .25: labels = labels[:2] + ("a;b", ";", "rustc", "d\u00e9\u2192", "L" * randint.near(r, 70000, r.choice((40, 300, 5000)), .6))
    def grow(tid, lo, hi, depth, out):
        t = lo
        for _ in range(r.choice((0, 1, 1, 2, 3))):
            if len(out) >= maxn: break
            if r.random() < .25:
                out.append(point(tid, r.randint(t, hi))); continue
            a = r.randint(t, hi); b = r.choice((a, hi, r.randint(a, hi)))
            if depth and t == lo and r.random() < .2: a, b = lo, hi
            inner = []
            if depth < 3 and r.random() < .7: grow(tid, a, b, depth + 1, inner)
            out.extend(inner); out.append({"kind": randint.twist(r, r.choice(KINDS)), "label": randint.twist(r, r.choice(labels).encode(), .04), "tid": tid, "s": a, "e": b, "m": 0})
            t = b
    def point(tid, t):
        if r.random() < .5: return {"kind": randint.twist(r, r.choice((CK, CK, QK, b"x"))), "label": randint.twist(r, r.choice(labels).encode(), .08), "tid": tid, "s": t, "e": t, "m": 1}
        return {"kind": randint.twist(r, r.choice((SK, SK, QK, b"x"))), "label": randint.twist(r, r.choice(labels).encode(), .08), "tid": tid, "v": randint.near(r, (1 << 48) - 4, lambda: r.choice((0, 1, 7, r.getrandbits(30), r.getrandbits(33), r.getrandbits(47)))), "m": 2}
    per = []
    pool = r.choice(((0, 1, 7, 12345), (1, 257, 65537, 2**24 + 1, 2**31 + 1), (0, 256, 65536, 2**31, 2**32 - 1)))
    if adjacent: nthreads = r.choice((2, 3, 4))
    tids = r.sample(pool, nthreads)
    if r.random() < .2: tids = sorted({randint.near(r, (1 << 32) - 2, t, .5) for t in tids}, key=lambda t: (t * 7919) % 1013)
    for tid in tids:
        out = []; base = r.choice((0, 0, 10, 10**9, 10**18 + 3))
        if adjacent:    # threads that start about when others end
            ends = [e["e"] for o in per for e in o if e["m"] < 2]
            base = max(0, r.choice(ends) + r.choice((-1, 0, 0, 1, 2))) if ends else 5
        grow(tid, base, base + randint.near(r, 10**12, lambda: r.choice((3, 20, 1000, 10**10)), .15, 3), 0, out)
        if jitter and r.random() < .3:
            # independent intervals written in another order than they ended
            blocks = []; cur = []
            for i, e in enumerate(out):
                cur.append(e)
                if e["m"] == 0 and not any(o["m"] == 0 and o["s"] <= e["s"] and o["e"] >= e["e"] for o in out[i + 1:]): blocks.append(cur); cur = []
            r.shuffle(blocks); out = [e for b in blocks for e in b] + cur
        if out: per.append(out)
    while per:
        q = r.choice(per); evs.append(q.pop(0))
        if not q: per.remove(q)
    if evs and r.random() < .35:    # several sizes of the same things
        l = r.choice(labels).encode()
        for _ in range(r.choice((1, 2, 2, 3, 5))):
            evs.insert(r.randint(0, len(evs)), {"kind": SK, "label": randint.twist(r, l, .25), "tid": r.choice(evs)["tid"], "v": r.choice((0, 1, 7, r.getrandbits(30), r.getrandbits(33), r.getrandbits(47))), "m": 2})
    return evs

def payload(e):
    if e["m"] == 2: return ("agg", PLT, 1, e["v"])
    return ("agg", PLT, 0, ("agg", TST, 0, e["s"], e["e"]) if e["m"] == 0 else ("agg", TST, 1, e["s"]))
def event_value(P, e):
    return rec(EVT, fields(P, EVT), {"event_kind": e["kind"], "label": e["label"], "additional_data": e.get("args", ()), "payload": payload(e), "thread_id": e["tid"]})
def light_value(P, e, i):
    return rec(LWT, fields(P, LWT), {"event_index": i, "thread_id": e["tid"], "payload": payload(e)})

def parents(evs):
    """index of the direct enclosing event of every interval: the first later interval of the thread that contains it"""
    par = {}
    for i, e in enumerate(evs):
        if e["m"]: continue
        par[i] = next((j for j in range(i + 1, len(evs)) if evs[j]["m"] == 0 and evs[j]["tid"] == e["tid"] and evs[j]["s"] <= e["s"] and evs[j]["e"] >= e["e"]), None)
    return par

def totals(evs):
    q = {}
    def d(l): return q.setdefault(l, dict.fromkeys(DUR + NUM, 0))
    par = parents(evs); sizes = {}; span = {}
    for i, e in enumerate(evs):
        l, kd = e["label"], e["kind"]
        if e["m"] == 1:
            if kd == CK: d(l)["number_of_cache_hits"] += 1; d(l)["invocation_count"] += 1
            continue
        if e["m"] == 2:
            if kd == SK: sizes[l] = sizes.get(l, 0) + e["v"]
            continue
        t = e["e"] - e["s"]; x = d(l)
        x["self_time"] += t
        if kd != HK: x["time"] += t
        if kd not in (HK, LK): x["invocation_count"] += 1
        if kd in (QK, GK): x["number_of_cache_misses"] += 1
        if kd == BK: x["blocked_time"] += t
        if kd == LK: x["incremental_load_time"] += t
        if kd == HK: x["incremental_hashing_time"] += t
        p = par[i]
        if p is not None:
            y = d(evs[p]["label"]); y["self_time"] -= t
            if evs[p]["kind"] == LK: y["incremental_load_time"] -= t
            if evs[p]["kind"] == HK: y["incremental_hashing_time"] -= t
        lo, hi = span.get(e["tid"], (e["s"], e["e"]))
        span[e["tid"]] = (min(lo, e["s"]), max(hi, e["e"]))
    return q, sizes, sum(b - a for a, b in span.values())

class Account:
    jitter = False
    def __init__(self, cx, path, pick):
        self.P = P = cx.prog("analyzeme"); self.I = I = cx.interp(P); I.fact_limit = 12
        self.lws = profile_model(P, I)
        f = cx.fn(P, path); self.where = where(f)
        a = ref(("O", "spec-profile")) if pick == "ref" else sym("spec.profile")
        outs = I.call_fn(f, [a], State(), 0)
        if outs is None: raise Undecided(path)
        self.outs = outs
        self.memo = {}
    def fx(self, r):
        m = self.memo; evs = m["e"] = rand_trace(r, jitter=self.jitter)
        return {EVENTS: tuple(event_value(self.P, e) for e in evs), self.lws: tuple(light_value(self.P, e, i) for i, e in enumerate(evs))}

@rule("C19")
def c19_totals(cx):
    X = Account(cx, PDT + "perform_analysis", "val"); P, memo = X.P, X.memo
    X.jitter = True
    t = cases(X.outs, lambda s, v: s.simp(v), loopfacts=False)
    kw = dict(where=X.where, interp=X.I, fixed=X.fx, total=True, need=200, tries=900)
    A, Q, S = "analyzeme::" + AR, "analyzeme::" + QD, "analyzeme::" + AS
    D = {n: fields(P, n) for n in (A, Q, S)}
    def rows(vs, what, name):
        d = unrec(vs[0], A, D[A])
        if d is None: return None
        rs = d[what]
        if not isinstance(rs, tuple) or rs[:1] == ("agg",): return None
        rs = [unrec(x, name, D[name]) for x in rs]
        if None in rs: return None
        return rs
    def q(fn):
        def test(e, vs):
            want, _, _ = totals(memo["e"])
            # an intermediate sum may go below zero for one label only if events are not nested: then nothing is claimed
            rs = rows(vs, "query_data", Q)
            if rs is None: return None
            return fn(rs, want)
        return test
    nested = (lambda e, vs: any(p is not None for p in parents(memo["e"]).values()), {True})
    def once(rs, want):
        ls = [text(r["label"]) for r in rs]
        return None if None in ls else sorted(ls) == sorted(l.decode() for l in want)
    cx.holds("every label with recorded data appears exactly once in the results", [t], q(once), **kw)
    for n in DUR + NUM:
        def one(rs, want, n=n):
            for r in rs:
                w = want.get(text(r["label"]).encode())
                if w is None: continue
                if not isinstance(r[n], int): return None
                if r[n] != w[n]: return False
            return True
        cx.holds("%s of each label is the documented total" % n, [t], q(one), classes=nested, **kw)
    def sizes(e, vs):
        rs = rows(vs, "artifact_sizes", S)
        if rs is None: return None
        _, want, _ = totals(memo["e"])
        return sorted((text(r["label"]), r["value"]) for r in rs) == sorted((l.decode(), v) for l, v in want.items())
    cx.holds("the size of each artifact is the sum over its events", [t], sizes, classes=(lambda e, vs: len(totals(memo["e"])[1]) < sum(x["m"] == 2 and x["kind"] == SK for x in memo["e"]), {True}), **kw)
    def total(e, vs):
        d = unrec(vs[0], A, D[A])
        if d is None or not isinstance(d["total_time"], int): return None
        return d["total_time"] == totals(memo["e"])[2]
    cx.holds("total time is the sum over threads of first start to last end", [t], total, classes=(lambda e, vs: len({x["tid"] for x in memo["e"]}) > 1, {True}), **kw)

def stacks(evs):
    par = parents(evs); out = {}; top = {}; span = {}
    def name(i):
        n = b""
        while i is not None: n = b";" + evs[i]["label"] + n; i = par[i]
        return b"rustc" + n
    for i, e in enumerate(evs):
        if e["m"]: continue
        t = e["e"] - e["s"]; n = name(i)
        out[n] = out.get(n, 0) + t
        p = par[i]
        if p is not None: out[name(p)] = out.get(name(p), 0) - t
        else: top[e["tid"]] = top.get(e["tid"], 0) + t
        lo, hi = span.get(e["tid"], (e["s"], e["e"]))
        span[e["tid"]] = (min(lo, e["s"]), max(hi, e["e"]))
    out[b"rustc"] = sum(span[t][1] - span[t][0] - top[t] for t in span)
    return out

@rule("C20")
def c20_stacks(cx):
    X = Account(cx, "analyzeme::stack_collapse::collapse_stacks", "ref"); memo = X.memo
    t = cases(X.outs, lambda s, v: s.simp(v), loopfacts=False)
    kw = dict(where=X.where, interp=X.I, fixed=X.fx, total=True, need=300, tries=1200)
    def got(vs):
        v = vs[0]
        if not isinstance(v, randint.MapV) or v.base is not None: return None
        try: return {bytes(k_): x for k_, x in v.over.items()}
        except (TypeError, ValueError): return None
    nested = (lambda e, vs: (any(p is not None for p in parents(memo["e"]).values()), len({x["tid"] for x in memo["e"]}) > 1), {(True, True), (False, True), (True, False)})
    def names(e, vs):
        g = got(vs)
        return None if g is None else set(g) == set(stacks(memo["e"]))
    cx.holds("every interval's stack of enclosing labels, and no other, is there", [t], names, classes=nested, **kw)
    def values(e, vs):
        g = got(vs)
        if g is None: return None
        w = stacks(memo["e"])
        return all(g[x] == w[x] for x in g if x in w and x != b"rustc")
    cx.holds("each stack has the self time of its intervals", [t], values, classes=nested, **kw)
    def root(e, vs):
        g = got(vs)
        return None if g is None else g.get(b"rustc") == stacks(memo["e"])[b"rustc"]
    cx.holds("the gaps of all threads are booked under the root", [t], root, classes=nested, **kw)
    def account(e, vs):
        g = got(vs)
        if g is None: return None
        sp = {}
        for x in memo["e"]:
            if x["m"] == 0:
                lo, hi = sp.get(x["tid"], (x["s"], x["e"])); sp[x["tid"]] = (min(lo, x["s"]), max(hi, x["e"]))
        return all(isinstance(x, int) and x >= 0 for x in g.values()) and sum(g.values()) == sum(b - a for a, b in sp.values())
    cx.holds("all stacks together account for the time span of each thread exactly once", [t], account, classes=nested, **kw)
