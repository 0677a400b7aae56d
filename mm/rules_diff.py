"""C22: the difference of two summaries."""
from spec import *
from rules_decode import field
from rules_tools import *
AR, QD, AS = "analysis::AnalysisResults", "analysis::QueryData", "analysis::ArtifactSize"

def fields(P, name): return [x[0] for x in adt(P, name)["variants"][0]["f"]]
def rec(name, names, d): return ("agg", name, None) + tuple(d[n] for n in names)
def unrec(v, name, names):
    if not (isinstance(v, tuple) and v[:2] == ("agg", name) and len(v) == 3 + len(names)): return None
    return dict(zip(names, v[3:]))
LABELS = ("a", "b", "typeck", "mir_borrowck", "x y", "")
DUR = ("time", "self_time", "blocked_time", "incremental_load_time", "incremental_hashing_time")
NUM = ("number_of_cache_misses", "number_of_cache_hits", "invocation_count")
def rand_dur(r): return randint.near(r, 1 << 62, None, .1) or r.choice((0, 0, 1, 5, 999, 10**6, 10**9, 10**9 + 1, 12345678901, r.getrandbits(40), r.getrandbits(62)))
def rand_num(r): return randint.near(r, 1 << 40, None, .1) or r.choice((0, 0, 1, 2, 77, r.getrandbits(20), r.getrandbits(33)))
def rand_side(r):
    ls = r.sample(LABELS, r.choice((0, 1, 1, 2, 3, 4)))
    return {"q": [{"label": l, **{f: rand_dur(r) for f in DUR}, **{f: rand_num(r) for f in NUM}} for l in ls],
            "a": [{"label": l, "value": rand_num(r)} for l in r.sample(LABELS, r.choice((0, 1, 1, 2, 3)))],
            "t": rand_dur(r)}
def side_value(P, s):
    enc = lambda d: {n: x.encode() if isinstance(x, str) else x for n, x in d.items()}
    A, Q, S = "analyzeme::" + AR, "analyzeme::" + QD, "analyzeme::" + AS
    return rec(A, fields(P, A), {"query_data": tuple(rec(Q, fields(P, Q), enc(q)) for q in s["q"]),
                                 "artifact_sizes": tuple(rec(S, fields(P, S), enc(a)) for a in s["a"]), "total_time": s["t"]})

B, C = sym("spec.path-base", "seq"), sym("spec.path-change", "seq")
NAMES_ = {B: (b"d/base", b"base.json", b"a.b"), C: (b"change", b"x/change.json", b"change.v2")}

class Diff:
    """summarize diff, from its options to what it writes and prints"""
    def __init__(self, cx, js):
        self.js = js
        self.R = tool(cx, "summarize", ("Diff", {"base": B, "change": C, "exclude": sym("spec.exclude", "seq"), "json": kb(js)}))
        self.t = outcome(self.R, (DISK, TABLES, OUT)); self.P = self.R.P
        self.good = good(self.t); self.res = results_terms(self.t)
        self.memo = {}
        self.kw = dict(where=self.R.where, interp=self.R.I, fixed=self.fx, total=True, need=150, tries=400)
    def fx(self, r):
        m = self.memo
        m["b"], m["c"] = rand_side(r), rand_side(r)
        if r.random() < .5:     # mostly common labels
            for s in "qa":
                for x in m["c"][s]:
                    if m["b"][s] and r.random() < .5 and all(y["label"] != m["b"][s][0]["label"] for y in m["c"][s]): x["label"] = m["b"][s][0]["label"]
        m["ex"] = r.choice(((), (), ("typ",), ("a",), ("zz", "x"), ("y",), ("eck", "_"), ("B",)))
        m["path"] = {p: r.choice(NAMES_[p]) for p in NAMES_}
        f = dict(self.good)
        sv = {B: side_value(self.P, m["b"]), C: side_value(self.P, m["c"])}
        # an input ending in .json is a summary, any other a profile; both hold the same here, and anything else something else
        other = rand_side(r)
        for x in self.res:
            kind, p = x.a
            f[x] = sv[p] if p in sv and (kind == "json") == (m["path"][p].endswith(b".json")) else side_value(self.P, other)
        f.update(m["path"]); f[sym("spec.exclude", "seq")] = tuple(x.encode() for x in m["ex"])
        return f
    def by(self, side, key): return {x["label"]: x for x in self.memo[side][key]}
    def kind(self, e, vs):
        b, c = set(self.by("b", "q")), set(self.by("c", "q"))
        return (bool(b & c), bool(b - c), bool(c - b))
    kinds = {(True, True, True), (False, True, False), (False, False, True), (True, False, False)}

QDD, ASD, SD, DR = ("summarize::diff::" + x for x in ("QueryDataDiff", "ArtifactSizeDiff", "SignedDuration", "DiffResults"))

@rule("C22")
def c22_values(cx):
    X = Diff(cx, True); P, t, kw, memo = X.P, [X.t], X.kw, X.memo
    D = {n: fields(P, n) for n in (QDD, ASD, SD, DR)}
    def sd(v):
        d = unrec(v, SD, D[SD])
        if d is None or not isinstance(d["duration"], int) or not isinstance(d["is_positive"], bool): return None
        return d["duration"] if d["is_positive"] else -d["duration"]
    def written(vs):
        if not succeeded(vs[0]): return None
        d = ondisk(vs[0][4])
        if d is None or len(d) != 1: return None
        return unrec(jsonfile(*d.values()), DR, D[DR])
    def rows(vs, what, name):
        d = written(vs)
        if d is None: return None
        rs = d[what]
        if not isinstance(rs, tuple) or rs[:1] == ("agg",): return None
        rs = [unrec(x, name, D[name]) for x in rs]
        return None if None in rs else rs
    def once(what, name, key):
        def test(e, vs):
            rs = rows(vs, what, name)
            return None if rs is None else sorted(str(text(r["label"])) for r in rs) == sorted(set(X.by("b", key)) | set(X.by("c", key)))
        return test
    cl = (X.kind, X.kinds)
    cx.holds("every query label of either side appears exactly once", t, once("query_data", QDD, "q"), classes=cl, **kw)
    cx.holds("every artifact label of either side appears exactly once", t, once("artifact_sizes", ASD, "a"), **kw)
    zero = {x: 0 for x in DUR + NUM}
    def each(fn):
        def test(e, vs):
            rs = rows(vs, "query_data", QDD)
            if rs is None: return None
            b, c = X.by("b", "q"), X.by("c", "q")
            for r in rs:
                l = text(r["label"])
                w = fn(r, b.get(l), c.get(l))
                if w is not True: return w
            return True
        return test
    for name in DUR:
        cx.holds("%s is the change's minus the base's" % name, t, each(lambda r, b, c: None if sd(r[name]) is None else sd(r[name]) == (c or zero)[name] - (b or zero)[name]), classes=cl, **kw)
    for name in NUM:
        cx.holds("%s is the change's minus the base's" % name, t, each(lambda r, b, c: r[name] == (c or zero)[name] - (b or zero)[name] if isinstance(r[name], int) else None), classes=cl, **kw)
    for pc, name in (("time_change", "time"), ("self_time_change", "self_time")):
        cx.holds("%s relates the difference to the base's %s" % (pc, name), t, each(lambda r, b, c: percent_ok(r[pc], b, c, name) if isinstance(r[pc], float) else None), classes=cl, **kw)
    def arts(e, vs):
        rs = rows(vs, "artifact_sizes", ASD)
        if rs is None: return None
        b, c = X.by("b", "a"), X.by("c", "a")
        for r in rs:
            l = text(r["label"])
            if not isinstance(r["size_change"], int): return None
            if r["size_change"] != (c[l]["value"] if l in c else 0) - (b[l]["value"] if l in b else 0): return False
        return True
    cx.holds("an artifact's size is the change's minus the base's", t, arts, classes=(lambda e, vs: (bool(set(X.by("b", "a")) & set(X.by("c", "a"))), bool(set(X.by("b", "a")) - set(X.by("c", "a"))), bool(set(X.by("c", "a")) - set(X.by("b", "a")))), {(True, True, True)}), **kw)
    def total(e, vs):
        d = written(vs)
        if d is None or sd(d["total_time"]) is None: return None
        return sd(d["total_time"]) == memo["c"]["t"] - memo["b"]["t"]
    cx.holds("the total time is the change's minus the base's", t, total, **kw)
    def order(e, vs):
        rs, as_ = rows(vs, "query_data", QDD), rows(vs, "artifact_sizes", ASD)
        if rs is None or as_ is None: return None
        m = [sd(r["self_time"]) for r in rs]; a = [r["size_change"] for r in as_]
        if None in m or not all(isinstance(x, int) for x in a): return None
        m = [abs(x) for x in m]
        return m == sorted(m, reverse=True) and a == sorted(a, reverse=True)
    many = (lambda e, vs: (len(set(X.by("b", "q")) | set(X.by("c", "q"))) > 2, len(set(X.by("b", "a")) | set(X.by("c", "a"))) > 2), {(True, True)})
    cx.holds("entries come in descending order of the size of the self time difference, artifacts in descending order of theirs", t, order, classes=many, **kw)

def percent_ok(x, b, c, name):
    if b is None: return x == float("inf")
    if c is None: return abs(x + 100.0) < 1e-6
    if b[name] == 0: return True
    y = (c[name] - b[name]) / b[name] * 100
    return abs(x - y) <= 1e-6 * max(1, abs(y))

HEADS = {"Self Time": "self_time", "Time": "time", "Item count": "invocation_count", "Cache hits": "number_of_cache_hits", "Blocked time": "blocked_time",
         "Incremental load time": "incremental_load_time", "Incremental hashing time": "incremental_hashing_time"}
PERC = {"Self Time Change": "self_time", "Time Change": "time"}
@rule("C22")
def c22_table(cx):
    X = Diff(cx, False); t, kw, memo = [X.t], X.kw, X.memo
    zero = {x: 0 for x in DUR + NUM}
    def tables_(vs):
        if not succeeded(vs[0]): return None
        ts = vs[0][5]
        if not isinstance(ts, tuple): return None
        ts = [table(x) for x in ts]
        return None if None in ts else ts
    def test(e, vs):
        ts = tables_(vs)
        if ts is None: return None
        b, c = X.by("b", "q"), X.by("c", "q")
        q = [x for x in ts if x and "Self Time" in x[0]]
        if len(q) != 1: return False
        head = q[0][0]; seen = []
        for row in q[0][1:]:
            if len(row) != len(head): return False
            d = dict(zip(head, row)); l = d["Item"]; seen.append(l)
            x, y = b.get(l), c.get(l)
            if x is None and y is None: return False
            for h, n in HEADS.items():
                if h in d and not reads_as(d[h], (y or zero)[n] - (x or zero)[n], "dur" if n in DUR else "num"): return False
            for h, n in PERC.items():
                if h in d:
                    if x is None: w = float("inf")
                    elif y is None: w = -100.0
                    elif x[n] == 0: continue
                    else: w = (y[n] - x[n]) / x[n] * 100
                    if not reads_as(d[h].replace("%", ""), w, "num"): return False
        m = [abs((c.get(l) or zero)["self_time"] - (b.get(l) or zero)["self_time"]) for l in seen]
        if m != sorted(m, reverse=True): return False
        return sorted(seen) == sorted(l for l in set(b) | set(c) if not any(e in l for e in memo["ex"]))
    cx.holds("the table of differences shows each quantity under its heading, in every row not excluded, largest differences first", t, test, classes=(X.kind, X.kinds), **kw)
    def arts(e, vs):
        ts = tables_(vs)
        if ts is None: return None
        q = [x for x in ts if x and any("Size" in h for h in x[0])]
        if len(q) != 1: return False
        b, c = X.by("b", "a"), X.by("c", "a")
        rows = {r[0]: r[1] for r in q[0][1:]}
        want = {l: (c[l]["value"] if l in c else 0) - (b[l]["value"] if l in b else 0) for l in set(b) | set(c) if not any(e in l for e in memo["ex"])}
        return len(q[0]) == 1 + len(want) and set(rows) == set(want) and all(reads_as(rows[l], want[l], "num") for l in want)
    cx.holds("the table of artifact sizes shows each difference, in every row not excluded", t, arts, **kw)
    def total(e, vs):
        if not succeeded(vs[0]): return None
        o = text(vs[0][6])
        if o is None: return None
        m = re.search(r"Total cpu time: (\S+)", o)
        return bool(m) and reads_as(m[1], memo["c"]["t"] - memo["b"]["t"])
    cx.holds("the total time printed is the change's minus the base's", t, total, **kw)
