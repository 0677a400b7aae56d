"""C24: the summary table and its JSON form."""
from rules_diff import *

PREFIX, PCT = sym("spec.prefix", "seq"), sym("spec.percent", "float")
HEADS24 = {"Self time": "self_time", "Time": "time", "Item count": "invocation_count", "Cache hits": "number_of_cache_hits", "Blocked time": "blocked_time",
           "Incremental load time": "incremental_load_time", "Incremental result hashing time": "incremental_hashing_time"}
OPTIONAL = ("Cache hits", "Blocked time", "Incremental load time", "Incremental result hashing time")

class Summary:
    def __init__(self, cx, js):
        self.R = tool(cx, "summarize", ("Summarize", {"file_prefix": PREFIX, "json": kb(js), "percent_above": PCT}))
        self.t = outcome(self.R, (DISK, TABLES, OUT)); self.P = self.R.P
        self.good = good(self.t); self.res = results_terms(self.t); self.memo = {}
        self.kw = dict(where=self.R.where, interp=self.R.I, fixed=self.fx, total=True, need=200, tries=600)
    def fx(self, r):
        m = self.memo
        m["s"] = s = rand_side(r)
        for n in DUR + NUM:          # columns that are empty, or have one value only
            z = r.random()
            if z < .4:
                for q in s["q"]: q[n] = 0
            if z < .15 and s["q"]: r.choice(s["q"])[n] = r.choice((1, 2, 10**9))
        total = sum(q["self_time"] for q in s["q"])
        s["t"] = r.choice((total, total, total + 1, 2 * total, total * 3 + 7, 1000))
        m["p"] = r.choice((0.0, 0.0, 100.0, 1.0, 5.0, 50.0, r.uniform(0, 100), r.uniform(0, 20)))
        if s["q"] and s["t"] and r.random() < .4:       # close to the share of one of them
            x = r.choice(s["q"])["self_time"] / s["t"] * 100
            m["p"] = min(100.0, max(0.0, x + r.choice((-1, 1)) * r.choice((.4, .1, .04, .001)) * r.uniform(.1, 1)))
        f = dict(self.good)
        m["path"] = r.choice((b"d/run-1", b"run.2", b"p"))
        other = rand_side(r)
        for x in self.res: f[x] = side_value(self.P, s if x.a == ("profile", PREFIX) else other)
        f[PREFIX] = m["path"]; f[PCT] = m["p"]
        return f

@rule("C24")
def c24_table(cx):
    X = Summary(cx, False); memo, kw = X.memo, X.kw
    def main_table(vs):
        """heading and rows of the table of items; None: not known, False: not there"""
        if not succeeded(vs[0]): return None
        ts = vs[0][5]
        if not isinstance(ts, tuple) or ts[:1] == ("agg",): return None
        ts = [table(x) for x in ts]
        if None in ts: return None
        q = [x for x in ts if x and "Item" in x[0] and "Self time" in x[0]]
        return q[0] if len(q) == 1 else False
    def share(q): return q["self_time"] / memo["s"]["t"] * 100 if memo["s"]["t"] else float("nan")
    def with_rows(fn):
        def test(e, vs):
            t = main_table(vs)
            if not t: return t
            head = t[0]
            if any(len(r) != len(head) for r in t): return fn(head, None)
            return fn(head, [dict(zip(head, r)) for r in t[1:]])
        return test
    def items(): return {q["label"]: q for q in memo["s"]["q"]}
    def cells(head, rows):
        if rows is None: return False
        it = items()
        for d in rows:
            q = it.get(d["Item"])
            if q is None: return False
            for h, n in HEADS24.items():
                if h in d and not reads_as(d[h], q[n], "dur" if n in DUR else "num"): return False
            if "% of total time" in d and memo["s"]["t"] and not reads_as(d["% of total time"].replace("%", ""), share(q), "num"): return False
        return True
    some = (lambda e, vs: bool(memo["s"]["q"]), {True})
    cx.holds("each cell shows the quantity its heading names, of the item in its row", [X.t], with_rows(cells), classes=some, **kw)
    def order(head, rows):
        if rows is None: return None
        it = items(); ls = [it[d["Item"]]["self_time"] for d in rows if d["Item"] in it]
        return ls == sorted(ls, reverse=True)
    cx.holds("items are listed in order of descending self time", [X.t], with_rows(order), classes=some, **kw)
    def cut(head, rows):
        if rows is None: return None
        shown = [d["Item"] for d in rows]
        if len(set(shown)) != len(shown): return False
        for l, q in items().items():
            s = share(q)
            if s != s: continue
            if s > memo["p"] + 1e-9 and l not in shown: return False
            if s < memo["p"] - 1e-9 and l in shown: return False
            if memo["p"] == 0.0 and l not in shown: return False
        return set(shown) <= set(items())
    cx.holds("exactly the items below the requested share are cut off", [X.t], with_rows(cut), classes=(lambda e, vs: memo["p"] > 0, {True, False}), **kw)
    def optional(head, rows):
        return all(h in head for h in OPTIONAL if any(q[HEADS24[h]] for q in memo["s"]["q"])) and all(h in head for h in HEADS24 if h not in OPTIONAL)
    def okind(e, vs): return None
    cx.holds("a column is shown whenever an item has a value for it", [X.t], with_rows(optional), classes=some, **kw)
    def arts(e, vs):
        if not succeeded(vs[0]): return None
        ts = vs[0][5]
        if not isinstance(ts, tuple): return None
        ts = [table(x) for x in ts]
        if None in ts: return None
        q = [x for x in ts if x and any("Artifact" in h for h in x[0])]
        if len(q) != 1: return False
        want = {a["label"]: a["value"] for a in memo["s"]["a"]}
        return len(q[0]) == 1 + len(want) and all(len(r) == 2 and r[0] in want and reads_as(r[1], want[r[0]], "num") for r in q[0][1:])
    cx.holds("the artifact table shows the size of every artifact", [X.t], arts, classes=(lambda e, vs: bool(memo["s"]["a"]), {True}), **kw)
    def total(e, vs):
        if not succeeded(vs[0]): return None
        o = text(vs[0][6])
        if o is None: return None
        m = re.search(r"Total cpu time: (\S+)", o)
        if not m or not reads_as(m[1], memo["s"]["t"]): return False
        m = re.search(r"account for (\S+)% of total", o)
        if m and memo["s"]["t"]:
            w = sum(share(q) for q in memo["s"]["q"] if share(q) >= memo["p"])
            if not reads_as(m[1], w, "num"): return any(abs(share(q) - memo["p"]) < 1e-9 for q in memo["s"]["q"])
        return True
    cx.holds("the total time and the filtered share printed are right", [X.t], total, **kw)

@rule("C24")
def c24_json(cx):
    X = Summary(cx, True); memo, kw = X.memo, X.kw
    def test(e, vs):
        if not succeeded(vs[0]): return None
        d = ondisk(vs[0][4])
        if d is None: return None
        j = jsonfile(d.get(X_path(memo["path"])))
        want = side_value(X.P, memo["s"])
        if set(d) != {X_path(memo["path"])}: return False
        if j is None: return None
        return e.eqv(j, want) or e.eqv(anyorder(j), anyorder(want))     # the order of the items in the file is free
    def anyorder(v):
        if not isinstance(v, tuple): return v
        v = tuple(anyorder(x) for x in v)
        if v and v[0] != "agg" and all(isinstance(x, tuple) and x[:1] == ("agg",) for x in v):
            return tuple(sorted(v, key=lambda x: sorted(bytes(y) if isinstance(y, bytes) else b"" for y in x[3:])[-1:] + [repr(x)]))
        return v
    def X_path(p):
        from randint import Env
        s = p.rsplit(b"/", 1)[-1]
        i = s.rfind(b".")
        return (p[:len(p) - len(s) + i] if i > 0 else p) + b".json"
    cx.holds("the JSON summary is the analysis of the profile, in a .json file beside it", [X.t], test, **kw)
