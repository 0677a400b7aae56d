"""C26: the event viewer prints every event of the selected thread, in order."""
from rules_account import *
from models import some, NONE
PREF = sym("spec.prefix", "seq"); TID = sym("spec.tid", u(32))
import re

def view(cx, thread):
    P = cx.prog("mmview")
    box = []
    def extra(I): box.append(profile_model(P, I))
    R = tool(cx, "mmview", {"file_prefix": PREF, "thread_id": some(TID) if thread else NONE}, extra=extra)
    return R, box[0]

ARGS = (b"", b"x", b"a b", b",", b"\xc3\xa9")
class View:
    def __init__(self, cx, thread):
        self.thread = thread
        self.R, self.lws = view(cx, thread); self.P = self.R.P
        self.t = outcome(self.R, (OUT, ERRS, CREATED)); self.good = good(self.t); self.memo = {}
    def fx(self, r):
        m = self.memo; evs = m["e"] = rand_trace(r, maxn=6)
        for e in evs: e["args"] = tuple(r.choice(ARGS) for _ in range(r.choice((0, 0, 1, 2))))
        m["tid"] = r.choice([e["tid"] for e in evs] or [3]) if r.random() < .8 else 999
        f = dict(self.good)
        f[EVENTS] = tuple(event_value(self.P, e) for e in evs); f[self.lws] = tuple(light_value(self.P, e, i) for i, e in enumerate(evs))
        f[TID] = m["tid"]; f[PREF] = b"d/p"
        return f
    def shown(self): return [e for e in self.memo["e"] if not self.thread or e["tid"] == self.memo["tid"]]
    def timed(self): return any(e["m"] != 2 for e in self.memo["e"])

def records(o):
    """the printed records: list of (kind, label, args, payload, thread)"""
    rx = re.compile(r"\{\s*kind: (.*),\n\s*label: (.*),\n\s*additional_data: \[(.*)\],\n\s*payload: (.*),\n\s*thread_id: (.*),?\n\}\n")
    out = []; i = 0
    while i < len(o):
        m = rx.match(o, i)
        if not m: return None
        out.append(m.groups()); i = m.end()
    return out

@rule("C26")
def c26_view(cx):
    for thread in (False, True):
        X = View(cx, thread); memo = X.memo
        kw = dict(where=X.R.where, interp=X.R.I, fixed=X.fx, total=True, need=120, tries=600)
        def rec_test(fn, X=X, memo=memo):
            def test(e, vs):
                if not succeeded(vs[0]): return None
                o = text(vs[0][4])
                if o is None: return None
                rs = records(o)
                if rs is None: return False
                return fn(rs, X.shown())
            return test
        sfx = " of the requested thread" if thread else ""
        cl = (lambda e, vs, X=X: (min(2, len(X.shown())), X.timed()), {(0, True), (1, True), (2, True), (1, False)} if thread else {(1, True), (2, True), (1, False)})
        cx.holds("every event%s is printed once, with its kind and label, in recorded order" % sfx, [X.t],
                 rec_test(lambda rs, w: [(a.encode(), b.encode()) for a, b, *_ in rs] == [(e["kind"], e["label"]) for e in w]), classes=cl, **kw)
        cx.holds("the arguments of every event%s are printed" % sfx, [X.t],
                 rec_test(lambda rs, w: [r[2].encode() for r in rs] == [b",".join(e["args"]) for e in w]), classes=cl, **kw)
        cx.holds("the thread of every event%s is printed" % sfx, [X.t],
                 rec_test(lambda rs, w: [r[4].rstrip(",") for r in rs] == [str(e["tid"]) for e in w]), classes=cl, **kw)
        def pay(rs, w, memo=memo):
            t0 = min([e["s"] for e in memo["e"] if e["m"] != 2] or [0])
            if len(rs) != len(w): return False
            for r, e in zip(rs, w):
                p = r[3]
                if e["m"] == 2:
                    if p != str(e["v"]): return False
                    continue
                want = [e["s"] - t0] + ([e["e"] - t0] if e["m"] == 0 else [])
                got = re.findall(r"([0-9.]+)\s*(ns|µs|μs|us|ms|s)", p)
                if len(got) != len(want): return False
                for (x, un), y in zip(got, want):
                    un = {"μs": "µs"}.get(un, un)
                    if not (reads_as(x + un, y) or ("." not in x and int(x) == y // UNIT_NS[un])): return False
            return True
        cx.holds("the payload of every event%s is printed, times relative to the earliest start of all events" % sfx, [X.t], rec_test(pay), classes=cl, **kw)
    def nothing(e, vs):
        if not succeeded(vs[0]): return None
        return vs[0][6] in ((), b"")
    cx.holds("no file is written", [X.t], nothing, **kw)

@rule("C26")
def c26_error(cx):
    X = View(cx, False)
    def fx(r):
        f = X.fx(r)
        for x in f:
            if isinstance(x, T) and x.op == "spec.readable": f[x] = False
        return f
    def test(e, vs):
        f = unagg(vs[0], "spec.Out")
        if f is None or unagg(f[0], RES) is None: return None
        return f[0][2] == 1
    cx.holds("an unreadable profile is reported as an error", [outcome(X.R)], test, where=X.R.where, interp=X.R.I, fixed=fx, need=20)
