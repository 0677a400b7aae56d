"""C25: what a Chrome trace holds."""
from rules_account import *
from models import some, NONE
import serial, iters
FILES = sym("spec.files", "seq"); DIR = sym("spec.dir", "seq"); MIN = sym("spec.min", u(128))
META = "decodeme::Metadata"

def profiles(P, I):
    """every profile has its own events and metadata"""
    def path(I, st, v):
        d = M.content(I, st, v)
        if d.op == "agg": return d.a[2][0] if d.a[0] == "spec.Data" else None
        return fld(d, 0, "0", "seq") if any(x.op == "agg" and x.a[0] == "spec.Data" for x in subterms(d)) else None
    def per(name, op):
        def f(I, st, c):
            p = path(I, st, c.args[0])
            if p is None: return None
            s = mk(op, p, ty="seq")
            return [(st, agg("it.vec", None, [s, k(0), mk("spec.nevents", p, ty=u(63)), k(-1)]))]
        I.overrides[PDT + name] = f
    per("iter", "spec.light"); per("iter_full", "spec.events")
    def num(I, st, c):
        p = path(I, st, c.args[0])
        return None if p is None else [(st, mk("spec.nevents", p, ty=u(63)))]
    I.overrides[PDT + "num_events"] = num
    fl = fields(P, LWT)
    def full(I, st, c):
        p = path(I, st, c.args[0]); e = M.content(I, st, c.args[1])
        if p is None: return None
        ix = e if c.tys and I.p.types[c.tys[1]]["k"] in ("int", "uint") else fld(e, fl.index("event_index"), "event_index", u(63))
        return [(st, mk("idx", mk("spec.events", p, ty="seq"), ix))]
    I.overrides[PDT + "to_full_event"] = I.overrides[PDT + "decode_full_event"] = full
    def meta(I, st, c):
        p = path(I, st, c.args[0])
        return None if p is None else [(st, ref(("C", mk("spec.meta", p, ty=("adt", META)))))]
    I.overrides[PDT + "metadata"] = meta
    def read_dir(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0])
        s = mk("spec.dirents", p, ty="seq")
        return M.io_fork(I, st, c, lambda q: (q, ok(agg("it.vec", None, [s, k(0), length(s), k(-1)]))))
    I.overrides["std::fs::read_dir"] = read_dir
    def direntry(I, st, c): return [(st, fld(M.content(I, st, c.args[0]), 0, "0", "seq"))]
    I.overrides["std::fs::DirEntry::path"] = direntry
    def jwrite(I, st, w, data, c):
        s = I.write_contract(I, st, w, None, data, c)
        if s is None: return [(st, mk("opaque", "write", ty=None))]
        return M.io_fork(I, s, c, lambda q: (q, ok(UNIT)))
    serial.install(I, jwrite)

def crox(cx, opt):
    P = cx.prog("crox")
    R = tool(cx, "crox", opt, extra=lambda I: profiles(P, I))
    return R

CMDS = (b"rustc --crate-name foo --edition 2018", b"rustc a.rs", b"", b"rustc --crate-name z", b"x --crate-name  y", b"--crate-name q", b"a --crate-name b --crate-name c d")
def threads_trace(r):
    """several threads with few events, close to each other and with small or odd ids"""
    n = r.choice((0, 2, 3, 3, 4, 4, 5)); ids = r.sample(range(n + 1), n) if r.random() < .7 else r.sample((0, 1, 2, 3, 7, 65537, 2**32 - 1), n)
    evs = []
    for t in ids:
        a, b = sorted(r.choice((r.randrange(12), r.randrange(40))) for _ in (0, 1))
        for lo, hi in r.choice((((a, b),), ((a, b),), ((a, (a + b) // 2), (b, b)), ((a + 1, b), (a, b)))):
            if lo <= hi: evs.append({"kind": QK, "label": b"x", "tid": t, "s": lo * 1000, "e": hi * 1000, "m": 0})
    if r.random() < .5: evs.sort(key=lambda e: e["e"])
    elif r.random() < .5: r.shuffle(evs)
    return evs

class Crox:
    def __init__(self, cx, dir=False, collapse=False, minimum=False):
        self.dir, self.collapse, self.minimum = dir, collapse, minimum
        self.R = crox(cx, {"file_prefix": FILES, "dir": some(DIR) if dir else NONE, "collapse_threads": TRUE if collapse else FALSE, "minimum_duration": some(MIN) if minimum else NONE})
        self.P = self.R.P; self.t = outcome(self.R, (DISK, CREATED, FAILED)); self.good = good(self.t); self.memo = {}
    def fx(self, r):
        m = self.memo; f = dict(self.good)
        names = [b"d/p%d.mm_profdata" % i for i in range(5)]; r.shuffle(names)
        m["files"] = files = names[:r.choice((1, 1, 2, 3)) if not self.dir else r.choice((0, 1))]
        m["dir"] = ents = names[3:3 + r.choice((0, 1, 2))] + [b"d/other.txt", b"d/mm_profdata", b"d/x.mm_profdata.gz"][:r.randrange(4)] if self.dir else []
        r.shuffle(ents)
        m["sel"] = sel = files + [p for p in ents if p.endswith(b".mm_profdata")]
        m["prof"] = prof = {}
        for p in sorted(set(sel + ents)):
            evs = threads_trace(r) if self.collapse and r.random() < .5 else rand_trace(r, maxn=3 if self.collapse else 7, jitter=True, adjacent=self.collapse)
            for e in evs: e["args"] = tuple(r.choice((b"x", b"", b"y z", b"\xc3\xa9")) for _ in range(r.choice((0, 0, 1, 2, 3, 11))))
            prof[p] = {"e": evs, "pid": r.choice((0, 1, 4242, 2**32 - 1)), "cmd": r.choice(CMDS), "start": randint.near(r, 1 << 61, lambda: r.choice((0, 1, 1500, 10**18 + 12345, 10**9)))}
        f[FILES] = tuple(files); f[DIR] = b"some/dir"
        m["min"] = f[MIN] = randint.near(r, 1 << 40, lambda: r.choice((0, 1, 2, 5, 10**6, r.getrandbits(20))))
        P = self.P
        def of(fn): return ("fn", lambda env, p: fn(prof[bytes(p)]))
        f["fn", "spec.light"] = lambda p: tuple(light_value(P, e, i) for i, e in enumerate(prof[bytes(p)]["e"]))
        f["fn", "spec.events"] = lambda p: tuple(event_value(P, e) for e in prof[bytes(p)]["e"])
        f["fn", "spec.nevents"] = lambda p: len(prof[bytes(p)]["e"])
        f["fn", "spec.meta"] = lambda p: rec(META, fields(P, META), {"start_time": prof[bytes(p)]["start"], "process_id": prof[bytes(p)]["pid"], "cmd": prof[bytes(p)]["cmd"]})
        f["fn", "spec.dirents"] = lambda p: tuple(("agg", RES, 0, ("agg", "spec.DirEntry", None, x)) for x in ents)
        f["fn", "spec.readable"] = lambda *a: True
        return f
    def doc(self, vs):
        """-> list of trace entries, False for a wrong file, None if not known"""
        if not succeeded(vs[0]): return None
        d = ondisk(vs[0][4])
        if d is None: return None
        if len(d) != 1: return False
        return serial.document(*d.values())
    def shown(self):
        out = []
        for p in self.memo["sel"]:
            for e in self.memo["prof"][p]["e"]:
                if e["m"] == 0 and not (self.minimum and (e["e"] - e["s"]) // 1000 < self.memo["min"]): out.append((p, e))
        return out

VARIANTS = ({}, {"dir": True}, {"collapse": True}, {"minimum": True}, {"collapse": True, "minimum": True})
@rule("C25")
def c25_trace(cx):
    for kw_ in VARIANTS:
        X = Crox(cx, **kw_); memo = X.memo
        sfx = "".join(" (--%s)" % {"dir": "dir", "collapse": "collapse-threads", "minimum": "minimum-duration"}[n] for n in kw_)
        cl = (lambda e, vs, X=X: (min(2, len(X.shown())), min(2, len(memo["sel"]))), {(0, 1), (1, 1), (2, 1), (2, 2)})
        kw = dict(where=X.R.where, interp=X.R.I, fixed=X.fx, total=True, need=120, tries=700, classes=cl)
        def T_(fn, X=X):
            def test(e, vs):
                d = X.doc(vs)
                if d is None or d is False: return d
                if not all(isinstance(x, dict) for x in d): return False
                return fn([x for x in d if x.get("ph") == "X"], [x for x in d if x.get("ph") != "X"])
            return test
        cx.holds("the trace is one complete JSON array with one complete event for each selected interval, in order" + sfx, [X.t],
                 T_(lambda ev, md, X=X: [(x.get("name"), x.get("cat")) for x in ev] == [(e["label"].decode(), e["kind"].decode()) for p, e in X.shown()]), **kw)
        cx.holds("each event has its start and duration in microseconds" + sfx, [X.t],
                 T_(lambda ev, md, X=X: [(x.get("ts"), x.get("dur")) for x in ev] == [(e["s"] // 1000, (e["e"] - e["s"]) // 1000) for p, e in X.shown()]), **kw)
        cx.holds("each event has the process of its profile" + sfx, [X.t],
                 T_(lambda ev, md, X=X: [x.get("pid") for x in ev] == [memo_["prof"][p]["pid"] for memo_ in (X.memo,) for p, e in X.shown()]), **kw)
        if not kw_.get("collapse"):
            cx.holds("each event has its own thread" + sfx, [X.t], T_(lambda ev, md, X=X: [x.get("tid") for x in ev] == [e["tid"] for p, e in X.shown()]), **kw)
        else:
            def collapsed(ev, md, X=X):
                sh = X.shown()
                if len(ev) != len(sh): return False
                got = {}
                for x, (p, e) in zip(ev, sh):
                    if got.setdefault((p, e["tid"]), x.get("tid")) != x.get("tid"): return False
                for p in set(p for p, e in sh):
                    span = {}
                    for e in X.memo["prof"][p]["e"]:
                        if e["m"] == 2: continue
                        lo, hi = span.get(e["tid"], (e["s"], e["e"])); span[e["tid"]] = (min(lo, e["s"]), max(hi, e["e"]))
                    ts = [t for q, t in got if q == p]
                    for a in ts:
                        for b in ts:
                            if a < b and got[p, a] == got[p, b] and not (span[a][1] <= span[b][0] or span[b][1] <= span[a][0]): return False
                return True
            cx.holds("threads are merged only if their time spans do not overlap, and a thread is never split" + sfx, [X.t], T_(collapsed), **dict(kw, need=300, tries=900))
        def args(ev, md, X=X):
            sh = X.shown()
            if len(sh) != len(ev): return False
            return all((x.get("args") or {}) == {"arg%d" % i: a.decode() for i, a in enumerate(e["args"])} for x, (p, e) in zip(ev, sh))
        cx.holds("each event carries its own arguments" + sfx, [X.t], T_(args), **kw)
        def sort(ev, md, X=X):
            w = [(q["pid"], q["start"] // 1000) for p in X.memo["sel"] for q in [X.memo["prof"][p]]]
            return [(x.get("pid"), (x.get("args") or {}).get("sort_index")) for x in md if x.get("name") == "process_sort_index"] == w and all(x.get("ph") == "M" for x in md)
        cx.holds("each process has its sort index" + sfx, [X.t], T_(sort), **kw)
        def name(ev, md, X=X):
            w = []
            for p in X.memo["sel"]:
                q = X.memo["prof"][p]
                if b" --crate-name " in q["cmd"]: w.append((q["pid"], q["cmd"].split(b" --crate-name ", 1)[1].split(b" ")[0].decode()))
            return [(x.get("pid"), (x.get("args") or {}).get("name")) for x in md if x.get("name") == "process_name"] == w
        cx.holds("each process is named after the crate it compiled" + sfx, [X.t], T_(name), **kw)
