"""C32: the programmatic profile builder."""
from rules_profiler import *
from rules_tools import unagg
import contracts as CT
import json
B = "analyzeme::profiling_data::ProfilingDataBuilder::"
KIND, LABEL = sym("spec.kindtext", "seq"), sym("spec.labeltext", "seq")
FIRST = 100_000_000 + 3
INNER = {t: sym("spec.inner." + t, "seq") for t in TAGS}

class Builder:
    """a builder at any time after it was made: each stream holds anything"""
    def __init__(self, cx):
        self.P = P = cx.prog("analyzeme")
        f = cx.fn(P, B + "new"); I = cx.interp(P); I.io_ok = True
        written = {}
        def saw(kind, d):
            if kind == "sink-write":
                t = sink_tag(d["st"].simp(d["sinkv"]))
                if t is not None: written[d["sink"]] = t
        I.observers.append(saw)
        outs = I.call_fn(f, [], State(), 0)
        self.where = where(f)
        if len(outs) != 1: raise Undecided("ProfilingDataBuilder::new has %d outcomes" % len(outs))
        st, b = outs[0]; b = st.simp(b)
        self.root = ("O", "spec-builder")
        self.start = {}
        for t in TAGS: self.start[t] = EMPTY
        for r, v in st.mem.items():
            if r[0] == "G" and r[1] == "stream":
                t = written.get(r[2])
                if t is not None: self.start[t] = v
        self.st = State({r: v for r, v in st.mem.items() if not (r[0] == "G" and r[1] == "stream")})
        self.st.mem[self.root] = b
        self.tags = {}
        self.find(b, self.root, (), set())
        if set(self.tags) != set(TAGS): raise Undecided("the streams of the builder: found %s" % sorted(self.tags))
        for t, key in self.tags.items(): self.st.mem[("G", "stream", key)] = sym("spec.sofar." + t, "seq")
    def find(self, v, root, path, seen):
        v = self.st.simp(v)
        t = sink_tag(v)
        if t is not None: self.tags.setdefault(t, (root, tuple(("f", i) for i in path))); return
        if v.op == "ref" and not v.a[1] and v.a[0] not in seen:
            seen.add(v.a[0])
            if v.a[0] in self.st.mem: self.find(self.st.mem[v.a[0]], v.a[0], (), seen)
        elif v.op == "agg":
            for i, x in enumerate(v.a[2]):
                if isinstance(x, T): self.find(x, root, path + (i,), seen)
    def call(self, cx, name, args, hook=None):
        class C: pass
        C.fn = cx.fn(self.P, B + name); C.where = where(C.fn)
        C.I = cx.interp(self.P); C.I.io_ok = True
        if hook: C.I.callback_hook = hook
        C.outs = C.I.call_fn(C.fn, args, self.st, 0)
        return C
    def key(self, t): return ("G", "stream", self.tags[t])

def sink_tag(v):
    if v.op != "agg" or v.a[0] != CT.SINKT: return None
    for x in v.a[2]:
        if x.op == "agg" and x.a[0] == PT: return TAGS[x.a[1]]

def streams_term(X, C, pick=None):
    return cases(C.outs, lambda s, v: agg("spec.Streams", None, [s.simp(s.mem.get(X.key(t), EMPTY)) for t in TAGS] + ([s.simp(v)] if pick else [])), loopfacts=False)

def string_at(sd, si, id_):
    """the string an id stands for, by the two string streams"""
    if id_ < FIRST:
        for i in range(0, len(si) - 15, 16):
            if int.from_bytes(si[i:i + 8], "little") == id_: return plain(sd, int.from_bytes(si[i + 8:i + 16], "little"))
        return None
    return plain(sd, id_ - FIRST)
def plain(sd, a):
    j = sd.find(b"\xff", a)
    return None if a < 0 or j < 0 else sd[a:j]

TEXTS = (b"", b"x", b"Query", b"a b", b"\xc3\xa9\xe2\x82\xac", b"\x00\x01", b"{}", b" a\t", b"\n", b"A;b<c>", b"[x]", b"l" * 70, b"q" * 40000)

@rule("C32")
def c32_records(cx):
    X = Builder(cx); me = ref(X.root)
    th = sym("spec.thread", u(32)); v0, v1 = sym("spec.v0", u(64)), sym("spec.v1", u(64))
    memo = {}
    def inner(I, st, f, args):
        memo["calls"] = memo.get("calls", 0) + 1
        if not args or I.target_of(st, st.simp(args[0])) != I.target_of(st, me): return None
        s = st.copy()
        for t in TAGS: s.mem[X.key(t)] = cat(s.mem[X.key(t)], INNER[t])
        s.mem[("G", "inner")] = add(s.mem.get(("G", "inner"), k(0)), k(1))
        return [(s, UNIT)]
    text = lambda x: x if isinstance(x, T) else x
    for name, args, payload, ok in (
            ("interval", [v0, v1, sym("spec.inner-fn")], lambda a, b: (a, b), lambda a, b: a <= b <= MAXI),
            ("instant", [v0], lambda a, b: (a, MAX1), lambda a, b: a <= MAX1),
            ("integer", [v0], lambda a, b: (a, MAX1 - 1), lambda a, b: a <= MAX1)):
        C = X.call(cx, name, [me, ref(("C", KIND)), ref(("C", LABEL)), th] + args, inner)
        t = streams_term(X, C)
        def fx(r):
            m = memo; f = {}
            m["k"], m["l"] = f[KIND], f[LABEL] = r.choice(TEXTS), r.choice(TEXTS)
            m["th"] = f[th] = randint.near(r, 2**32 - 1, lambda: r.choice((0, 1, r.getrandbits(32), 2**32 - 1)))
            c = (0, 1, MAXI, MAXI - 1, MAX1 - 1, MAX1, MAX1 + 1, 1 << 32, r.getrandbits(48), r.getrandbits(64), r.getrandbits(33))
            a, b = r.choice(c), r.choice(c)
            if r.random() < .7: a, b = sorted((a, b))
            m["a"], m["b"] = f[v0], f[v1] = a, b
            for tg in TAGS:
                n = 8 + 16 * r.randrange(4)
                m[tg] = f[sym("spec.sofar." + tg, "seq")] = X_bytes(r, n)
                m["in", tg] = f[INNER[tg]] = X_bytes(r, 32 * r.randrange(3)) if name == "interval" else b""
            return f
        def parts(vs, fn):
            f = unagg(vs[0], "spec.Streams")
            if f is None or any(not isinstance(x, (bytes, tuple)) or x[:1] == ("agg",) for x in f): return None
            ev, sd, si = (bytes(x) for x in f)
            return fn(ev, sd, si)
        def good(): return ok(memo["a"], memo["b"])
        def returned(e, vs): return (unagg(vs[0], "spec.Streams") is not None) if good() else unagg(vs[0], "spec.Streams") is None
        kw = dict(where=C.where, interp=C.I, fixed=fx, need=150, tries=700)
        cx.holds("%s: every value that fits is accepted, any other refused" % name, [t], returned, classes=(lambda e, vs: good(), {True, False}), **kw)
        def only(fn):
            def test(e, vs):
                if not good(): return True
                return parts(vs, fn)
            return test
        cl = (lambda e, vs: (good(), memo["k"] == b"", memo["a"] == memo["b"]), {(True, False, False), (True, True, False)})
        def keeps(ev, sd, si):
            return ev.startswith(memo["Events"]) and sd.startswith(memo["StringData"]) and si.startswith(memo["StringIndex"])
        cx.holds("%s: what was recorded before stays" % name, [t], only(keeps), classes=cl, **kw)
        if name == "interval":
            cx.holds("interval: nested events are recorded before it, once", [t], only(lambda ev, sd, si: ev[len(memo["Events"]):-32] == memo["in", "Events"]), classes=cl, **kw)
        def one(ev, sd, si):
            e = ev[len(memo["Events"]) + len(memo["in", "Events"]):]
            if len(e) != 32: return False
            n = lambda i, j: int.from_bytes(e[i:j], "little")
            lo1, lo2, up = n(20, 24), n(24, 28), n(28, 32)
            w = payload(memo["a"], memo["b"])
            return n(16, 20) == memo["th"] and (lo1 | (up >> 16) << 32, lo2 | (up & 0xffff) << 32) == w
        cx.holds("%s: exactly one event is added, with the given thread and values" % name, [t], only(one), classes=cl, **kw)
        def strings(ev, sd, si):
            e = ev[-32:]
            return string_at(sd, si, int.from_bytes(e[0:8], "little")) == memo["k"] and string_at(sd, si, int.from_bytes(e[8:16], "little")) == memo["l"]
        cx.holds("%s: its kind and label are the given texts" % name, [t], only(strings), classes=cl, **kw)
        if name == "interval":
            n = [s.simp(s.mem.get(("G", "inner"), k(0))) for s, _ in C.outs]
            cx.require("interval: the nested events are recorded once", all(x is k(1) for x in n), "the function that records them is called %s times" % ", ".join(show(x) for x in n), C.where)
            # the function given is the one called, with this builder
        for s, v in C.outs:
            v = s.simp(v)
            cx.require("%s: goes on with the same builder" % name, v.op == "ref" and C.I.target_of(s, v) == C.I.target_of(s, me), "returns %s" % show(v)[:100], C.where)

def X_bytes(r, n): return bytes(r.randrange(0, 0xfe) for _ in range(n))

@rule("C32")
def c32_new(cx):
    X = Builder(cx)
    want = {"Events": b"MMES\t\0\0\0", "StringData": b"MMSD\t\0\0\0", "StringIndex": b"MMSI\t\0\0\0"}
    got = {}
    for t, w in want.items():
        v = X.start.get(t)
        if v is EMPTY: v = mk("bytes", b"")
        if v is None or v.op not in ("bytes",): cx.undecided("a new builder's %s stream" % t, "not known: %s" % (show(v)[:100] if v is not None else None), X.where); return
        got[t] = v.a[0]
        cx.require("a new builder's %s stream starts with its header" % t, v.a[0][:8] == w, repr(v.a[0][:8]), X.where)
    cx.require("a new builder holds no events", len(got["Events"]) == 8, "%d bytes" % len(got["Events"]), X.where)
    txt = string_at(got["StringData"], got["StringIndex"][8:], FIRST - 2)
    try: js = json.loads(txt)
    except Exception: js = None
    cx.require("a new builder's profile has metadata the reader accepts", isinstance(js, dict) and isinstance(js.get("start_time"), int) and isinstance(js.get("process_id"), int) and isinstance(js.get("cmd"), str),
               "the metadata string is %r" % (txt,), X.where)

@rule("C32")
def c32_convert(cx):
    """into_profiling_data: each stream, whole, to where the decoder expects it"""
    X = Builder(cx)
    P = X.P; f = cx.fn(P, B + "into_profiling_data")
    I = cx.interp(P); I.io_ok = True
    def into_bytes(I, st, c):
        v = st.simp(c.args[0])
        for _ in range(3):
            if v.op != "ref": break
            v = st.simp(I.load(st, v))
        t = sink_tag(v)
        return None if t is None else [(st, st.mem.get(X.key(t), EMPTY))]
    I.overrides[CT.SINKT + "::into_bytes"] = into_bytes
    def dec(I, st, c):
        return [(st, agg("core::result::Result", 0, [agg("spec.Decoder", None, [M.content(I, st, a) for a in c.args[:3]])]))]
    I.overrides["decodeme::EventDecoder::from_separate_buffers"] = dec
    from rules_load import decoder_of
    outs = I.call_fn(f, [X.st.mem[X.root]], X.st, 0); wh = where(f)
    if not outs: cx.undecided("conversion", "no outcome", wh); return
    for s, v in outs:
        d = decoder_of(I, s, v)
        if d is None or d.op != "agg": cx.undecided("conversion: the decoder of the result", "not found", wh); return
        for i, t in enumerate(("StringData", "StringIndex", "Events")):
            cx.same("conversion: all of the %s stream becomes the decoder's" % t, d.a[2][i], sym("spec.sofar." + t, "seq"), where=wh, interp=I)
    cx.ok("conversion returns", "%d outcomes" % len(outs), wh)
