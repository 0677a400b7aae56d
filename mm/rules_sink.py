"""C01-C03, C05: the paged, buffered, shared serialization sink."""
from check import *
import models as M
S = "measureme::serialization::SerializationSink::"

class Sink:
    """One analysed operation of a sink: its lock, the backing lock and what
    the operation does to both."""
    def __init__(self, cx, P, path, args, st=None, pred=None, io_ok=False):
        self.cx = cx; self.P = P
        fn = self.fn = cx.fn(P, path, pred)
        I = self.I = cx.interp(P, contracts=False); I.fact_limit = 3; I.io_ok = io_ok      # what a failing operation leaves behind is C04's business
        self.locks = []; self.acq = []; self.unl = []; self.cbs = []
        def obs(kd, d):
            if kd == "lock": self.locks.append(d)
            elif kd == "acquired": self.acq.append(d)
            elif kd == "unlock": self.unl.append(d)
            elif kd == "callback": self.cbs.append(d)
        I.observers.append(obs)
        self.self_ = args[0]
        self.outs = I.call_fn(fn, args, st or State(), 0)
        if self.outs is None: raise Undecided("not analysed")
        self.where = where(fn)
        own = {d["lid"] for d in self.acq if is_sink_state(P, d["inner"])}
        sink = {l for l in own if l[0][0] == "P"}
        back = {d["lid"] for d in self.acq} - own
        self.sinkl = next(iter(sink)) if len(sink) == 1 else None
        self.backl = next(iter(back)) if len(back) == 1 else None
        self.nback = len(back); self.nsink = len(sink)
    def fields(self):
        """(index of the buffer, index of the address) in the sink's locked state"""
        inner = next(d["inner"] for d in self.acq if d["lid"] == self.sinkl)
        return inner_fields(self.P, inner)

SINK = ("adt", "measureme::serialization::SerializationSink")
def is_sink_state(P, inner):
    try: inner_fields(P, inner)
    except Undecided: return False
    return True

def inner_fields(P, inner):
    t = P.types[inner]
    if t["k"] != "adt" or t.get("enum"): raise Undecided("locked state of the sink is not a struct")
    buf = [i for i, (n, ft) in enumerate(t["variants"][0]["f"]) if P.tyinfo(ft) == "seq" and P.elem_is_byte(ft)]
    adr = [i for i, (n, ft) in enumerate(t["variants"][0]["f"]) if (P.tyinfo(ft) or "?")[0] == "int" and P.tyinfo(ft)[2] == 64]
    if len(buf) != 1 or len(adr) != 1: raise Undecided("buffer and address of the sink not identified")
    fs = t["variants"][0]["f"]
    return tuple((i, fs[i][0], P.tyinfo(fs[i][1])) for i in (buf[0], adr[0]))

def symargs(P, fn):
    out = []
    for i in range(fn["argc"]):
        ty, *nm = fn["locals"][i + 1]
        out.append(sym("%s.%s" % (fn["name"].rsplit("::", 1)[-1], (nm[0] if nm and nm[0] else "arg%d" % i)), P.tyinfo(ty)))
    return out

def tagterm(P, self_):
    """value of the sink's page tag byte"""
    a = P.adts["measureme::serialization::SerializationSink"]
    for t in P.types:
        if t["k"] == "adt" and t["adt"] == "measureme::serialization::SerializationSink" and "variants" in t:
            for i, (n, ft) in enumerate(t["variants"][0]["f"]):
                if P.types[ft].get("adt") == "measureme::serialization::PageTag":
                    ds = tuple(int(x) for x in P.types[ft]["discrs"])
                    v = fld(mk("deref", self_, ty=("adt", "measureme::serialization::SerializationSink")), i, n, P.tyinfo(ft))
                    NVAR[v] = len(ds)
                    return mk("discr", v, ds, ty=("int", False, 64))
    raise Undecided("page tag field of the sink not found")

def sized(rnd, sizes=(0, 1, 2, 60, 128, 129, 131071, 131072, 131073, 262143, 262144, 262145, 300000, 393216, 450000, 524288, 655361)):
    if rnd.random() < 0.3: return rnd.randrange(0, 700000)
    if randint.CODE and rnd.random() < .1: return randint.near(rnd, 700000, 64, 1)
    return rnd.choice(sizes)

def io_ok(I, st):
    """conditions under which no I/O operation failed"""
    return []

def post_stream(cx, name, R, self_, data, nbytes, ret, given=None):
    """each outcome of a write operation against: stream := stream ++ data"""
    P = R.P; I = R.I
    if R.sinkl is None or R.nback > 1:
        cx.undecided(name, "locks of the sink not identified (%d own, %d shared)" % (R.nsink, R.nback), R.where); return
    bi, ai = R.fields()
    root, proj = R.sinkl
    acq0 = mk("acq", root, proj, 0)
    for d in R.acq:
        if d["lid"] == R.sinkl: first = d["content"]; break
    B0 = fld(first, *bi); A0 = fld(first, *ai)
    tag = tagterm(P, R.sinkl[0][1])
    mxp = proj + (("mx",),)
    for n, (s, rv) in enumerate(R.outs):
        nm = "%s, outcome %d" % (name, n) if len(R.outs) > 1 else name
        cur = I.load_loc(s, root, mxp)
        B1 = fld(cur, *bi); A1 = fld(cur, *ai)
        D = s.mem.get(("G", "delta", R.backl), EMPTY)
        if R.backl is None: D = EMPTY
        def fixed(rnd, B0=B0, data=data):
            f = {B0: rnd.randbytes(min(262144, sized(rnd)))}
            if given is not None: f[given] = rnd.randbytes(sized(rnd))
            elif data.op not in ("fixlen",): f[data] = rnd.randbytes(sized(rnd))
            else: f[nbytes] = sized(rnd)
            f[A0] = len(f[B0]) + rnd.choice((0, 8, 1 << 33, rnd.randrange(1 << 40)))     # what is buffered has been counted
            return f
        facts = list(s.facts.d.items())
        kw = dict(facts=facts, where=R.where, fixed=fixed, interp=I, need=60, tries=600)
        cx.same(nm + ": pages written ++ buffer == buffer before ++ the bytes", cat(mk("unframe", tag, D, ty="seq"), B1), cat(B0, data),
                what="content of the stream after the write", **kw)
        cx.same(nm + ": address advances by the number of bytes", A1, add(A0, length(data)), **kw)
        if ret is not None:
            cx.same(nm + ": returned address is the offset of the first byte", ret(rv), A0, **kw)
    # one critical section
    for d in R.unl:
        if d["lid"] == R.backl and d["delta"] is not EMPTY and R.sinkl not in d["st"].held:
            cx.violation(name + ": pages are written while the sink's lock is held", "the backing storage is written outside the sink's critical section", R.where)
    return B0, A0

@rule("C01")
def c01_bytes(cx):
    P = cx.prog("measureme")
    path = S + "write_bytes_atomic"
    fn = cx.fn(P, path)
    args = symargs(P, fn)
    R = Sink(cx, P, path, args)
    data = mk("deref", args[1], ty="seq")
    post_stream(cx, "write_bytes_atomic", R, args[0], data, length(data), lambda v: fld(v, 0, "0"))

@rule("C01")
def c01_atomic(cx):
    P = cx.prog("measureme")
    path = S + "write_atomic"
    fn = cx.fn(P, path)
    args = symargs(P, fn)
    R = Sink(cx, P, path, args, pred=None)
    n = args[1]
    bufs = [d for d in R.cbs]
    if not bufs:
        cx.undecided("write_atomic: callback", "no callback invocation found", R.where); return
    for i, d in enumerate(bufs):
        cx.same("write_atomic: the callback's buffer has the requested size (call %d)" % i, length(R.I.load(d["st"], d["args"][0])), n,
                facts=list(d["st"].facts.d.items()), where=R.where, interp=R.I)
    data = mk("fixlen", mk("cb", args[2], 0), n, ty="seq")
    post_stream(cx, "write_atomic", R, args[0], data, n, lambda v: fld(v, 0, "0"))

@rule("C01")
def c01_adapter(cx):
    """the io::Write view: what it reports as written is what was appended"""
    P = cx.prog("measureme")
    own = [g["path"] for g in P.fns if g["path"].startswith(ADAPT)]
    for g in own:
        if g[len(ADAPT):] not in ("write", "flush", "write_all", "by_ref", "is_write_vectored"): cx.undecided("writer view: overridden method " + g[len(ADAPT):], "no rule", where(P.by_path[g][0] if hasattr(P, "by_path") else cx.fn(P, g)))
    for m in ("write", "write_all"):
        if ADAPT + m not in own and m != "write": continue
        nm = "writer view: " + m
        fn = cx.fn(P, ADAPT + m)
        args = symargs(P, fn)
        R = Sink(cx, P, ADAPT + m, args)
        data = mk("deref", args[1], ty="seq")
        outs = [(s, v) for s, v in R.outs if not (v.op == "agg" and v.a[1] == 1)]
        if not outs: cx.undecided(nm, "no successful outcome", R.where); continue
        for n, (s, v) in enumerate(outs):
            R.outs = [(s, v)]
            # what is reported as written, all of it or a part that is not empty, is what was appended
            did = fld(down(s.simp(v), 0), 0, "0") if m == "write" else length(data)
            part = data if did is length(data) else slice_(data, k(0), did, s.facts)
            post_stream(cx, nm + (", case %d" % n if len(outs) > 1 else ""), R, args[0], part, did, None, given=data)
            if m != "write" or did is length(data): continue
            cx.holds("writer view: write makes progress and reports no more than there is", [did, length(data)], lambda e, vs: vs[0] <= vs[1] and (vs[0] > 0 or vs[1] == 0), facts=list(s.facts.d.items()), where=R.where, interp=R.I, fixed=lambda r: {data: bytes(sized(r))})

# ---------------------------------------------------------------- C02
ADAPT = "<measureme::serialization::StdWriteAdapter as core::io::write::Write>::"
DROP = "<measureme::serialization::SerializationSink as core::ops::drop::Drop>::drop"
WRITERS = [S + "write_bytes_atomic", S + "write_atomic", S + "into_bytes", ADAPT + "write", ADAPT + "flush", DROP]

def tag_of_op(P, R, args):
    if R.sinkl is not None: return tagterm(P, R.sinkl[0][1])
    # by-value self
    for t in P.types:
        if t["k"] == "adt" and t["adt"] == SINK[1] and "variants" in t:
            for i, (n, ft) in enumerate(t["variants"][0]["f"]):
                if P.types[ft].get("adt") == "measureme::serialization::PageTag":
                    ds = tuple(int(x) for x in P.types[ft]["discrs"])
                    v = fld(args[0], i, n, P.tyinfo(ft))
                    NVAR[v] = len(ds)
                    return mk("discr", v, ds, ty=("int", False, 64))

@rule("C02")
def c02_writer(cx):
    P = cx.prog("measureme")
    for path in WRITERS:
        fn = cx.fn(P, path)
        args = symargs(P, fn)
        R = Sink(cx, P, path, args, io_ok=True)
        tag = tag_of_op(P, R, args)
        n = 0
        for d in R.unl:
            if d["lid"] != R.backl or d["delta"] is EMPTY: continue
            n += 1
            def fixed(rnd, d=d, args=args):
                f = {}
                for t in subterms(d["delta"]):
                    if t.op == "deref" and t.ty == "seq" or t.op == "f" and t.a[1] == "buffer": f[t] = rnd.randbytes(sized(rnd))
                    elif t.op == "fixlen" and t.a[1].op == "sym": f[t.a[1]] = sized(rnd)
                return f
            cx.same("%s: each critical section of the backing storage writes whole pages (tag, length, payload) [%d]" % (path.rsplit("::", 1)[1], n),
                    mk("framed", tag, d["delta"], ty="bool"), TRUE, facts=list(d["st"].facts.d.items()), where=R.where, fixed=fixed,
                    interp=R.I, partial=True, need=40, tries=800)
        for s, v in R.outs:
            # nothing else reaches the backing storage
            pass
        if n == 0 and path not in (ADAPT + "write",):
            cx.undecided(path + ": page writes", "no page write found", R.where)

def container(rnd, tags=(0, 1, 2), sizes=(1, 2, 5, 255, 256, 257, 65535, 65536, 65537, 70000), n=8):
    out = b""
    for _ in range(rnd.randrange(0, n)):
        p = rnd.randbytes(rnd.choice(sizes) if rnd.random() < 0.4 else randint.near(rnd, 300000, lambda: rnd.randrange(1, 40), .1))
        out += bytes([rnd.choice(tags)]) + len(p).to_bytes(4, "little") + p
    return out

def lookup(m, key):
    return gamma(mk("maphas", m, key, ty="bool"), mk("mapval", m, key, ty="seq"), EMPTY)

PAGETAG = "measureme::serialization::PageTag"
def pagetags(P):
    for t in P.types:
        if t["k"] == "adt" and t["adt"] == PAGETAG: return [(i, v["n"], int(d)) for i, (v, d) in enumerate(zip(t["variants"], t["discrs"]))]
    raise Missing(PAGETAG)

@rule("C02")
def c02_reader(cx):
    P = cx.prog("measureme")
    path = "measureme::serialization::split_streams"
    fn = cx.fn(P, path)
    args = symargs(P, fn)
    I = cx.interp(P, contracts=False); I.fact_limit = 3
    outs = I.call_fn(fn, args, State(), 0)
    data = mk("deref", args[0], ty="seq")
    for s, v in outs:
        for i, n, d in pagetags(P):
            cx.same("split_streams: stream %s is the concatenation of its pages' payloads in order" % n, lookup(v, agg(PAGETAG, i, [])),
                    mk("unpage", k(d), data, ty="seq"), where=where(fn), interp=I, need=60, fixed=lambda rnd: {data: container(rnd)}, total=True)

@rule("C02")
def c02_tags(cx):
    """the tag byte of each stream kind is distinct and accepted by the reader"""
    P = cx.prog("measureme")
    tags = pagetags(P)
    cx.require("page tags are distinct", len({d for _, _, d in tags}) == len(tags), "two stream kinds share a page tag: %s" % tags, PAGETAG)
    fn = cx.fn(P, "<%s as core::convert::TryFrom>::try_from" % PAGETAG)
    for i, n, d in tags:
        I = cx.interp(P, contracts=False); I.fact_limit = 3
        outs = I.call_fn(fn, [k(d)], State(), 0)
        good = all(v.op == "agg" and v.a[1] == 0 and v.a[2][0].op == "agg" and v.a[2][0].a[1] == i for _, v in outs)
        cx.require("tag byte %d reads back as %s" % (d, n), good, "byte %d decodes to %s" % (d, [show(v) for _, v in outs]), where(fn))

# ---------------------------------------------------------------- C03
def final_backing(R):
    last = None
    for d in R.unl:
        if d["lid"] == R.backl: last = d
    return last

@rule("C03")
def c03_flush_drop(cx):
    P = cx.prog("measureme")
    for name, path in (("flush through the writer view", ADAPT + "flush"), ("drop", DROP)):
        fn = cx.fn(P, path)
        args = symargs(P, fn)
        R = Sink(cx, P, path, args)
        if R.sinkl is None or R.backl is None:
            if not R.nback and R.nsink == 1 or not R.nsink:
                cx.violation(name + ": buffered bytes reach the backing storage", "%s never writes to the backing storage" % path, R.where)
            else: cx.undecided(name, "locks not identified", R.where)
            continue
        bi, ai = R.fields()
        tag = tagterm(P, R.sinkl[0][1])
        first = next(d["content"] for d in R.acq if d["lid"] == R.sinkl)
        B0 = fld(first, *bi)
        for s, v in R.outs:
            if v.op == "agg" and v.a[0].endswith("Result") and v.a[1] == 1: continue
            D = s.mem.get(("G", "delta", R.backl), EMPTY)
            cur = R.I.load_loc(s, R.sinkl[0], R.sinkl[1] + (("mx",),))
            fixed = lambda rnd: {B0: rnd.randbytes(min(262144, sized(rnd)))}
            kw = dict(facts=list(s.facts.d.items()), where=R.where, interp=R.I, fixed=fixed, need=40)
            cx.same(name + ": every buffered byte reaches the backing storage, once and in order", mk("unframe", tag, D, ty="seq"), B0, **kw)
            if path != DROP:
                cx.same(name + ": the buffered copy is discarded", fld(cur, *bi), EMPTY, **kw)
                cx.same(name + ": the stream address stays", fld(cur, *ai), fld(first, *ai), **kw)

@rule("C03")
def c03_flush_order(cx):
    """the storage is flushed after the buffer was handed to it, and its failure is returned"""
    P = cx.prog("measureme")
    path = ADAPT + "flush"
    fn = cx.fn(P, path)
    args = symargs(P, fn)
    seq = []
    I = cx.interp(P, contracts=False); I.fact_limit = 3
    I.observers.append(lambda kd, d: seq.append((kd, d)) if kd in ("flush", "unlock", "write") else None)
    outs = I.call_fn(fn, args, State(), 0)
    fl = [i for i, (kd, d) in enumerate(seq) if kd == "flush"]
    wr = [i for i, (kd, d) in enumerate(seq) if kd == "write"]
    if not fl:
        cx.violation("flush through the writer view: the backing storage itself is flushed", "the storage's flush is never called", where(fn)); return
    cx.require("flush through the writer view: the buffer is written before the storage is flushed", all(w < max(fl) for w in wr),
               "the storage is flushed before the buffer is written to it", where(fn))
    cx.ok("flush through the writer view: the backing storage itself is flushed", "event order", where(fn))

@rule("C03")
def c03_into_bytes(cx):
    P = cx.prog("measureme")
    path = S + "into_bytes"
    fn = cx.fn(P, path)
    args = symargs(P, fn)
    R = Sink(cx, P, path, args)
    inner = None
    for t in P.types:
        if t["k"] == "adt" and t["adt"] == SINK[1] and "variants" in t:
            for i, (n, ft) in enumerate(t["variants"][0]["f"]):
                if "Mutex<" in P.types[ft]["s"] and P.types[ft]["k"] == "adt":
                    mi = (i, n, None); inner = P.types[ft]["args"][-1]
    if inner is None: raise Undecided("locked state of the sink not found")
    bi, ai = inner_fields(P, inner)
    B0 = fld(mk("f", fld(args[0], *mi), "mutex-content"), *bi)
    tag = tag_of_op(P, R, args)
    last = final_backing(R)
    if last is None:
        cx.undecided("into_bytes", "no access to the backing storage found", R.where); return
    for s, v in R.outs:
        D = s.mem.get(("G", "delta", R.backl), EMPTY)
        got_b = [t for t in subterms(D) if t.op == "f" and t.a[1] == bi[1]]
        src = got_b[0] if got_b and B0 not in subterms(D) else B0
        A0 = fld(src.a[0], *ai) if src.op == "f" else None
        def fixed(rnd):
            f = {src: rnd.randbytes(min(262144, sized(rnd)))}
            if A0 is not None: f[A0] = len(f[src]) + rnd.choice((0, 0, 8, 1 << 33))     # what is buffered has been counted
            return f
        # an outcome that depends on what was written so far
        fs = [x for x in s.facts.d.items() if all(y.op not in ("sym", "f", "acq", "iofail") or y in within for y in subterms(x[0]))] if A0 is not None and (within := set(subterms(A0)) | set(subterms(src))) else []
        cx.same("into_bytes: the buffered bytes are written out first", mk("unframe", tag, D, ty="seq"), src,
                facts=fs, where=R.where, interp=R.I, fixed=fixed, need=40)
        cont = last["content"]
        mem = [t for t in subterms(v) if t.op == "f" and t.a[0].op == "as" and t.a[0].a[0].op == "acq"]
        acqs = {t.a[0].a[0] for t in mem}
        # the content that is returned was read after this operation's own pages were written
        lastacq = last["acquired"]
        readers = [t for x in R.I.loops.values() for t in (x.init.mem.values()) ]
        M0 = mk_memory(P, R, lastacq)
        full = M0 if last["delta"] is EMPTY else cat(M0, last["delta"])
        order = [i for i, d in enumerate(R.unl) if d["lid"] == R.backl and d["delta"] is not EMPTY]
        li = max(i for i, d in enumerate(R.unl) if d["lid"] == R.backl)
        cx.require("into_bytes: the stream is read after the buffer was written", not order or max(order) <= li, "pages are written after the stream was read", R.where)
        cx.same("into_bytes: returns the complete stream from the backing storage", v, mk("unpage", tag, full, ty="seq"), where=R.where, interp=R.I,
                fixed=lambda rnd: {M0: container(rnd), **fixed(rnd)}, facts=[(mk("is", lastacq, mem_variant(P, R)), True)], need=40)

def storage_type(P, R):
    inner = next(d["inner"] for d in R.acq if d["lid"] == R.backl)
    return P.types[inner]
def mem_variant(P, R):
    t = storage_type(P, R)
    for i, v in enumerate(t["variants"]):
        if len(v["f"]) == 1 and P.tyinfo(v["f"][0][1]) == "seq" and P.elem_is_byte(v["f"][0][1]): return i
    raise Undecided("in-memory storage not identified")
def mk_memory(P, R, acq):
    t = storage_type(P, R); i = mem_variant(P, R)
    NVAR[acq] = len(t["variants"])
    return fld(down(acq, i, t["variants"][i]["n"]), 0, t["variants"][i]["f"][0][0], "seq")

# ---------------------------------------------------------------- C05
def access_name(t):
    while t.op in ("deref", "ref", "f", "as"):
        if t.op == "f" and isinstance(t.a[1], str) and not t.a[1].isdigit(): return t.a[1]
        if t.op == "ref": return None
        t = t.a[0]
    return None

@rule("C05")
def c05(cx):
    P = cx.prog("measureme")
    fns = [P.fns[i] for i in P.d["roots"]]
    edges = {}           # (class, name) -> {(class, name): where}
    nlock = 0; analysed = 0
    bad = False
    for f in fns:
        if f.get("closure"): continue
        I = cx.interp(P, contracts=False); I.fact_limit = 3
        evs = []
        I.observers.append(lambda kd, d: evs.append((kd, d, I.where())) if kd in ("lock", "callback", "forget") else None)
        try:
            outs = I.call_fn(f, symargs(P, f), State(), 0)
        except (Undecided, RecursionError) as e:
            if evs: cx.undecided("lock order of " + f["path"], e, where(f))
            outs = None
        analysed += 1
        inner = {}
        def node(lid, evs=evs):
            return inner.get(lid), access_name(lid[0][1]) if lid[0][0] == "P" else None
        here = []
        for kd, d, w in evs:
            if kd == "lock":
                nlock += 1
                inner[d["lid"]] = P.types[d["inner"]]["s"]
                if d["lid"] in d["held"]:
                    cx.violation("no lock is acquired again while held", "%s acquires %s which it already holds (entered from %s)" % (w, show_lid(d["lid"]), f["path"]), w)
                    bad = True
                for h in d["held"]:
                    if h != d["lid"]: edges.setdefault(node(h), {}).setdefault(node(d["lid"]), w)
            elif kd == "callback":
                held = set(d["st"].held)
                if len(held) > 1:
                    cx.violation("user callbacks run with at most the written stream's lock held", "%s calls a user-supplied function while holding %s (entered from %s)" % (w, ", ".join(show_lid(h) for h in held), f["path"]), w)
                    bad = True
                elif held:
                    h = next(iter(held))
                    own = is_sink_state(P, inner_of(evs, h))
                    if not own:
                        cx.violation("user callbacks run with at most the written stream's lock held", "%s calls a user-supplied function while holding the shared lock %s" % (w, show_lid(h)), w); bad = True
            elif kd == "forget":
                v = d["v"]
                if v.op == "agg" and v.a[0] == "guard":
                    cx.violation("every lock is released", "%s leaks a lock guard" % w, w); bad = True
        for s, v in outs or []:
            if s.held and not (v.op == "agg" and any(x.op == "agg" and x.a[0] == "guard" for x in subterms(v))):
                cx.violation("every lock is released", "%s returns with %s still locked" % (f["path"], [show_lid(h) for h in s.held]), where(f)); bad = True
    # cycles between different kinds of lock
    cls = {}
    for a, m in edges.items():
        for b, w in m.items(): cls.setdefault(a[0], {}).setdefault(b[0], (a, b, w))
    for cyc in cycles({a: set(m) - {a} for a, m in cls.items()}):
        ws = [cls[x][y][2] for x, y in zip(cyc, cyc[1:] + cyc[:1])]
        cx.violation("locks are taken in one global order", "cycle in the lock order: " + " -> ".join(cyc + cyc[:1]) + " at " + "; ".join(ws), ws[0]); bad = True
    # nested locks of the same kind
    for c, m in cls.items():
        if c not in m: continue
        sub = {a[1]: {b[1]: w for b, w in mm.items() if b[0] == c} for a, mm in edges.items() if a[0] == c}
        anyone = any(None in (a, *m2) for a, m2 in sub.items())
        cy = cycles({a: set(m2) for a, m2 in sub.items()})
        if cy or anyone:
            w = m[c][2]
            cx.violation("locks are taken in one global order", "%s takes a lock of kind %s while holding another lock of the same kind, in no fixed order" % (w, c), w); bad = True
    cx.notes.append("lock order edges: " + "; ".join("%s -> %s" % (a, b) for a, m in edges.items() for b in m))
    if not nlock: cx.undecided("lock order", "no lock acquisition found"); return
    if not bad:
        cx.ok("locks are taken in one global order", "%d functions, %d acquisitions, %d order edges" % (analysed, nlock, sum(len(m) for m in edges.values())))
        cx.ok("no lock is acquired again while held"); cx.ok("user callbacks run with at most the written stream's lock held"); cx.ok("every lock is released")

def inner_of(evs, lid):
    return next(d["inner"] for kd, d, w in evs if kd == "lock" and d["lid"] == lid)
def show_lid(lid):
    root = lid[0]
    return (show(root[1]) if root[0] == "P" else str(root)) + "".join("." + str(e[2]) for e in lid[1] if e[0] == "f")
def cycles(g):
    out = []; done = set()
    def go(n, path):
        if n in path:
            c = path[path.index(n):]
            key = frozenset(c)
            if key not in done: done.add(key); out.append(c)
            return
        for m in g.get(n, ()): go(m, path + [n])
    for n in list(g): go(n, [])
    return out
