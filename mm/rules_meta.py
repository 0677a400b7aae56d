"""C29: the metadata record; C28: counters."""
from spec import *
import rules_profiler as RP
import contracts as CT
from rules_decode import field, decoder, ED, ID, META
import json, random
CN = "measureme::counters::Counter"
NAMES = {"WallTime": "wall-time", "Instructions": "instructions:u", "InstructionsMinusIrqs": "instructions-minus-irqs:u", "InstructionsMinusRaw0420": "instructions-minus-r0420:u"}
UNITS = {"wall-time": [["ns", 1], ["μs", 1000], ["ms", 1000000], ["s", 1000000000]]}

def variants(P, adt):
    t = next((t for t in P.types if t.get("adt") == adt and "variants" in t), None)
    if t is None: raise Missing("type " + adt)
    return [v["n"] for v in t["variants"]]

ARG = ["a", "rustc", "--x=1", "é", "\"", "\\", "\n", "\t", "\x00", "\x1f", "\x08", "\x0c", "\r", "\u2028", "{", "}", " ", "\x7f", "\x19", "\x10", "😀", "\\u0041", "\udcff", "\udcc3", "\x01", "\x0b", "\x1b", "/", "\x1a"]
def rand_args(r): return tuple("".join(r.choice(ARG) for _ in range(r.choice((0, 1, 1, 2, 5)))).encode(errors="surrogateescape") for _ in range(r.choice((0, 1, 1, 2, 3, 6))))

def stored(cx):
    """the string data stream of a new profiler and what it depends on"""
    P = cx.prog("measureme")
    R = RP.new_profiler(cx, P)
    t = cases([(s, s.mem[R.tags["StringData"]]) for s, v in R.outs], base=set(c for s, v in R.outs for c in s.facts.d if not any(x.op == "envargs" for x in subterms(c)) or c.op == "more"))
    now = [x for x in subterms(t) if x.op == "now"]; pid = [x for x in subterms(t) if x.op == "pid"]
    args = [mk("envargs", "args_os", ty="seq"), mk("envargs", "args", ty="seq")]
    names = variants(P, CN)
    memo = {}
    def fx(r):
        i = r.randrange(len(names))
        memo.update(args=rand_args(r), now=r.choice((0, 17 * 10**17 + 5, r.getrandbits(70), r.getrandbits(90), 10**18)), pid=r.choice((0, 1, 77, r.getrandbits(32))), ctr=names[i])
        f = {x: memo["now"] for x in now}; f.update({x: memo["pid"] for x in pid}); f.update({x: memo["args"] for x in args})
        f[R.ctr] = ("agg", CN, i, ("opaque",))
        return f
    return P, R, t, fx, memo

def parsed(v):
    """the metadata: what lies between the stream header and the terminator"""
    if not isinstance(v, (bytes, tuple)) or v[:1] == ("agg",): return None
    b = bytes(v)
    if len(b) < 9 or b[-1:] != b"\xff": return {}
    try: d = json.loads(b[8:-1].decode())
    except (ValueError, UnicodeDecodeError): return {}
    return d if isinstance(d, dict) else {}

@rule("C29")
def c29_write(cx):
    P, R, t, fx, memo = stored(cx)
    kw = dict(where=R.where, interp=R.run.I, fixed=fx, need=250, tries=700)
    hard = lambda e, vs: "control" if any(c < 32 for a in memo["args"] for c in a) else "quote" if any(c in b'"\\' for a in memo["args"] for c in a) else "none" if not memo["args"] else "unicode" if any(c > 127 for a in memo["args"] for c in a) else "plain"
    def test(key, want):
        def f(e, vs):
            d = parsed(vs[0])
            return None if d is None else key in d and want(d[key])
        return f
    if "args" in getattr(R.run.I, "env_args", ()):
        cx.violation("the metadata is valid JSON for every command line", "the command line is read with std::env::args, which panics on an argument that is not Unicode", R.where)
    cl = (hard, {"control", "quote", "none", "unicode", "plain"})
    cx.holds("the metadata is valid JSON for every command line", [t], lambda e, vs: None if parsed(vs[0]) is None else bool(parsed(vs[0])), classes=cl, **kw)
    cx.holds("cmd is the command line's text", [t], test("cmd", lambda x: isinstance(x, str) and x.rstrip(" ") == " ".join(a.decode(errors="replace") for a in memo["args"]).rstrip(" ")), classes=cl, **kw)
    cx.holds("start_time is the current time in nanoseconds", [t], test("start_time", lambda x: type(x) is int and x == memo["now"]), **kw)
    cx.holds("process_id is the process's id", [t], test("process_id", lambda x: type(x) is int and x == memo["pid"]), **kw)
    cx.holds("counter names the profiler's counter", [t], test("counter", lambda x: isinstance(x, dict) and x.get("name") == NAMES.get(memo["ctr"], x.get("name"))), **kw)

@rule("C28")
def c28_describe(cx):
    P, R, t, fx, memo = stored(cx)
    kw = dict(where=R.where, interp=R.run.I, fixed=fx, need=120, tries=400, classes=(lambda e, vs: memo["ctr"], set(variants(P, CN))))
    def test(e, vs):
        d = parsed(vs[0])
        if d is None: return None
        c = d.get("counter")
        if not isinstance(c, dict) or memo["ctr"] not in NAMES: return False if memo["ctr"] in NAMES else True
        n = NAMES[memo["ctr"]]
        return c.get("name") == n and c.get("units") == UNITS.get(n, [["instructions", 1]])
    cx.holds("a counter describes itself under its documented name and units", [t], test, **kw)

@rule("C29")
def c29_read(cx):
    P = cx.prog("decodeme")
    # the text parsed is that of the metadata string
    I = cx.interp(P); CT.install_readers(I, "to_string")
    seen = []
    MD = "decodeme::Metadata"
    def from_str(I_, st, c):
        t = next((i for i, t in enumerate(P.types) if t.get("adt") == MD), None)
        seen.append((st, M.content(I_, st, c.args[0], c.tys[0])))
        m = sym("spec.metadata", P.tyinfo(t))
        return [(st, agg("core::result::Result", 0, [m])), (st, agg("core::result::Result", 1, [sym("spec.jsonerror")]))]
    from rules_decode import D, X, E_
    I.overrides["serde_json::de::from_str"] = I.overrides["serde_json::from_str"] = from_str
    f = cx.fn(P, ED + "from_separate_buffers"); a = symargs(P, f)
    outs = I.call_fn(f, [D, X, E_] + a[3:], State(), 0)
    if not seen: cx.undecided("the reader parses the metadata string", "no call of serde_json::from_str seen", where(f))
    for st, txt in seen:
        memo = {}
        def fx(r):
            memo["v"] = bytes(r.choice(b'{"} ab') for _ in range(r.choice((0, 2, 6))))
            return {"text": lambda env, i: memo["v"] if i == META else b"(another string)"}
        cx.holds("the reader parses the metadata string", [txt], lambda e, vs: bytes(vs[0]) == memo["v"], where=where(f), interp=I, fixed=fx, need=30, tries=100)
    oks = [(s, v) for s, v in ((s, s.simp(v)) for s, v in outs)]
    # a parse error is an error
    bad = [v for s, v in oks if v.op == "agg" and v.a[1] == 0 and not any(x.op == "sym" and x.a[0] == "spec.metadata" for x in subterms(v))]
    cx.require("unparsable metadata is an error", not bad, "a decoder is made without parsed metadata: %s" % [show(v)[:300] for v in bad], where(f))
    # names under which the reader looks the values up
    vis = [g for g in P.fns if "decodeme::Metadata" in g["path"] and g["path"].endswith("::visit_str") and "FieldVisitor" in g["path"]]
    if not vis: cx.undecided("field names of the reader", "no derived field visitor found"); return
    names = [x[0] for x in next(t for t in P.types if t.get("adt") == MD)["variants"][0]["f"]]
    for g in vis:
        N = sym("spec.name", "seq")
        I2 = cx.interp(P)
        root = ("O", "spec-name"); st = State(); st.mem[root] = N
        outs = I2.call_fn(g, [sym("spec.visitor"), ref(root)], st, 0)
        memo = {}
        def fx(r):
            memo["n"] = r.choice(("start_time", "process_id", "cmd", "counter", "zzz")); return {N: memo["n"].encode()}
        def test(e, vs):
            v = vs[0]
            if not (isinstance(v, tuple) and v[0] == "agg" and v[2] == 0 and isinstance(v[3], tuple)): return None
            i = v[3][2]
            return i == (names.index(memo["n"]) if memo["n"] in names else len(names))
        cx.holds("the reader finds each field under its own name", [cases(outs)], test, where=where(g), interp=I2, fixed=fx, need=30, tries=100, classes=(lambda e, vs: memo["n"], set(names)))

@rule("C29")
def c29_values(cx):
    """each value of the record becomes the field of its name: a start time in nanoseconds since the epoch, a process id, a text"""
    import rules_serde as RS
    P = cx.prog("decodeme"); MD = "decodeme::Metadata"
    def sample(r, n, P):
        if n == "start_time": return randint.near(r, (1 << 63) - 2, lambda: r.choice((0, 1, 999, 1001, 10**9, 17 * 10**17 + 123456789, r.getrandbits(60), (1 << 63) - 1)), .2)
        if n == "process_id": return r.choice((0, 1, 77, 65536, r.getrandbits(32), 2**32 - 1))
        return "".join(r.choice(ARG) for _ in range(r.choice((0, 1, 3, 8)))).encode(errors="replace")
    RS.c33_read(cx, P, "Metadata", MD, RS.fields(P, MD), sample)

# ---------------------------------------------------------------- looking counters up, reading them
BN = CN + "::by_name"
HWN = [n for n in NAMES if n != "WallTime"]
RESULT = "core::result::Result"

@rule("C28")
def c28_lookup(cx):
    P = cx.prog("measureme")
    I = cx.interp(P)
    names = variants(P, CN)
    there_ = sym("spec.hardware", "bool")      # can the machine's counters be used?
    for n in HWN:
        if P.fn("measureme::counters::%s::new" % n) is None: raise Missing(n + "::new")
        def made(I_, st, c, n=n):
            out = []
            for there in (True, False):
                s = st.assume(there_, there)
                if s is not None: out.append((s, agg(RESULT, 0, [mk("made", n)]) if there else agg(RESULT, 1, [mk("nocounter", n)])))
            return out
        I.overrides["measureme::counters::%s::new" % n] = made
    N = sym("spec.name", "seq"); root = ("O", "spec-name"); st = State(); st.mem[root] = N
    f = cx.fn(P, BN)
    outs = I.call_fn(f, [ref(root)], st, 0)
    t = cases(outs, lambda s, v: (lambda w: w if w.op != "agg" else agg("res", w.a[1], [w.a[2][0] if w.a[1] == 0 else k(0)]))(s.simp(v)))
    mades = {mk("made", n): n for n in HWN}
    memo = {}
    others = ["", "wall-time ", "Wall-Time", "wall", "instructions", "instructions:k", "instructions:uu", "instructions-minus-irqs", "instructions-minus-r0420:k", "instructions-minus-", "nstructions:u", "wall_time", "zzz"]
    def fx(r):
        memo["n"] = r.choice(list(NAMES.values()) + others)
        d = {x: ("agg", "made", None, ("opaque", n)) for x, n in mades.items()}
        d[N] = memo["n"].encode()
        d[there_] = memo["hw"] = r.random() < .7
        return d
    inv = {v: k_ for k_, v in NAMES.items()}
    def test(e, vs):
        v = vs[0]
        if not (isinstance(v, tuple) and v[:1] == ("agg",)): return None
        if v[1] == "panicked": return False
        want = inv.get(memo["n"])
        if want is None or want != "WallTime" and not memo["hw"]: return v[2] == 1
        if v[2] != 0: return False
        w = v[3]
        if not (isinstance(w, tuple) and w[:1] == ("agg",)): return None
        if w[2] is None or w[2] != names.index(want): return False
        m = w[3]
        return m[3][1] == want if isinstance(m, tuple) and m[1] == "made" else want == "WallTime"
    cx.holds("by_name gives the counter of that name and refuses other names", [t], test, where=where(f), interp=I, fixed=fx, need=100, tries=400, classes=(lambda e, vs: inv.get(memo["n"], "unknown"), set(NAMES) | {"unknown"}))

def attr_of(P, reg):
    """{(type, config)} of the perf events whose register a term reads"""
    out = set()
    for x in subterms(reg):
        if x.op == "agg" and str(x.a[0]).endswith("::perf_event_attr"):
            out.add((x.a[2][0], x.a[2][2]))     # type and config: the kernel's layout
    return out

def consts(t):
    """the constants a term can be, or None"""
    if t.op == "k": return {t.a[0]}
    if t.op == "gamma":
        a, b = consts(t.a[1]), consts(t.a[2])
        return None if a is None or b is None else a | b
    return None

IRQS = {0xcf, 0x2c, 0x1cb}
@rule("C28")
def c28_reading(cx):
    P = cx.prog("measureme")
    names = variants(P, CN)
    for nm in NAMES:
        I = cx.interp(P); evs = []
        I.observers.append(lambda kd, d: evs.append(d["ev"]) if kd == "asm" else None)
        def deref(I_, st, c):
            if not str(c.res).startswith("<memmap2::Mmap as"): return None
            return [(st, mk("mapped", st.simp(I_.load(st, c.args[0])), ty="ref"))]
        I.overrides["core::ops::deref::Deref::deref"] = deref
        root = ("O", "spec-name"); st = State(); st.mem[root] = bytes_(NAMES[nm].encode())
        f = cx.fn(P, BN)
        outs = I.call_fn(f, [ref(root)], st, 0)
        oks = [(s, v) for s, v in ((s, s.simp(v)) for s, v in outs) if v.op == "agg" and v.a[1] == 0]
        label = "the reading of %s is what elapsed since its creation" % NAMES[nm]
        if len(oks) != 1: cx.undecided(label, "%d ways to create the counter" % len(oks), where(f)); continue
        s, v = oks[0]
        n0 = len(evs)
        s = s.copy(); cr = ("O", "spec-counter"); s.mem[cr] = v.a[2][0]
        # what the profiler records for an instant event is the reading: here, the reading itself
        g = cx.fn(P, CN + "::since_start")
        rs = I.call_fn(g, [ref(cr)], s, 0)
        if not rs: cx.undecided(label, "reading not analysed", where(g)); continue
        t = cases(rs, base=set(s.facts.d))
        before = set(x.id for x in evs[:n0])
        kinds = {}; bad = None
        for x in subterms(t):
            if x.op != "asmout": continue
            ev = x.a[1]
            if "rdpmc" not in str(ev.a[0]): bad = "an instruction other than rdpmc is used"; break
            at = attr_of(P, ev.a[1][0])
            if not at: bad = "event behind a register not determined: " + str(ev.a[1][0])[:300]; break
            ks = set()
            for ty, cf in at:
                a, b = consts(ty), consts(cf)
                if a is None or b is None: ks.add(None); continue
                for i in a:
                    for j in b:
                        ks.add("instructions" if (i, j) == (0, 1) else "irqs" if i == 4 and j in IRQS else "r0420" if (i, j) == (4, 0x420) else ("another event", i, j))
            if None in ks or len(ks) != 1: bad = "event behind a register: %s" % (ks,); break
            kinds[x] = (ks.pop(), 0 if ev.id in before else 1)
        if bad: cx.undecided(label, bad, where(g)); continue
        nows = [x for x in subterms(t) if x.op == "now"]
        first = set(x.id for x in subterms(s.mem[cr]) if x.op == "now")
        want = {"WallTime": {}, "Instructions": {"instructions": 1}, "InstructionsMinusIrqs": {"instructions": 1, "irqs": -1}, "InstructionsMinusRaw0420": {"instructions": 1, "r0420": -1}}[nm]
        memo = {}
        def fx(r):
            memo.clear()
            fixed = {}
            for kd in set(a for a, _ in kinds.values()) | set(want):
                a = r.choice((0, -5, r.randrange(-1 << 47, 1 << 46), -(1 << 47), 1 << 40)); b = min(a + r.choice((0, 1, 7, 10, r.getrandbits(40), 1 << 33)), (1 << 47) - 1)
                memo[kd, 0], memo[kd, 1] = a, b
            for x, (kd, ph) in kinds.items():
                w = memo[kd, ph] & (1 << 48) - 1
                fixed[x] = w & 0xffffffff if x.a[0] == "ax" else w >> 32
            a = r.choice((0, r.getrandbits(62), 10 ** 18)); b = a + r.choice((0, 1, 999, 10 ** 9, r.getrandbits(50)))
            memo["now"] = (a, b)
            for x in nows: fixed[x] = a if x.id in first else b
            return fixed
        def test(e, vs):
            if not isinstance(vs[0], int): return None
            if nm == "WallTime": return vs[0] == memo["now"][1] - memo["now"][0]
            return vs[0] == sum(w * (memo[kd, 1] - memo[kd, 0]) for kd, w in want.items()) % (1 << 64)
        cx.holds(label, [t], test, where=where(g), interp=I, fixed=fx, need=100, tries=400)
