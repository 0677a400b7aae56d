"""C15: stream headers."""
from spec import *
import rules_profiler as RP
VERSION = 9
MAGIC = {"top": b"MMPD", "events": b"MMES", "data": b"MMSD", "index": b"MMSI"}
B = lambda b: mk("bytes", b, ty="seq")
HDR = {n: m + VERSION.to_bytes(4, "little") for n, m in MAGIC.items()}

def header_ok(x, magic, version=True):
    cs = [not_(lt(length(x), k(8))), eq(slice_(x, k(0), k(4)), B(magic))]
    if version: cs.append(eq(fromle(4, slice_(x, k(4), k(8))), k(VERSION)))
    t = cs[-1]
    for c in reversed(cs[:-1]): t = gamma(c, t, FALSE)
    return t

def is_ok(s, v):
    v = s.simp(v)
    if v.op == "agg": return kb(v.a[1] == 0)
    return mk("is", v, 0, ty="bool")

@rule("C15")
def c15_functions(cx):
    for big in (False, True):
        P = cx.prog("measureme", big=big)
        tg = " (big-endian target)" if big else ""
        f = cx.fn(P, "measureme::file_header::write_file_header")
        m = sym("spec.magic", "seq")
        st = State(); root = ("O", "spec-magic"); st.mem[root] = m
        st = st.assume(eq(length(m), k(4)), True)
        sink = ("O", "spec-out"); st.mem[sink] = EMPTY
        ws = []
        I = cx.interp(P, contracts=False); I.io_ok = True
        I.observers.append(lambda kd, d: ws.append(d["data"]) if kd == "write" else None)
        outs = I.call_fn(f, [symargs(P, f)[0], ref(root)], st, 0)
        cx.require("write_file_header returns" + tg, len(outs) == 1, "%d outcomes" % len(outs), where(f))
        cx.same("a header is the magic followed by the little-endian version" + tg, cat(*ws), cat(m, B(VERSION.to_bytes(4, "little"))), facts=outs[0][0].facts.d.items(), where=where(f), interp=I, fixed=lambda r: {m: r.randbytes(4)})
        f = cx.fn(P, "measureme::file_header::verify_file_header")
        x = sym("spec.bytes", "seq"); st = State(); st.mem[root] = m; st.mem[("O", "spec-x")] = x
        st = st.assume(eq(length(m), k(4)), True)
        I = cx.interp(P)
        a = symargs(P, f)
        outs = I.call_fn(f, [ref(("O", "spec-x")), ref(root)] + a[2:], st, 0)
        want = gamma(not_(lt(length(x), k(8))), gamma(eq(slice_(x, k(0), k(4)), m), eq(fromle(4, slice_(x, k(4), k(8))), k(VERSION)), FALSE), FALSE)
        fx = fixed_header(x, m)
        cx.same("verify_file_header accepts exactly streams with that magic and the current version" + tg, cases(outs, is_ok), want, where=where(f), interp=I, need=150, tries=1500, fixed=fx)

def fixed_header(x, m):
    """assignments around valid headers"""
    def fx(r):
        mg = r.randbytes(4)
        h = bytearray(mg + VERSION.to_bytes(4, "little") + r.randbytes(r.choice((0, 1, 24, 100))))
        t = r.randrange(6)
        if t == 0: h[r.randrange(4)] ^= 1 << r.randrange(8)
        elif t == 1: h[4 + r.randrange(4)] ^= 1 << r.randrange(8)
        elif t == 2: h = h[:r.randrange(9)]
        elif t == 3: h[4] = r.randrange(12)
        return {x: bytes(h), m: mg}
    return fx

@rule("C15")
def c15_writer(cx):
    P = cx.prog("measureme")
    R = RP.new_profiler(cx, P)
    for tag, n in (("Events", "events"), ("StringData", "data"), ("StringIndex", "index")):
        key = R.tags.get(tag)
        if key is None:
            cx.violation("a profile has a stream of %s" % tag, "Profiler::with_counter makes no sink for these pages", R.where); continue
        st = R.made.mem[key]
        head = st.a[0] if st.op == "cat" else st
        cx.require("the %s stream begins with its own header" % tag, head.op == "bytes" and head.a[0][:8] == HDR[n], "begins with %s" % show(head)[:100], R.where)
    # the file itself: header first
    pre = []; seen_sink = False
    for kd, d in R.run.ev:
        if kd == "sink-write": seen_sink = True
        elif kd == "write" and not seen_sink: pre.append(d["data"])
    got = cat(*pre)
    cx.require("the file begins with the file header, written before any stream", got.op == "bytes" and got.a[0] == HDR["top"], "what is written first is %s" % show(got)[:200], R.where)
    files = [d for kd, d in R.run.ev if kd == "file" and d["op"] == "create"]
    args = R.run.args
    ok = len(files) == 1 and files[0]["path"].op == "withext" and bytes_of(files[0]["path"].a[1]) == b"mm_profdata"
    cx.require("one file is created, with the profile file extension", ok, "creates %s" % [show(d["path"]) for d in files], R.where)
    # both sinks of the string table share the file with the event sink
    backs = set()
    for tag, key in R.tags.items():
        v = R.made.mem.get(key[2][0])
        backs |= {x for x in subterms(v) if x.op == "ref"}
    cx.require("all streams of a profile share one file", len(backs) == 1, "streams have %d backing storages" % len(backs), R.where)

def bytes_of(t): return t.a[0] if t.op == "bytes" else None

def split_facts(s):
    """facts the evaluator can use, and the rest"""
    good, rest = [], []
    for c, b in s.facts.d.items(): (rest if randint.unknown_in(c) or randint.has_mu(c) else good).append((c, b))
    return good, rest

def mentions_bytes(t, x):
    """x occurs in t other than as the argument of len"""
    if t is x: return True
    if t.op == "len" and t.a[0] is x: return False
    return any(mentions_bytes(y, x) for y in children(t))

def conjuncts(c):
    if c.op == "gamma" and c.a[2] is FALSE: return conjuncts(c.a[0]) + conjuncts(c.a[1])
    if c.op == "band": return [y for x in c.a for y in conjuncts(x)]
    return [c]

def valid_headers(ns):
    """assignments giving each of these byte sequences a header that is valid
    or just not"""
    xs = [(x, magic) for what, x, magic, ver in ns]
    def fx(r):
        d = {}
        bad = r.randrange(len(xs) + 1)
        for i, (x, magic) in enumerate(xs):
            h = bytearray(magic + VERSION.to_bytes(4, "little") + r.randbytes(r.choice((0, 16, 40))))
            if i == bad:
                t = r.randrange(5)
                if t == 0: h[r.randrange(4)] ^= 1 << r.randrange(8)
                elif t == 1: h[4 + r.randrange(4)] ^= 1 << r.randrange(8)
                elif t == 2: h = h[:r.randrange(9)]
                elif t == 3: h[4] = r.randrange(12)
                else: h[:4] = r.choice(list(MAGIC.values()))
            d[x] = bytes(h)
        return d
    return fx

def verified(cx, name, outs, I, wh, needs):
    n = 0
    for s, v in outs:
        o = is_ok(s, v)
        if o is FALSE: continue
        n += 1
        good, rest = split_facts(s)
        ns = needs(s, v)
        for i, (what, x, magic, ver) in enumerate(ns):
            ob = "%s: success implies a valid %s header" % (name, what)
            want = header_ok(x, magic, ver)
            if all(s.simp(c) is TRUE for c in conjuncts(want)):
                cx.ok(ob, "each condition has been tested on every path to this return", wh); continue
            r = randint.equal(want, TRUE, facts=good, seed=cx.seed, interp=I, tries=1500, fixed=valid_headers(ns))
            if r.kind == "eq": cx.ok(ob, r.why, wh)
            elif r.kind != "ne" or any(mentions_bytes(c, x) for c, b in rest): cx.undecided(ob, "depends on conditions that are not analysed", wh)
            else: cx.same(ob, want, TRUE, facts=good, where=wh, interp=I, tries=1500, fixed=valid_headers(ns))
    cx.require("%s can succeed" % name, n > 0, "every outcome is an error", wh)

def analyse(cx, P, path, args=None, readers=(), over={}):
    import contracts as CT
    f = cx.fn(P, path)
    I = cx.interp(P); CT.install_readers(I, *readers); I.overrides.update(over)
    a = symargs(P, f) if args is None else args
    return f, I, a, I.call_fn(f, a, State(), 0)

def streams_of(x, tag):
    import maps
    return maps.val(mk("streams", slice_(x, k(8), length(x))), agg(RP.PT, RP.TAGS.index(tag), []), "seq")

@rule("C15")
def c15_readers(cx):
    P = cx.prog("decodeme")
    f, I, a, outs = analyse(cx, P, "decodeme::stringtable::StringTable::new")
    verified(cx, "StringTable::new", outs, I, where(f), lambda s, v: [("string data", a[0], MAGIC["data"], True), ("string index", a[1], MAGIC["index"], True)])
    f, I, a, outs = analyse(cx, P, "decodeme::EventDecoder::from_separate_buffers")
    verified(cx, "EventDecoder::from_separate_buffers", outs, I, where(f), lambda s, v: [
        ("string data", a[0], MAGIC["data"], True), ("string index", a[1], MAGIC["index"], True), ("event", a[2], MAGIC["events"], True)])
    f, I, a, outs = analyse(cx, P, "decodeme::EventDecoder::new")
    verified(cx, "EventDecoder::new", outs, I, where(f), lambda s, v: [("file", a[0], MAGIC["top"], True),
        ("string data", streams_of(a[0], "StringData"), MAGIC["data"], True), ("string index", streams_of(a[0], "StringIndex"), MAGIC["index"], True), ("event", streams_of(a[0], "Events"), MAGIC["events"], True)])
    f, I, a, outs = analyse(cx, P, "decodeme::read_file_header")
    x, m = a[0], a[1]
    xs = deref_arg(I, x, f, 0); ms = deref_arg(I, m, f, 1)
    want = gamma(not_(lt(length(xs), k(8))), eq(slice_(xs, k(0), k(4)), ms), FALSE)
    cx.same("read_file_header accepts exactly streams with the expected magic", cases(outs, is_ok), want, where=where(f), interp=I, need=150, tries=1500, fixed=fixed_header(xs, ms))
    for s, v in outs:
        v = s.simp(v)
        if v.op == "agg" and v.a[1] == 0:
            cx.same("read_file_header gives the little-endian version", v.a[2][0], fromle(4, slice_(xs, k(4), k(8))), facts=s.facts.d.items(), where=where(f), interp=I, fixed=fixed_header(xs, ms))
    A = cx.prog("analyzeme")
    f, I, a, outs = analyse(cx, A, "analyzeme::profiling_data::ProfilingData::from_paged_buffer")
    verified(cx, "ProfilingData::from_paged_buffer", outs, I, where(f), lambda s, v: [("file", a[0], MAGIC["top"], False)])

def deref_arg(I, a, f, i):
    """the byte sequence a reference argument points to"""
    s = State()
    return I.models.content(I, s, a, f["locals"][i + 1][0])
