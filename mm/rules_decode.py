"""C12 (reading), C13: the string table reader."""
from spec import *
import contracts as CT
from rules_header import HDR
FIRST = 100_000_003; USERMAX = 100_000_000; META = USERMAX + 1; INVALID = USERMAX + 2
ST = "decodeme::stringtable::StringTable::"
SR = "decodeme::stringtable::StringRef::"
D, X = sym("spec.data", "seq"), sym("spec.index", "seq")
ID = sym("spec.id", u(64))

def table(cx, P, I):
    """the table made by StringTable::new from any bytes"""
    f = cx.fn(P, ST + "new")
    a = symargs(P, f)
    outs = I.call_fn(f, [D, X] + a[2:], State(), 0)
    res = [(s, v.a[2][0]) for s, v in ((s, s.simp(v)) for s, v in outs) if v.op == "agg" and v.a[1] == 0]
    if len(res) != 1: raise Undecided("table made by StringTable::new not determined")
    return res[0]

def decode(data, index, i, text):
    """reference semantics: None if the data is not in the format"""
    if i <= META:
        if i not in index: return b"<unknown>"
        p = index[i]
    elif i == INVALID: return b"<unknown>"
    else: p = i - FIRST
    out = b""
    while True:
        if p >= len(data): return None
        b = data[p]
        if b == 0xff: return out
        if b == 0xfe:
            if p + 9 > len(data): return None
            out += text(int.from_bytes(data[p + 1:p + 9], "little")); p += 9
        else:
            q = p
            while q < len(data) and data[q] not in (0xfe, 0xff): q += 1
            if q == len(data): return out + b"<invalid>"
            out += data[p:q]; p = q

def rand_table(r):
    """-> (data, index bytes, ids worth asking for)"""
    data = bytearray(HDR["data"]); ids = []; at = []
    for _ in range(r.choice((1, 2, 3))):
        at.append(len(data))
        for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
            if r.random() < .5: data += randint.prose(r, randint.near(r, 70000, lambda: r.choice((0, 1, 3, 8, 9, 12)), .1), "abé\x1e\n ")
            else: data += b"\xfe" + r.choice((FIRST + r.choice(at), r.choice((0, 7, META, INVALID)), r.getrandbits(40), 0xff << 8 * r.randrange(8))).to_bytes(8, "little")
        data += b"\xff"
    if r.random() < .25:
        at.append(len(data)); data += r.choice((b"", b"\xfe" + bytes(8))) + b"unterminated"
    vs = r.sample(range(0, 9), r.choice((0, 1, 3, 5)))
    if r.random() < .5: vs.append(META)
    if r.random() < .5: vs.append(USERMAX)
    if r.random() < .2 and vs: vs.append(vs[0])
    index = bytearray(HDR["index"])
    for v in vs: index += v.to_bytes(8, "little") + r.choice(at).to_bytes(8, "little")
    return bytes(data), bytes(index), [FIRST + a for a in at] + vs + [INVALID, 4, META]

def parse_index(x): return {int.from_bytes(x[p:p + 8], "little"): int.from_bytes(x[p + 8:p + 16], "little") for p in range(8, len(x), 16)}

def fx1(r, i=None):
    d, x, ids = rand_table(r)
    if i is None: i = r.choice(ids)
    def own(env, j):
        """the text of the very string in question, asked for again"""
        if j != i: return None
        def other(m):
            if m == i: raise randint.Reject("string refers to itself")
            return env.text_of(m)
        v = decode(d, parse_index(x), j, other)
        if v is None: raise randint.Reject("malformed")
        return v
    return {D: d, X: x, ID: i, "text": own}

def fx2(r): return fx1(r, META)

def expect(env, vs):
    got, d, x, i = vs
    if not (isinstance(d, bytes) and isinstance(x, bytes)): return None
    w = decode(d, parse_index(x), i, env.text_of)
    if w is None: return None
    return bytes(got) == w if isinstance(got, (bytes, tuple)) and got[:1] != ("agg",) else None

def kind(env, vs):
    got, d, x, i = vs
    ix = parse_index(x)
    if i <= META and i not in ix: return "unmapped"
    if i == INVALID: return "invalid"
    p = ix[i] if i <= META else i - FIRST
    e = d.find(b"\xff", p)
    n = d.count(b"\xfe", p, e if e >= 0 else len(d))
    return ("virtual " if i <= META else "") + ("unterminated" if e < 0 else "empty" if e == p else "ref" if e == p + 9 and n == 1 and d[p] == 0xfe else "composite" if n else "plain")
_K = {"unmapped", "virtual plain", "virtual composite", "virtual ref", "virtual empty"}
KINDS = {"get": _K | {"invalid", "plain", "composite", "ref", "empty", "unterminated"}, "get_metadata": _K}

@rule("C13")
@rule("C12")
def reading(cx):
    P = cx.prog("decodeme")
    for name, kw in (("to_string", {}), ("write_to_string", {})):
        for how, fx in (("get", fx1), ("get_metadata", fx2)):
            I = cx.interp(P); CT.install_readers(I)
            st, tb = table(cx, P, I)
            root, oroot = ("O", "spec-table"), ("O", "spec-out")
            st = st.copy(); st.mem[root] = tb
            O = sym("spec.sofar", "seq"); st.mem[oroot] = O
            g = cx.fn(P, ST + how)
            gs = I.call_fn(g, [ref(root)] + ([sid(ID)] if how == "get" else []), st, 0)
            if not gs or len(gs) != 1: raise Undecided("StringTable::%s" % how)
            s, sr = gs[0]
            s = s.copy(); s.mem[("O", "spec-sref")] = sr
            f = cx.fn(P, SR + name); wh = where(f)
            outs = I.call_fn(f, [ref(("O", "spec-sref"))] + ([ref(oroot)] if name == "write_to_string" else []), s, 0)
            base = set(s.facts.d)
            i = ID if how == "get" else k(META)
            if name == "to_string":
                # no text is found at the lower half of an address
                def beyond(env, vs):
                    d, x, j = vs[1:]
                    w = decode(d, {a: b & 0xffffffff for a, b in parse_index(x).items()}, j, env.text_of)
                    if w is None or len(w) < 4: raise randint.Reject("too short to tell")
                    if vs[0][1] == "spec.None": return True
                    g = vs[0][3]
                    return bytes(g) != w if isinstance(g, (bytes, tuple)) and g[:1] != ("agg",) else None
                def far(r):
                    while True:
                        d, x, _ = rand_table(r)
                        ix = [j for j in parse_index(x) if how == "get" or j == META]
                        if ix: break
                    x = bytearray(x)
                    for p in range(8, len(x), 16): x[p + 12] |= r.choice((1, 2, 128))
                    return {D: d, X: bytes(x), ID: r.choice(ix) if how == "get" else META}
                cx.holds("the whole address of a mapped string counts (%s)" % how, [cases(outs, lambda s_, v: agg("spec.Text", None, [v]), agg("spec.None", None, []), base=base), D, X, i], beyond, where=wh, interp=I, fixed=far, need=40)
            nm = "text of a string (%s, %s)" % (how, name)
            if name == "to_string":
                cx.holds(nm, [cases(outs, base=base), D, X, i], expect, where=wh, interp=I, fixed=fx, need=500, tries=1200, total=True, classes=(kind, KINDS[how]))
            else:
                t = cases(outs, lambda s_, v: s_.mem[oroot], base=base)
                cx.holds(nm, [t, O, D, X, i], lambda e, vs: None if not isinstance(vs[0], (bytes, tuple)) or vs[0][:1] == ("agg",) else
                         False if bytes(vs[0])[:len(vs[1])] != bytes(vs[1]) else expect(e, [bytes(vs[0])[len(vs[1]):]] + vs[2:]), where=wh, interp=I, fixed=fx, need=500, tries=1200, total=True, classes=(lambda e, vs: kind(e, vs[:1] + vs[2:]), KINDS[how]))

# ---------------------------------------------------------------- events
E_ = sym("spec.events", "seq")
IX = sym("spec.i", u(64))
ED = "decodeme::EventDecoder::"
TEXTS = sym("spec.meta", None)

def decoder(cx, P, I):
    """an EventDecoder over any bytes whose metadata are any metadata"""
    f = cx.fn(P, ED + "from_separate_buffers")
    meta = {}
    def from_str(I, st, c):
        t = next((i for i, t in enumerate(P.types) if t.get("adt") == "decodeme::Metadata"), None)
        if t is None: return None
        m = sym("spec.metadata", P.tyinfo(t)); meta["v"] = m
        return [(st, agg("core::result::Result", 0, [m]))]
    I.overrides["serde_json::de::from_str"] = I.overrides["serde_json::from_str"] = from_str
    a = symargs(P, f)
    outs = I.call_fn(f, [D, X, E_] + a[3:], State(), 0)
    res = [(s, v.a[2][0]) for s, v in ((s, s.simp(v)) for s, v in outs) if v.op == "agg" and v.a[1] == 0]
    if len(res) != 1: raise Undecided("decoder made by from_separate_buffers not determined")
    s, v = res[0]
    if "v" not in meta: raise Undecided("where the metadata come from")
    s = State(dict(s.mem)); root = ("O", "spec-decoder"); s.mem[root] = v
    return s, ref(root), meta["v"]

def parse_id(t):
    """label and arguments of an event id text"""
    bad = lambda p: not p or any((c < 32 or c == 127) and c not in (9, 10, 12, 13) for c in p)
    ps = t.split(b"\x1e")
    if bad(ps[0]): return b"<parse error>", []
    args = []
    for p in ps[1:]:
        if bad(p): break
        args.append(p)
    return ps[0], args

def id_text(r):
    def part():
        m = r.random()
        if m < .15: return b""
        s = randint.prose(r, randint.near(r, 70000, lambda: r.choice((1, 2, 5)), .1), "abcé ~x\n\t\r\x0c").decode()
        if m > .85:
            i = r.randrange(len(s) + 1); s = s[:i] + r.choice("\x00\x01\x1f\x7f\x1c\x1d\x08\x0e\x0b\x0b") + s[i:]
        return s.encode()
    return b"\x1e".join(part() for _ in range(r.choice((1, 1, 2, 3, 4))))

MAX1 = (1 << 48) - 1
def rand_events(r):
    n = r.choice((1, 2, 3))
    b = bytearray(HDR["events"])
    for _ in range(n):
        kind, eid_, th = r.getrandbits(64), r.getrandbits(64), r.getrandbits(32)
        p1 = randint.near(r, MAX1 - 1, lambda: r.choice((0, 5, r.getrandbits(48), r.getrandbits(40), MAX1))); p2 = r.choice((MAX1, MAX1 - 1, MAX1 - 2, r.getrandbits(48), 9, p1, p1 + 1))
        up = (p1 >> 32) << 16 | p2 >> 32
        b += kind.to_bytes(8, "little") + eid_.to_bytes(8, "little") + th.to_bytes(4, "little")
        b += (p1 & 0xffffffff).to_bytes(4, "little") + (p2 & 0xffffffff).to_bytes(4, "little") + up.to_bytes(4, "little")
    return bytes(b), r.randrange(n)

def record(b, i):
    p = 8 + 32 * i
    n = lambda a, z: int.from_bytes(b[p + a:p + z], "little")
    up = n(28, 32)
    return n(0, 8), n(8, 16), n(16, 20), (up >> 16) << 32 | n(20, 24), (up & 0xffff) << 32 | n(24, 28)

EP, TS = "decodeme::event_payload::EventPayload", "decodeme::event_payload::Timestamp"
def payload(p1, p2, start):
    if p2 == MAX1 - 1: return ("agg", EP, 1, p1)
    if p2 == MAX1: return ("agg", EP, 0, ("agg", TS, 1, start + p1))
    return ("agg", EP, 0, ("agg", TS, 0, start + p1, start + p2))

def field(P, adt, names):
    t = next((t for t in P.types if t.get("adt") == adt and "variants" in t), None)
    if t is None: raise Missing("type " + adt)
    fs = [f[0] for f in t["variants"][0]["f"]]
    if any(n not in fs for n in names): raise Missing("fields of %s" % adt)
    return [fs.index(n) for n in names]

def fx_event(r):
    b, i = rand_events(r)
    texts = {}
    def text(env, j):
        if j not in texts: texts[j] = id_text(random.Random(repr((env.seed, j))))
        return texts[j]
    return {E_: b, IX: i, "text": text}
import random

def c18_run(cx):
    P = cx.prog("decodeme")
    I = cx.interp(P); CT.install_readers(I)
    s0, dec, meta = decoder(cx, P, I)
    start = fld(meta, *(lambda i: (i, "start_time"))(field(P, "decodeme::Metadata", ["start_time"])[0]), ("int", True, 128))
    res = {}
    for name in ("decode_full_event", "decode_lightweight_event"):
        f = cx.fn(P, ED + name)
        res[name] = (I.call_fn(f, [dec, IX], s0, 0), where(f))
    return P, I, s0, dec, meta, start, res

@rule("C14")
def c14_parse(cx):
    P, I, s0, dec, meta, start, res = c18_run(cx)
    outs, wh = res["decode_full_event"]
    lab, args = field(P, "decodeme::event::Event", ["label", "additional_data"])
    def test(which):
        def t(env, vs):
            got, b, i = vs
            l, a = parse_id(env.text_of(record(b, i)[1]))
            if not isinstance(got, (bytes, tuple)) or got[:1] == ("agg",): return None
            if which == lab: return bytes(got) == l
            if not all(isinstance(x, (bytes, tuple)) for x in got): return None
            return [bytes(x) for x in got] == a
        return t
    def kind(env, vs):
        l, a = parse_id(env.text_of(record(vs[1], vs[2])[1]))
        return "error" if l == b"<parse error>" else min(len(a), 3)
    for which, nm in ((lab, "the label"), (args, "the arguments")):
        cx.holds("decode_full_event gives %s of the event id's text" % nm, [cases(outs, lambda s, v: fld(s.simp(v), which, None), base=set(s0.facts.d)), E_, IX], test(which),
                 where=wh, interp=I, fixed=fx_event, need=200, tries=700, total=True, classes=(kind, {"error", 0, 1, 2, 3}))

@rule("C18")
def c18(cx):
    P, I, s0, dec, meta, start, res = c18_run(cx)
    base = set(s0.facts.d)
    get = lambda outs, i: cases(outs, lambda s, v: fld(s.simp(v), i, None), base=base)
    def num(j): return lambda env, vs: vs[0] == record(vs[1], vs[2])[j] if isinstance(vs[0], int) else None
    def pay(env, vs):
        r = record(vs[1], vs[2])
        return env.eqv(vs[0], payload(r[3], r[4], vs[3]))
    outs, wh = res["decode_lightweight_event"]
    idx, th, pl = field(P, "decodeme::lightweight_event::LightweightEvent", ["event_index", "thread_id", "payload"])
    kw = dict(where=wh, interp=I, fixed=fx_event, need=100, tries=400, total=True)
    cx.holds("lightweight decoding keeps the index", [get(outs, idx), E_, IX], lambda e, vs: vs[0] == vs[2], **kw)
    cx.holds("lightweight decoding gives the record's thread", [get(outs, th), E_, IX], num(2), **kw)
    cx.holds("lightweight decoding gives the record's payload", [get(outs, pl), E_, IX, start], pay, **kw)
    outs, wh = res["decode_full_event"]
    kd, th, pl = field(P, "decodeme::event::Event", ["event_kind", "thread_id", "payload"])
    kw["where"] = wh
    cx.holds("full decoding gives the record's thread", [get(outs, th), E_, IX], num(2), **kw)
    cx.holds("full decoding gives the record's payload", [get(outs, pl), E_, IX, start], pay, **kw)
    cx.holds("full decoding gives the text of the record's event kind", [get(outs, kd), E_, IX], lambda env, vs: bytes(vs[0]) == env.text_of(record(vs[1], vs[2])[0]) if isinstance(vs[0], (bytes, tuple)) and vs[0][:1] != ("agg",) else None, **kw)
    f = cx.fn(P, ED + "metadata")
    for s, v in I.call_fn(f, [dec], s0, 0):
        v = s.simp(v)
        for n in ("start_time", "process_id", "cmd"):
            i = field(P, "decodeme::Metadata", [n])[0]
            cx.same("metadata() gives the decoded %s" % n, fld(v, i, n), fld(meta, i, n), where=where(f), interp=I)
    f = cx.fn(P, ED + "num_events")
    outs = I.call_fn(f, [dec], s0, 0)
    cx.holds("num_events counts the records", [cases(outs, base=base), E_], lambda e, vs: vs[0] == (len(vs[1]) - 8) // 32, where=where(f), interp=I, fixed=fx_event)

# ---------------------------------------------------------------- building event ids
@rule("C14")
def c14_build(cx):
    import rules_profiler as RP
    from rules_strings import last_stream
    P = cx.prog("measureme")
    EB, EI = "measureme::event_id::EventIdBuilder::", "measureme::event_id::EventId::"
    R = RP.new_profiler(cx, P)
    L, A, AS = sym("spec.label", u(64)), sym("spec.arg", u(64)), sym("spec.args", "seq")
    ar = ("O", "spec-args")
    st0 = R.st.copy(); st0.mem[ar] = AS
    ids = lambda r: r.choice((0, 7, META, FIRST + r.getrandbits(20), r.getrandbits(64)))
    SID = "measureme::stringtable::StringId"
    def seqval(e): return tuple(("agg", SID, None, x) for x in e)
    def enc(l, args): return b"\xfe" + l.to_bytes(8, "little") + b"".join(b"\x1e\xfe" + x.to_bytes(8, "little") for x in args) + b"\xff"
    key = R.tags["StringData"]; so = R.st.mem[key]
    for name, extra in (("from_label", []), ("from_label_and_arg", [sid(A)]), ("from_label_and_args", [mk("ref", ar, (("sl", k(0), length(AS)),))])):
        fn_ = cx.fn(P, EB + "new"); I = cx.interp(P)
        made = I.call_fn(fn_, [ref(R.root)], st0, 0)
        if not made or len(made) != 1: raise Undecided("EventIdBuilder::new")
        s, b = made[0]; s = s.copy(); br = ("O", "spec-idbuilder"); s.mem[br] = b
        f = cx.fn(P, EB + name); wh = where(f)
        outs = I.call_fn(f, [ref(br), sid(L)] + extra, s, 0)
        base = set(s.facts.d)
        if name == "from_label":
            cx.same("from_label gives the label's id", cases(outs, base=base), eid(L), where=wh, interp=I)
            for s2, v in outs:
                for t in R.tags: cx.same("from_label writes nothing (%s)" % t, s2.mem[R.tags[t]], R.st.mem[R.tags[t]], where=wh, interp=I)
            continue
        def fx(r, n=None):
            a = [ids(r) for _ in range(r.choice((0, 1, 2, 3, 4, 6, 9)))]
            return {AS: seqval(a), L: ids(r), A: ids(r)}
        def test(env, vs):
            data, old, l, args = vs
            if not isinstance(data, (bytes, tuple)) or data[:1] == ("agg",): return None
            a = [args] if isinstance(args, int) else [x[3] for x in args]
            return bytes(data) == bytes(old) + enc(l, a)
        cx.holds("%s stores the label, then a separator and each argument" % name, [cases(outs, lambda s2, v: s2.mem[key], base=base), so, L, A if name.endswith("arg") else AS], test, where=wh, interp=I, fixed=fx, need=60)
        cx.same("%s gives the id of what was stored" % name, cases(outs, base=base), eid(add(length(so), k(FIRST))), where=wh, interp=I, fixed=fx)
        for t in ("Events", "StringIndex"):
            cx.same("%s leaves the %s stream alone" % (name, t), cases(outs, lambda s2, v: s2.mem[R.tags[t]], base=base), R.st.mem[R.tags[t]], where=wh, interp=I, fixed=fx)
    I = cx.interp(P)
    for name, args, want in (("from_label", [sid(L)], eid(L)), ("from_virtual", [sid(L)], eid(L)), ("from_u64", [L], eid(L)), ("to_string_id", [eid(L)], sid(L)), ("as_u64", [eid(L)], L)):
        f = cx.fn(P, EI + name)
        cx.same("EventId::%s keeps the id" % name, cases(I.call_fn(f, args, State(), 0)), want, where=where(f), interp=I)
