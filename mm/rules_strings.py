"""C11, C12: writing the string table."""
import re
from spec import *
import rules_profiler as RP
COMP = "measureme::stringtable::StringComponent"
SS = "measureme::stringtable::SerializableString"

def rand_comps(r, n):
    """-> (value for the evaluator, encoding)"""
    vs, enc = [], b""
    for _ in range(n):
        if r.random() < .5:
            t = text(r, randint.near(r, 70000, lambda: r.choice((0, 0, 1, 2, 7, 9, 30)), .1))
            vs.append(("agg", COMP, 0, ("agg", "&", None, t))); enc += t
        else:
            i = r.choice((0, 5, 100_000_003, (1 << 64) - 1, r.getrandbits(64)))
            vs.append(("agg", COMP, 1, ("agg", "measureme::stringtable::StringId", None, i))); enc += b"\xfe" + i.to_bytes(8, "little")
    return tuple(vs), enc + b"\xff"

def text(r, n):
    """n characters, some of several bytes"""
    return randint.prose(r, n, "abc\u00e9\u20ac\U0001f600\x1e\n " + chr(r.randrange(1, 0xd7ff)))

def string_impls(P):
    """(self type, functions) of each SerializableString implementation"""
    d = {}
    for f in P.fns:
        m = re.match(r"<(.*) as %s>::(serialized_size|serialize)$" % re.escape(SS), f["path"])
        if m: d.setdefault(m.group(1), {})[m.group(2)] = f
    return d

@rule("C11")
def c11_impls(cx):
    for big in (False, True):
        P = cx.prog("measureme", big=big); tg = " (big-endian target)" if big else ""
        im = string_impls(P)
        cx.require("str and component slices can be stored" + tg, "str" in im and any(n == "[%s]" % COMP for n in im), "implementations: %s" % sorted(im), "measureme/src/stringtable.rs")
        for n, fs in sorted(im.items()):
            m = re.match(r"\[(.*?)(?:; (\d+))?\]$", n)
            if n == "str": impl_str(cx, P, fs, tg)
            elif m and m.group(1).startswith(COMP): impl_comps(cx, P, n.replace(COMP, "StringComponent"), fs, tg, None if m.group(2) is None else int(m.group(2)))
            else: cx.undecided("implementation for %s%s" % (n, tg), "form not known", where(fs["serialize"]))

def impl_str(cx, P, fs, tg):
    s = sym("spec.str", "seq"); st = State(); sr, br = ("O", "spec-str"), ("O", "spec-buf")
    st.mem[sr] = s
    f = fs["serialized_size"]; I = cx.interp(P)
    outs = I.call_fn(f, [ref(sr)], st, 0)
    cx.same("size of a plain string" + tg, cases(outs), add(length(s), k(1)), where=where(f), interp=I, fixed=lambda r: {s: text(r, r.choice((0, 1, 5, 40))) * r.choice((1, 1, 1, 70))})
    f = fs["serialize"]; I = cx.interp(P)
    b = sym("spec.buf", "seq"); st.mem[br] = b
    st = st.assume(eq(length(b), add(length(s), k(1))), True)
    outs = I.call_fn(f, [ref(sr), mk("ref", br, (("sl", k(0), length(b)),))], st, 0)
    cx.same("encoding of a plain string" + tg, cases(outs, lambda s_, v: s_.mem[br], base=st.facts.d), cat(s, B(b"\xff")), facts=st.facts.d.items(), where=where(f), interp=I,
            fixed=lambda r: (lambda x: {s: x, b: bytes(len(x) + 1)})(randint.near(r, 1 << 20, lambda: r.choice((0, 1, 5, 40))) * b"x" if r.random() < .3 else text(r, r.choice((0, 1, 5, 40)))))

B = lambda b: mk("bytes", b, ty="seq")

def impl_comps(cx, P, n, fs, tg, size):
    x = sym("spec.comps", "seq"); b = sym("spec.buf", "seq")
    sr, br = ("O", "spec-comps"), ("O", "spec-buf")
    st0 = State(); st0.mem[sr] = x; st0.mem[br] = b
    if size is not None: st0 = st0.assume(eq(length(x), k(size)), True)
    memo = {}
    def fx(r):
        vs, enc = rand_comps(r, r.choice((0, 1, 2, 3, 4, 6)) if size is None else size)
        memo["enc"] = enc
        return {x: vs, b: bytes(len(enc))}
    facts = [(c, v) for c, v in st0.facts.d.items()]
    f = fs["serialized_size"]; I = cx.interp(P)
    outs = I.call_fn(f, [ref(sr)], st0, 0)
    cx.holds("declared size of %s%s" % (n, tg), [cases(outs, base=st0.facts.d), b], lambda e, v: v[0] == len(v[1]), where=where(f), interp=I, fixed=fx)
    f = fs["serialize"]; I = cx.interp(P)
    outs = I.call_fn(f, [ref(sr), mk("ref", br, (("sl", k(0), length(b)),))], st0, 0)
    cx.holds("encoding of %s%s" % (n, tg), [cases(outs, lambda s_, v: s_.mem[br], base=st0.facts.d), x], lambda e, v: enc_ok(v), where=where(f), interp=I, fixed=fx)

def enc_ok(v):
    got, comps = v
    enc = b""
    for c in comps: enc += c[3][3] if c[2] == 0 else b"\xfe" + c[3][3].to_bytes(8, "little")
    return got == enc + b"\xff" if isinstance(got, bytes) else tuple(got) == tuple(enc + b"\xff") if isinstance(got, tuple) and got[:1] != ("agg",) else False

def last_stream(R, s, tag):
    """(bytes appended to a stream since the profiler was made, address of the first)"""
    key = R.tags[tag]
    old, new = R.st.mem[key], s.mem[key]
    if new is old: return EMPTY, length(old)
    oa = old.a if old.op == "cat" else (old,)
    na = new.a if new.op == "cat" else (new,)
    # adjacent constants may have been merged
    pre = []
    i = 0
    while i < len(oa) and i < len(na) and oa[i] is na[i]: i += 1
    rest = slice_(new, length(old), length(new))
    return rest, length(old)

@rule("C11")
def c11_alloc(cx):
    P = cx.prog("measureme")
    R = RP.new_profiler(cx, P)
    n = sym("spec.size", ("int", False, 64)); c = sym("spec.content", "seq")
    for path in (RP.PR + "alloc_string", "measureme::stringtable::StringTableBuilder::alloc"):
        a0 = ref(R.root) if path.startswith(RP.PR) else builder_ref(R)
        st = R.st.assume(eq(length(c), n), True)
        log = []
        def size(I, st, call): return [(st, n)]
        def ser(I, st, call):
            s = st.copy(); t = I.target_of(s, call.args[1])
            I.tstore(s, t, c); log.append(call.args[0])
            return [(s, UNIT)]
        f = cx.fn(P, path); I = cx.interp(P); wh = where(f); I.count_writes = True
        I.overrides[SS + "::serialized_size"] = size
        I.overrides[SS + "::serialize"] = ser
        x = sym("spec.any", None)
        outs = I.call_fn(f, [a0, x], st, 0)
        cx.require("%s returns" % f["name" if "name" in f else "path"], bool(outs), "no outcome", wh)
        fx = lambda r: (lambda b: {c: b, n: len(b)})(r.randbytes(randint.near(r, 1 << 20, lambda: r.choice((1, 5, 40)), .2)))
        RP.one_write(cx, outs, R.tags["StringData"], I, wh, path, st, fixed=fx)
        for s, v in outs:
            got, at = last_stream(R, s, "StringData")
            fs = list(s.facts.d.items())
            cx.same("%s stores exactly the encoding" % path, s.mem[R.tags["StringData"]], cat(R.st.mem[R.tags["StringData"]], c), facts=fs, where=wh, interp=I, fixed=fx)
            cx.same("%s gives the id of the position where the encoding is stored" % path, v, sid(add(at, k(FIRST))), facts=fs, where=wh, interp=I, fixed=fx)
            for t in ("Events", "StringIndex"):
                cx.same("%s leaves the %s stream alone" % (path, t), s.mem[R.tags[t]], R.st.mem[R.tags[t]], facts=fs, where=wh, interp=I)
FIRST = 100_000_003
USERMAX = 100_000_000

SB = "measureme::stringtable::StringTableBuilder::"
def builder_ref(R):
    """the string table builder inside the profiler"""
    v = R.st.simp(R.prof)
    for i, x in enumerate(v.a[2]):
        if x.op == "agg" and x.a[0].endswith("StringTableBuilder"):
            root = ("O", "spec-builder"); R.st.mem[root] = x
            return ref(root)
    raise Undecided("no string table builder in the profiler")

def entry(i, a): return cat(le(8, i), le(8, a))
def writers(R, name):
    yield RP.PR + name, ref(R.root)
    yield SB + name, builder_ref(R)

@rule("C07", "C12")
def bulk_refuses(cx):
    P = cx.prog("measureme")
    R = RP.new_profiler(cx, P)
    c = sym("spec.concrete", u(64)); ids = sym("spec.ids", "seq")
    for path, a0 in writers(R, "bulk_map_virtual_to_single_concrete_string"):
        f = cx.fn(P, path); I = cx.interp(P)
        outs = I.call_fn(f, [a0, bulk_arg(P, f, ids), sid(c)], R.st, 0)
        sids = lambda l: tuple(("agg", "measureme::stringtable::StringId", None, i) for i in l)
        def bad(r):
            l = [r.choice((0, 7, USERMAX, USERMAX, USERMAX + 1, USERMAX + 2, FIRST, FIRST + 40)) for _ in range(r.choice((1, 2, 3, 5)))]
            return {ids: sids(l), c: FIRST + r.choice((0, 9)) if any(i > USERMAX for i in l) else FIRST - r.choice((1, 2, 3, FIRST))}
        t = [cases(outs, lambda s, _: TRUE, FALSE, base=set(R.st.facts.d)), ids, c]
        cx.holds("%s refuses ids beyond the user range and concrete ids that are none" % path, t, lambda e, vs: not vs[0], where=where(f), interp=I, fixed=bad)
        good = lambda r: {ids: sids([r.choice((0, 7, USERMAX, USERMAX - 1)) for _ in range(r.choice((0, 1, 2, 5)))]), c: FIRST + r.choice((0, 9, 1 << 40))}
        cx.holds("%s accepts every user id" % path, t, lambda e, vs: vs[0], where=where(f), interp=I, fixed=good)

@rule("C12")
def c12_writer(cx):
    for big in (False, True):
        P = cx.prog("measureme", big=big); tg = " (big-endian target)" if big else ""
        R = RP.new_profiler(cx, P)
        v, c = sym("spec.virtual", u(64)), sym("spec.concrete", u(64))
        idx = R.tags["StringIndex"]
        old = R.st.mem[idx]
        def go(path, args, one=False):
            f = cx.fn(P, path); I = cx.interp(P); ev = []; I.count_writes = one
            I.observers.append(lambda kd, d: ev.append(d) if kd == "sink-write" else None)
            outs = I.call_fn(f, args, R.st, 0)
            for t in ("Events", "StringData"):
                for s, _ in outs or []:
                    cx.same("%s leaves the %s stream alone%s" % (path, t, tg), s.mem[R.tags[t]], R.st.mem[R.tags[t]], where=where(f), interp=I)
            return f, I, outs, ev
        for path, a0 in writers(R, "map_virtual_to_concrete_string"):
            f, I, outs, ev = go(path, [a0, sid(v), sid(c)], True)
            ok = both(leq(v, k(USERMAX)), leq(k(FIRST), c))
            cx.same("%s adds one entry%s" % (path, tg), cases(outs, lambda s, _: s.mem[idx], base=set(R.st.facts.d)), ite(ok, cat(old, entry(v, sub(c, k(FIRST)))), PANIC), where=where(f), interp=I, need=100, tries=1000)
            RP.one_write(cx, outs, idx, I, where(f), path + tg, R.st, fixed=lambda r: {v: r.choice((0, 7, USERMAX, r.randrange(USERMAX))), c: FIRST + r.choice((0, 9, 1 << 33))})
        for path, a0 in writers(R, "bulk_map_virtual_to_single_concrete_string"):
            ids = sym("spec.ids", "seq")
            f = cx.fn(P, path)
            it = bulk_arg(P, f, ids)
            f, I, outs, ev = go(path, [a0, it, sid(c)])
            fx = lambda r: {ids: tuple(("agg", "measureme::stringtable::StringId", None, randint.near(r, USERMAX, lambda: r.choice((0, 1, 7, USERMAX, r.randrange(USERMAX))))) for _ in range(randint.near(r, 1 << 14, lambda: r.choice((0, 1, 2, 3, 5, 5, 70)), .1))), c: FIRST + r.choice((0, 1, 9, 1 << 33))}
            def test(e, vs):
                got, is_, cc, o = vs
                w = o + b"".join(i[3].to_bytes(8, "little") + (cc - FIRST).to_bytes(8, "little") for i in is_)
                return same_bytes(got, w)
            cx.holds("%s adds one entry per id in order%s" % (path, tg), [cases(outs, lambda s, _: s.mem[idx], base=set(R.st.facts.d)), ids, c, old], test, where=where(f), interp=I, fixed=fx)
            for d in ev:
                if d["sink"] != idx[2]: continue
                cx.holds("%s writes whole entries%s" % (path, tg), [length(d["data"])], lambda e, vs: vs[0] % 16 == 0, where=where(f), interp=I, fixed=fx)
        # metadata
        path = SB + "alloc_metadata"
        f = cx.fn(P, path)
        m, n = sym("spec.content", "seq"), sym("spec.size", u(63))
        st = R.st.assume(eq(length(m), n), True)
        I = cx.interp(P)
        I.overrides[SS + "::serialized_size"] = lambda I, st, call: [(st, n)]
        def ser(I, st, call):
            s = st.copy(); I.tstore(s, I.target_of(s, call.args[1]), m)
            return [(s, UNIT)]
        I.overrides[SS + "::serialize"] = ser
        a0 = builder_ref(R)
        st.mem.update({r: x for r, x in R.st.mem.items() if r not in st.mem})
        I.count_writes = True
        outs = I.call_fn(f, [a0, sym("spec.any", None)], st, 0)
        cx.require("alloc_metadata returns" + tg, bool(outs), "no outcome", where(f))
        RP.one_write(cx, outs, R.tags["StringData"], I, where(f), path + tg, st, fixed=lambda r: (lambda b: {m: b, n: len(b)})(r.randbytes(randint.near(r, 1 << 20, lambda: r.choice((1, 5, 40)), .2))))
        for s, _ in outs:
            fs = s.facts.d.items()
            fx = lambda r: (lambda b: {m: b, n: len(b)})(r.randbytes(randint.near(r, 1 << 20, lambda: r.choice((1, 5, 40)), .2)))
            cx.same("alloc_metadata stores the string" + tg, s.mem[R.tags["StringData"]], cat(R.st.mem[R.tags["StringData"]], m), facts=fs, where=where(f), interp=I, fixed=fx)
            cx.same("alloc_metadata maps the metadata id to it" + tg, s.mem[idx], cat(old, entry(k(USERMAX + 1), length(R.st.mem[R.tags["StringData"]]))), facts=fs, where=where(f), interp=I, fixed=fx)

def same_bytes(got, w):
    if isinstance(got, bytes): return got == w
    return isinstance(got, tuple) and got[:1] != ("agg",) and tuple(got) == tuple(w)

def bulk_arg(P, f, ids):
    """an exact-size iterator over the given ids"""
    tid = next((i for i, t in enumerate(P.types) if t.get("k") == "slice" and P.types[t["to"]].get("adt") == "measureme::stringtable::StringId"), None)
    return agg("it.vec", None, [ids, k(0), length(ids), UNIT if tid is None else k(tid)])
