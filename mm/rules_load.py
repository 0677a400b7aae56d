"""C16, C17: loading a profile of any supported version; walking over its events."""
from spec import *
import contracts as CT
from rules_decode import field
from randint import gamma_arms
import random
PD = "analyzeme::profiling_data::ProfilingData::"
FILE = sym("spec.file", "seq")
OLD, NEW = "decodeme_10", "decodeme"

def loaded(cx, P):
    """from_paged_buffer on any bytes: interpreter, outcomes, where, log of decoders made"""
    I = cx.interp(P); CT.install_readers(I)
    f = cx.fn(P, PD + "from_paged_buffer")
    log = []
    def maker(crate, ver):
        def new(I, st, c):
            log.append((ver, c.args[0]))
            ok = mk("spec.opens", ver, ty="bool")
            out = []
            for v in (True, False):
                s = st.assume(ok, v)
                if s is not None: out.append((s, agg("core::result::Result", 0 if v else 1, [agg("spec.Decoder", None, [k(ver), c.args[0]]) if v else agg("spec.OpenError", None, [k(ver)])])))
            return out
        return new
    for crate, ver in ((OLD, 8), (NEW, 9)): I.overrides[crate + "::EventDecoder::new"] = maker(crate, ver)
    a = symargs(P, f)
    outs = I.call_fn(f, [FILE] + a[1:], State(), 0)
    return I, outs, where(f), log

def deep(I, s, v, n=0):
    """what a (boxed) value holds"""
    v = s.simp(v)
    if n > 6: return v
    if v.op == "gamma": return gamma(v.a[0], deep(I, s, v.a[1], n + 1), deep(I, s, v.a[2], n + 1))
    if v.op == "conv": return deep(I, s, v.a[0], n + 1)
    if v.op == "ref":
        try: return deep(I, s, I.load(s, v), n + 1)
        except Undecided: return v
    return v

def decoder_of(I, s, v):
    """the event decoder somewhere in the loaded profile"""
    v = s.simp(v)
    found = []
    def walk(v, d=0):
        v = deep(I, s, v)
        arms = gamma_arms(v)
        if any(x.op == "agg" and x.a[0] == "spec.Decoder" for x in arms): found.append(v); return
        if v.op == "agg" and d < 5:
            for x in v.a[2]: walk(x, d + 1)
    walk(v)
    return found[0] if len(found) == 1 else None

def rand_file(r):
    ver = r.choice((7, 8, 9, 10, 0, 1, r.getrandbits(32), 8, 9, 0xffffffff, 265, 0x80000008))
    b = b"MMPD" + ver.to_bytes(4, "little") + r.randbytes(r.choice((0, 1, 30)))
    return b

@rule("C16")
def c16_dispatch(cx):
    P = cx.prog("analyzeme")
    I, outs, wh, log = loaded(cx, P)
    for ver, x in log: cx.same("the decoder for version %d gets the whole file" % ver, x, FILE, where=wh, interp=I)
    def pick(s, v):
        v = s.simp(v)
        if v.op != "agg": return mk("unknown-result")
        if v.a[1] == 0:
            d = decoder_of(I, s, v.a[2][0])
            if d is None: raise Undecided("the decoder inside the loaded profile")
            return agg("spec.Loaded", None, [d])
        return agg("spec.Failed", None, [deep(I, s, v.a[2][0])])
    t = cases(outs, pick)
    opens = {v: mk("spec.opens", v, ty="bool") for v in (8, 9)}
    def test(env, vs):
        got, b, o8, o9 = vs
        ver = int.from_bytes(b[4:8], "little")
        if not (isinstance(got, tuple) and got[:1] == ("agg",)): return None
        x = got[3] if len(got) > 3 else None
        if ver in (8, 9):
            if (o8, o9)[ver - 8]:
                return got[1] == "spec.Loaded" and isinstance(x, tuple) and x[:2] == ("agg", "spec.Decoder") and x[3] == ver
            return got[1] == "spec.Failed" and (None if not (isinstance(x, tuple) and x[:1] == ("agg",)) else x[:2] == ("agg", "spec.OpenError") and x[3] == ver)
        if got[1] != "spec.Failed": return False
        if not isinstance(x, (bytes, tuple)) or x[:1] == ("agg",): return None
        m = bytes(x)
        return (b"too new" in m, b"too old" in m) == (ver > 9, ver < 9)
    cx.holds("the version in the header selects the decoder, and the error for another version says whether it is too new or too old", [t, FILE, opens[8], opens[9]], test,
             where=wh, interp=I, fixed=lambda r: {FILE: rand_file(r), opens[8]: r.random() < .5, opens[9]: r.random() < .5}, need=150, tries=500)
    # no decoder is opened for a file whose own header is not right
    t = cases(outs, lambda s, v: agg("spec.R", s.simp(v).a[1], []))
    def bad(r):
        b = bytearray(b"MMPD" + r.choice((8, 9)).to_bytes(4, "little") + bytes(20))
        m = r.randrange(3)
        if m == 0: b[r.randrange(4)] ^= r.choice((1, 0x20, 0x80))
        elif m == 1: b = b[:r.randrange(8)]
        else: b[:4] = r.choice((b"MMES", b"MMSD", b"MMSI"))
        return {FILE: bytes(b), opens[8]: True, opens[9]: True}
    cx.holds("a file whose header is not that of a profile is refused", [t], lambda e, vs: vs[0] == ("agg", "spec.R", 1), where=wh, interp=I, fixed=bad, need=40)

def opened(cx, P, ver):
    """state, reference to a loaded profile of a version, interpreter"""
    I, outs, wh, log = loaded(cx, P)
    res = []
    for s, v in outs:
        v = s.simp(v)
        if v.op == "agg" and v.a[1] == 0: res.append((s, v.a[2][0]))
    if len(res) != 1: raise Undecided("profiles loaded by from_paged_buffer")
    s, v = res[0]
    vr = mk("fromle", 4, slice_(FILE, k(4), k(8)), ty=u(32))
    for c, b in ((eq(vr, k(ver)), True), (mk("spec.opens", ver, ty="bool"), True)):
        s2 = s.assume(c, b)
        if s2 is not None: s = s2
    d = decoder_of(I, s, v)
    if d is None or len(gamma_arms(d)) != 1: raise Undecided("decoder of a version-%d profile" % ver)
    def full(v):
        v = s.simp(v)
        return mk("agg", v.a[0], v.a[1], tuple(full(x) for x in v.a[2])) if v.op == "agg" else v
    v = full(v)
    # keep only this version's memory, without what was learnt about the file
    mem = {r: s.simp(x) if hasattr(x, "op") else x for r, x in s.mem.items()}
    st = State(mem); root = ("O", "spec-profile"); st.mem[root] = v
    return I, st, ref(root), wh

def tyof(P, adt, crate):
    t = next((i for i, t in enumerate(P.types) if t.get("adt") == crate + "::" + adt and "variants" in t), None)
    if t is None: raise Missing("type %s::%s" % (crate, adt))
    return P.tyinfo(t)

EV, LW, MD, PL, TSM = "event::Event", "lightweight_event::LightweightEvent", "Metadata", "event_payload::EventPayload", "event_payload::Timestamp"
N = sym("spec.n", u(64))
def decoder_model(cx, P, I, ver):
    """what the decoder of that version answers: any event at any index"""
    crate = OLD if ver == 8 else NEW
    calls = []
    def give(name, ret):
        def h(I, st, c):
            calls.append((name, c.args))
            me = deep(I, st, c.args[0])
            if not (me.op == "agg" and me.a[0] == "spec.Decoder"): raise Undecided("decoder asked")
            return [(st, ret(c.args))]
        I.overrides[crate + "::EventDecoder::" + name] = h
    lw, ev, md = (tyof(P, a, crate) for a in (LW, EV, MD))
    give("num_events", lambda a: N)
    meta = sym("spec.meta", md)
    mroot = ("O", "spec-meta")
    def metadata(I, st, c):
        if ver != 8: return [(st, meta)]
        st = st.copy(); st.mem[mroot] = meta             # the old decoder lends its metadata
        return [(st, ref(mroot))]
    I.overrides[crate + "::EventDecoder::metadata"] = metadata
    give("decode_full_event", lambda a: mk("spec.full", a[1], ty=ev))
    give("decode_lightweight_event", lambda a: mk("spec.lw", a[1], ty=lw))
    return meta, calls

def rand_payload(r, crate):
    m = r.randrange(3)
    x, y = r.getrandbits(80), r.getrandbits(80)
    if r.random() < .3: y = x
    if r.random() < .2: x, y = -x, -(x >> 2)
    if m == 0: return ("agg", crate + "::" + PL, 1, abs(x) & ((1 << 64) - 1))
    return ("agg", crate + "::" + PL, 0, ("agg", crate + "::" + TSM, 0, x, y) if m == 1 else ("agg", crate + "::" + TSM, 1, x))

def to_new(p):
    return tuple(to_new(x) if isinstance(x, tuple) and x[:1] == ("agg",) else x.replace(OLD, NEW) if i == 1 else x for i, x in enumerate(p))

def rand_event(r, crate, P):
    b = lambda: bytes(r.choice(b"abc \n") for _ in range(r.choice((0, 1, 4))))
    v = {"event_kind": b(), "label": b(), "additional_data": tuple(b() for _ in range(r.choice((0, 1, 3)))), "payload": rand_payload(r, crate), "thread_id": r.getrandbits(32)}
    return v

def struct(P, adt, vals):
    """("agg", …) of a struct from its named fields"""
    t = next((t for t in P.types if t.get("adt") == adt and "variants" in t), None)
    if t is None: raise Missing("type " + adt)
    return ("agg", adt, None) + tuple(vals[f[0]] for f in t["variants"][0]["f"])

@rule("C16")
def c16_fields(cx):
    P = cx.prog("analyzeme")
    IXT = sym("spec.i", u(64))
    for ver in (8, 9):
        crate = OLD if ver == 8 else NEW
        I, st, pd, wh = opened(cx, P, ver)
        meta, calls = decoder_model(cx, P, I, ver)
        tg = " (version %d)" % ver
        f = cx.fn(P, PD + "num_events")
        cx.same("num_events is the decoder's" + tg, cases(I.call_fn(f, [pd], st, 0)), N, where=where(f), interp=I)
        f = cx.fn(P, PD + "metadata")
        outs = I.call_fn(f, [pd], st, 0)
        for n, gen in (("start_time", lambda r: r.getrandbits(90)), ("process_id", lambda r: r.getrandbits(32)), ("cmd", lambda r: bytes(r.choice(b"ab ") for _ in range(r.choice((0, 3)))))):
            mi, = field(P, NEW + "::" + MD, [n])
            t = cases(outs, lambda s, v: fld(deep(I, s, v), mi, n))
            vals = lambda r: {"start_time": r.choice((r.getrandbits(90), 0, -5)), "process_id": r.choice((r.getrandbits(32), 0)), "cmd": bytes(r.choice(b"ab \n'") for _ in range(r.choice((0, 3, 6))))}
            memo = {}
            def fx(r):
                memo["v"] = vals(r)
                return {meta: struct(P, crate + "::" + MD, memo["v"])}
            cx.holds("metadata keeps %s%s" % (n, tg), [t], lambda e, vs: e.eqv(vs[0], memo["v"][n]), where=where(f), interp=I, fixed=fx, need=40, tries=90)
        # full events, through to_full_event with any lightweight event
        f = cx.fn(P, PD + "to_full_event")
        er = ("O", "spec-lwevent"); s0 = st.copy()
        ii, ti, pi = field(P, NEW + "::" + LW, ["event_index", "thread_id", "payload"])
        fs = [None] * 3; fs[ii], fs[ti], fs[pi] = IXT, sym("spec.thread", u(32)), sym("spec.payload", tyof(P, PL, NEW))
        s0.mem[er] = agg(NEW + "::" + LW, None, fs)
        outs = I.call_fn(f, [pd, ref(er)], s0, 0)
        src = mk("spec.full", IXT, ty=tyof(P, EV, crate))
        memo = {}
        def fx(r):
            memo["v"] = rand_event(r, crate, P)
            return {src: struct(P, crate + "::" + EV, memo["v"])}
        for n in ("event_kind", "label", "additional_data", "payload", "thread_id"):
            fi, = field(P, NEW + "::" + EV, [n])
            t = cases(outs, lambda s, v: fld(s.simp(v), fi, n))
            cx.holds("full events keep %s%s" % (n, tg), [t], lambda e, vs: e.eqv(vs[0], to_new(memo["v"][n]) if n == "payload" else memo["v"][n]), where=where(f), interp=I, fixed=fx, need=40, tries=90)
        # lightweight events, through the iterator
        f = cx.fn(P, PD + "iter")
        made = I.call_fn(f, [pd], st, 0)
        if not made or len(made) != 1: raise Undecided("iter()")
        s, it = made[0]; s = s.copy(); ir = ("O", "spec-iter"); s.mem[ir] = it
        g = cx.fn(P, "<analyzeme::profiling_data::ProfilerEventIterator as core::iter::traits::iterator::Iterator>::next")
        outs = [(s2, v) for s2, v in I.call_fn(g, [ref(ir)], s, 0) if s2.simp(v).op == "agg" and s2.simp(v).a[1] == 1]
        if len(outs) != 1: raise Undecided("first event of the iterator")
        lwv = fld(outs[0][0].simp(outs[0][1]), 0, "0")
        asked = [x for x in subterms(lwv) if x.op == "spec.lw"]
        if not asked: raise Undecided("where the first lightweight event comes from")
        memo = {}
        def fx2(r):
            memo["v"] = {"event_index": r.getrandbits(40), "thread_id": r.getrandbits(32), "payload": rand_payload(r, crate)}
            return {x: struct(P, crate + "::" + LW, memo["v"]) for x in asked}
        for n in ("event_index", "thread_id", "payload"):
            fi, = field(P, NEW + "::" + LW, [n])
            cx.holds("lightweight events keep %s%s" % (n, tg), [fld(lwv, fi, n)], lambda e, vs: e.eqv(vs[0], to_new(memo["v"][n]) if n == "payload" else memo["v"][n]), where=where(g), interp=I, fixed=fx2, need=40, tries=90)

# ---------------------------------------------------------------- C17: both-ended iteration
IT = "<analyzeme::profiling_data::ProfilerEventIterator as core::iter::traits::"
OPS = {"next": IT + "iterator::Iterator>::next", "next_back": IT + "double_ended::DoubleEndedIterator>::next_back"}
KNOWN = {"next", "next_back", "size_hint", "len", "nth", "nth_back", "count", "last", "fold", "rfold"}
CALLS = ["core::ops::function::%s::%s" % x for x in (("FnOnce", "call_once"), ("FnMut", "call_mut"), ("Fn", "call"))]
FWD, BWD = sym("spec.taken.front", u(64)), sym("spec.taken.back", u(64))

def leaves(v, p=()):
    if v.op == "agg":
        for i, x in enumerate(v.a[2]): yield from leaves(x, p + (i,))
    else: yield p, v
def rebuild(v, f, p=()):
    if v.op == "agg": return mk("agg", v.a[0], v.a[1], tuple(rebuild(x, f, p + (i,)) for i, x in enumerate(v.a[2])))
    return f(p, v)

@rule("C17")
def c17(cx):
    P = cx.prog("analyzeme")
    for ver in (9, 8):
        I, st, pd, wh = opened(cx, P, ver)
        decoder_model(cx, P, I, ver)
        crate = OLD if ver == 8 else NEW
        fn_lw = I.overrides[crate + "::EventDecoder::decode_lightweight_event"]
        # what the decoder gives for an index: identified by the index
        iface = lambda i: mk("spec.lw", i)
        f = cx.fn(P, PD + "iter")
        made = I.call_fn(f, [pd], st, 0)
        if not made or len(made) != 1: raise Undecided("iter()")
        s0, it0 = made[0]; it0 = s0.simp(it0)
        impl = [g for g in P.fns if g["path"].startswith(IT)]
        names = {g["path"].rsplit("::", 1)[1] for g in impl if not g.get("closure")}
        for n in sorted(names - KNOWN): cx.undecided("overridden iterator method " + n, "no rule", wh)
        ir = ("O", "spec-iter")
        tg = "" if ver == 9 else " (version 8)"
        def at(it, facts):
            s = s0.copy(); s.mem[ir] = it
            for c, v in facts:
                s = s.assume(c, v)
                if s is None: return None
            return s
        def step(name, it, facts):
            s = at(it, facts)
            if s is None: return []
            return [(s2, s2.simp(v), s2.simp(s2.mem[ir])) for s2, v in I.call_fn(cx.fn(P, OPS[name]), [ref(ir)], s, 0)]
        def check(nm, it, facts, lo, hi, nxt=None, base=()):
            """lo, hi: the events still to come; nxt: iterator expected after each step"""
            fs = list(facts)
            for op, i in (("next", lo), ("next_back", sub(hi, k(1)))):
                w = where(cx.fn(P, OPS[op]))
                outs = step(op, it, fs)
                if not outs: cx.undecided("%s: %s" % (nm, op), "does not return", w); continue
                idx = cases([(s, v) for s, v, _ in outs], lambda s, v: index_of(I, s, v), base=dict(fs))
                want = gamma(lt(lo, hi), i, NONE_IX)
                cx.same("%s: %s gives the right event%s" % (nm, op, tg), idx, want, facts=fs, where=w, interp=I, fixed=small)
                if nxt is None: continue
                after = cases([(s, it2) for s, _, it2 in outs], base=dict(fs))
                e = rebuild(it, lambda p, v: gamma(lt(lo, hi), nxt(op, p, v), v))
                more = lt(add(lo, k(1)), hi)        # once nothing is left any form will do that gives nothing
                for (p, x), (_, y) in zip(leaves(dist(after, it)), leaves(e)):
                    cx.same("%s: the iterator after %s%s %s" % (nm, op, tg, list(p)), gamma(more, x, y), y, facts=fs, where=w, interp=I, fixed=small)
                lo2, hi2 = (add(lo, k(1)), hi) if op == "next" else (lo, sub(hi, k(1)))
                for op2, i2 in (("next", lo2), ("next_back", sub(hi2, k(1)))):
                    then = [o for s2, _, _ in outs for o in I.call_fn(cx.fn(P, OPS[op2]), [ref(ir)], s2, 0) or []]
                    cx.same("%s: %s after %s%s" % (nm, op2, op, tg), cases(then, lambda s, v: index_of(I, s, s.simp(v)), base=dict(fs)), gamma(more, i2, NONE_IX), facts=fs, where=w, interp=I, fixed=small)
            if IT + "iterator::Iterator>::size_hint" in {g["path"] for g in impl}:
                g = cx.fn(P, IT + "iterator::Iterator>::size_hint")
                s = at(it, fs)
                outs = I.call_fn(g, [ref(ir)], s, 0) if s else []
                n = sub(hi, lo)
                cx.same("%s: advertised length%s" % (nm, tg), cases(outs, base=dict(fs)), agg("()", None, [n, agg("core::option::Option", 1, [n])]), facts=fs, where=where(g), interp=I, fixed=small)
            else: cx.undecided("%s: advertised length%s" % (nm, tg), "no size_hint in the iterator", wh)
            if IT + "exact_size::ExactSizeIterator>::len" in {g["path"] for g in impl}:
                g = cx.fn(P, IT + "exact_size::ExactSizeIterator>::len")
                s = at(it, fs)
                cx.same("%s: exact length%s" % (nm, tg), cases(I.call_fn(g, [ref(ir)], s, 0), base=dict(fs)), sub(hi, lo), facts=fs, where=where(g), interp=I, fixed=small)
            skips(nm, it, fs, lo, hi)
        SK = sym("spec.skipped", u(64))
        def skips(nm, it, fs, lo, hi):
            """overridden methods that take several steps at once"""
            for meth in ("nth", "nth_back", "count", "last", "fold", "rfold"):
                path = IT + ("double_ended::DoubleEndedIterator>::" if meth in ("nth_back", "rfold") else "iterator::Iterator>::") + meth
                if path not in {g["path"] for g in impl}: continue
                g = cx.fn(P, path); w = where(g); s = at(it, fs)
                if s is None: continue
                if meth in ("fold", "rfold"):
                    seen = ("O", "spec-folded"); s = s.copy(); s.mem[seen] = EMPTY
                    def given(I, st, c):
                        xs = {x for a in c.args[1:] for x in subterms(st.simp(a)) if x.op == "spec.lw"}
                        if len(xs) != 1: raise Undecided("what %s hands on" % meth)
                        st = st.copy(); st.mem[seen] = cat(st.mem[seen], unit(next(iter(xs)).a[0])); return [(st, sym("spec.acc"))]
                    old = {x: I.overrides.get(x) for x in CALLS}
                    I.overrides.update({x: given for x in CALLS})
                    try: outs = I.call_fn(g, [it, sym("spec.init"), sym("spec.f")], s, 0) or []
                    finally:
                        for x, y in old.items(): I.overrides.pop(x) if y is None else I.overrides.__setitem__(x, y)
                    t = cases(outs, lambda s, v: s.simp(s.mem[seen]), base=dict(fs))
                    def all_of(e, vs):
                        want = list(range(vs[1], max(vs[1], vs[2])))
                        return list(vs[0]) == (want[::-1] if meth == "rfold" else want)
                    cx.holds("%s: %s hands on every event%s" % (nm, meth, tg), [t, lo, hi], all_of, facts=fs, where=w, interp=I, fixed=small)
                    continue
                if meth in ("count", "last"):
                    outs = I.call_fn(g, [it], s, 0) or []
                    if meth == "count": cx.same("%s: count%s" % (nm, tg), cases(outs, base=dict(fs)), sub(hi, lo), facts=fs, where=w, interp=I, fixed=small)
                    else: cx.same("%s: last%s" % (nm, tg), cases(outs, lambda s, v: index_of(I, s, s.simp(v)), base=dict(fs)), gamma(lt(lo, hi), sub(hi, k(1)), NONE_IX), facts=fs, where=w, interp=I, fixed=small)
                    continue
                back = meth == "nth_back"
                outs = I.call_fn(g, [ref(ir), SK], s, 0) or []
                fx = lambda r: {**small(r), SK: r.choice((0, 0, 1, 2, 3, 8, (1 << 64) - 1))}
                hit = sub(sub(hi, k(1)), SK) if back else add(lo, SK)
                inside = lt(SK, sub(hi, lo))
                cx.same("%s: %s gives the right event%s" % (nm, meth, tg), cases(outs, lambda s, v: index_of(I, s, s.simp(v)), base=dict(fs)), gamma(inside, hit, NONE_IX), facts=fs, where=w, interp=I, fixed=fx)
                lo2, hi2 = (lo, hit) if back else (add(hit, k(1)), hi)
                for op, i in (("next", lo2), ("next_back", sub(hi2, k(1)))):
                    after = [o for s2, _ in outs for o in I.call_fn(cx.fn(P, OPS[op]), [ref(ir)], s2, 0) or []]
                    cx.same("%s: %s after %s%s" % (nm, op, meth, tg), cases(after, lambda s, v: index_of(I, s, s.simp(v)), base=dict(fs)), gamma(inside, gamma(lt(lo2, hi2), i, NONE_IX), NONE_IX), facts=fs, where=w, interp=I, fixed=fx)
        def index_of(I, s, v):
            if v.op == "gamma": return gamma(v.a[0], index_of(I, s, v.a[1]), index_of(I, s, v.a[2]))
            if v.op != "agg": return mk("not-an-option", v)
            if v.a[1] == 0: return NONE_IX
            xs = {x for x in subterms(v) if x.op == "spec.lw"}
            return next(iter(xs)).a[0] if len(xs) == 1 else mk("events-decoded", *xs)
        small = lambda r: {N: r.choice((0, 1, 2, 3, 7)), FWD: r.choice((0, 0, 1, 2, 3)), BWD: r.choice((0, 0, 1, 2, 3))}
        check("freshly made", it0, [], k(0), N)
        # the iterator after any history: every part changes by the same amount with each step at an end
        d = {}
        for op in OPS:
            outs = [o for o in step(op, it0, [(lt(N, k(2)), False)])]
            if len(outs) != 1: raise Undecided("%s of a fresh iterator has %d outcomes" % (op, len(outs)))
            d[op] = dict(zip([p for p, _ in leaves(it0)], [(x, y) for (_, x), (_, y) in zip(leaves(it0), leaves(outs[0][2]))]))
        delta = {op: {p: (k(0) if x is y else sub(y, x)) for p, (x, y) in m.items()} for op, m in d.items()}
        for op, m in delta.items():
            for p, x in m.items():
                if x.op != "k": raise Undecided("how %s changes the iterator" % op)
        gen = rebuild(it0, lambda p, v: add(v, add(mul(FWD, delta["next"][p]), mul(BWD, delta["next_back"][p]))) if delta["next"][p] is not k(0) or delta["next_back"][p] is not k(0) else v)
        fs = [(lt(N, add(FWD, BWD)), False)]
        check("after any steps at both ends", gen, fs, FWD, sub(N, BWD), lambda op, p, v: add(v, delta[op][p]) if delta[op][p] is not k(0) else v)

@rule("C17")
def c17_full(cx):
    import iters
    P = cx.prog("analyzeme")
    I, st, pd, wh = opened(cx, P, 9)
    decoder_model(cx, P, I, 9)
    ii, ti, pi = field(P, NEW + "::" + LW, ["event_index", "thread_id", "payload"])
    def lightweight(I, st, c):
        fs = [None] * 3
        fs[ii], fs[ti], fs[pi] = c.args[1], mk("spec.thread", c.args[1], ty=u(32)), mk("spec.payload", c.args[1])
        return [(st, agg(NEW + "::" + LW, None, fs))]
    I.overrides[NEW + "::EventDecoder::decode_lightweight_event"] = lightweight
    f = cx.fn(P, PD + "iter_full"); wh = where(f)
    made = I.call_fn(f, [pd], st, 0)
    if not made or len(made) != 1: raise Undecided("iter_full()")
    s, v = made[0]; ir = ("O", "spec-iter")
    for back in (False, True):
        s2 = s.copy(); s2.mem[ir] = v
        outs = iters.nxt(I, s2, ("loc", ir, ()), None, back, ("spec", back))
        def pick(s3, x):
            if x is None: return NONE_IX
            xs = {y for y in subterms(x) if y.op == "spec.full"}
            return next(iter(xs)).a[0] if len(xs) == 1 else mk("events-decoded", *xs)
        t = cases(outs, pick)
        cx.same("iter_full: the %s full event" % ("last" if back else "first"), t, gamma(eq(N, k(0)), NONE_IX, sub(N, k(1)) if back else k(0)), where=wh, interp=I, fixed=lambda r: {N: r.choice((0, 1, 2, 9))})
        for s3, x in outs:
            if x is None: continue
            # and the one after it
            o2 = iters.nxt(I, s3, ("loc", ir, ()), None, back, ("spec2", back))
            t = cases(o2, pick, base=s3.facts.d)
            cx.same("iter_full: the %s full event" % ("last but one" if back else "second"), t, gamma(eq(N, k(1)), NONE_IX, sub(N, k(2)) if back else k(1)), facts=list(s3.facts.d.items()), where=wh, interp=I, fixed=lambda r: {N: r.choice((1, 1, 2, 9))})

NONE_IX = agg("spec.NoEvent", None, [])
def dist(t, like):
    """a gamma over structs as a struct of gammas, shaped like another"""
    if like.op != "agg": return t
    return mk("agg", like.a[0], like.a[1], tuple(dist(fld(t, i, str(i)), x) for i, x in enumerate(like.a[2])))
