"""C06, C07, C10: raw events and string ids."""
from spec import *
RE = "measureme::raw_event::RawEvent"
SID = "measureme::stringtable::StringId"
MAX1 = (1 << 48) - 1
MAXI = (1 << 48) - 3

def kinds():
    v = lambda n: sym("spec." + n, u(64))
    ek, ei, th = sym("spec.kind", u(64)), sym("spec.id", u(64)), sym("spec.thread", u(32))
    common = [sid(ek), eid(ei), th]
    return common, {
        "new_interval": ([v("start"), v("end")], lambda a, b: both(leq(a, b), leq(b, k(MAXI)))),
        "new_instant": ([v("instant")], lambda a: leq(a, k(MAX1))),
        "new_integer": ([v("value")], lambda a: leq(a, k(MAX1))),
    }

def read(cx, P, ev, name, st=None):
    """value of a RawEvent method on event `ev`"""
    root = ("O", ("spec-ev", name))
    s = State(); s.mem[root] = ev
    r = run(cx, P, "%s::%s" % (RE, name), [ref(root)], s)
    return cases(r.outs)

@rule("C06")
def c06_roundtrip(cx):
    P = cx.prog("measureme")
    common, ks = kinds()
    for ctor, (vals, cond) in ks.items():
        r = run(cx, P, "%s::%s" % (RE, ctor), common + vals)
        ok = [(cond(*vals), True)]
        for s, ev in r.outs:
            f = ok + list(s.facts.d.items())
            def chk(what, got, want): cx.same("%s: %s" % (ctor, what), got, want, facts=f, where=r.where, interp=r.I)
            for n, want in (("event_kind", common[0]), ("event_id", common[1]), ("thread_id", common[2])):
                i = field_index(ev, n) if ev.op == "agg" else None
                if i is None: cx.undecided("%s: field %s" % (ctor, n), "not found", r.where)
                else: chk("keeps " + n, ev.a[2][i], want)
            if ctor == "new_interval":
                chk("start_value gives the start", read(cx, P, ev, "start_value"), vals[0])
                chk("end_value gives the end", read(cx, P, ev, "end_value"), vals[1])
                chk("is not taken for an instant", read(cx, P, ev, "is_instant"), FALSE)
                chk("is not taken for an integer", read(cx, P, ev, "is_integer"), FALSE)
            else:
                chk("value gives the value", read(cx, P, ev, "value"), vals[0])
                chk("is_instant", read(cx, P, ev, "is_instant"), kb(ctor == "new_instant"))
                chk("is_integer", read(cx, P, ev, "is_integer"), kb(ctor == "new_integer"))
                if ctor == "new_instant": chk("start_value gives the value", read(cx, P, ev, "start_value"), vals[0])

LAYOUT = [("event_kind", 8), ("event_id", 8), ("thread_id", 4), ("payload1_lower", 4), ("payload2_lower", 4), ("payloads_upper", 4)]
def sample_event():
    fs = [sid(sym("spec.kind", u(64))), eid(sym("spec.id", u(64)))] + [sym("spec." + n, u(32)) for n, _ in LAYOUT[2:]]
    return fs
def order(P):
    names = FIELD_NAMES.get((RE, None))
    if not names or set(names) != {n for n, _ in LAYOUT}: raise Missing("fields of RawEvent")
    return names
def event_agg(P, fs):
    names = order(P); d = dict(zip([n for n, _ in LAYOUT], fs))
    return agg(RE, None, [d[n] for n in names])

@rule("C06")
def c06_layout(cx):
    """the documented little-endian layout, on little- and big-endian targets"""
    for big in (False, True):
        P = cx.prog("measureme", big=big)
        tg = "big-endian target" if big else "little-endian target"
        fs = sample_event()
        flat = [fs[0].a[2][0], fs[1].a[2][0].a[2][0]] + fs[2:]
        want = cat(*[le(n, x) for (_, n), x in zip(LAYOUT, flat)])
        root, buf = ("O", "spec-ev"), ("O", "spec-buf")
        st = State(); st.mem[root] = event_agg(P, fs)
        B = sym("spec.bytes", "seq"); st.mem[buf] = B
        st = st.assume(eq(length(B), k(32)), True)
        r = run(cx, P, RE + "::serialize", [ref(root), ref(buf)], st)
        if not r.outs: cx.violation("serialize accepts a 32-byte buffer (%s)" % tg, "never returns", r.where)
        for s, _ in r.outs:
            cx.same("serialize writes the documented layout (%s)" % tg, s.simp(s.mem[buf]), want, facts=s.facts.d.items(), where=r.where, interp=r.I,
                    fixed=lambda rnd: {B: rnd.randbytes(32)})
        for n in (31, 33):
            st2 = State(); st2.mem[root] = event_agg(P, fs); st2.mem[buf] = B
            st2 = st2.assume(eq(length(B), k(n)), True)
            r2 = run(cx, P, RE + "::serialize", [ref(root), ref(buf)], st2)
            cx.require("serialize rejects a buffer of %d bytes (%s)" % (n, tg), not r2.outs, "returns normally", r2.where)
        st = State(); st.mem[buf] = want
        r = run(cx, P, RE + "::deserialize", [ref(buf)], st)
        if not r.outs: cx.violation("deserialize accepts 32 bytes (%s)" % tg, "never returns", r.where)
        for s, v in r.outs:
            cx.same("deserialize inverts serialize (%s)" % tg, v, event_agg(P, fs), facts=s.facts.d.items(), where=r.where, interp=r.I)

@rule("C07")
def c07_events(cx):
    P = cx.prog("measureme")
    common, ks = kinds()
    for ctor, (vals, cond) in ks.items():
        r = run(cx, P, "%s::%s" % (RE, ctor), common + vals)
        cx.same("%s accepts exactly the representable values" % ctor, cases(r.outs, lambda s, v: TRUE, FALSE), cond(*vals), where=r.where, interp=r.I, need=200, tries=2000)
    for n in ("MAX_SINGLE_VALUE", "MAX_INTERVAL_VALUE"):
        pass

def user_max(P):
    """the documented end of the user range; part of the file format"""
    return 100_000_000

def const(P, suffix):
    for c in P.d.get("consts", []):
        if c["path"].endswith(suffix): return c["val"]
    raise Missing("constant " + suffix)

@rule("C07", "C10")
def c07_virtual(cx):
    P = cx.prog("measureme")
    M_ = user_max(P)
    a = sym("spec.raw", u(64))
    r = run(cx, P, SID + "::new_virtual", [a], pred=None)
    x = sym("spec.id", u(64))
    got = subst(cases(r.outs, lambda s, v: TRUE, FALSE), {conv(P, r, a): x})
    cx.same("new_virtual accepts exactly the user range", got, leq(x, k(M_)), where=r.where, interp=r.I, need=200, tries=2000)

def conv(P, r, a):
    """the u64 an `impl Into<u64>` argument denotes in the summary"""
    cs = [x for s, v in r.outs for x in subterms(v) if x.op == "conv"]
    return cs[0] if cs else a

@rule("C07")
def c07_mapping(cx):
    """only user virtual ids can be mapped, singly or in bulk"""
    P = cx.prog("measureme")
    M_ = user_max(P)
    a, b = sym("spec.virt", u(64)), sym("spec.conc", u(64))
    B = "measureme::stringtable::StringTableBuilder::"
    fn = cx.fn(P, B + "map_virtual_to_concrete_string")
    r = run(cx, P, B + "map_virtual_to_concrete_string", [symargs(P, fn)[0], sid(a), sid(b)], io_ok=True)
    cx.same("map_virtual_to_concrete_string accepts exactly user ids mapped to concrete ids", cases(r.outs, lambda s, v: TRUE, FALSE),
            both(leq(a, k(M_)), not_(lt(b, k(M_ + 3)))), where=r.where, interp=r.I, need=200, tries=2000)

@rule("C10")
def c10(cx):
    P = cx.prog("measureme")
    M_ = user_max(P)
    x = sym("spec.x", u(64))
    first = M_ + 3
    def one(name, args): return run(cx, P, SID + "::" + name, args)
    r = one("from_addr", [addr(x)])
    for s, v in r.outs:
        f = list(s.facts.d.items())
        cx.same("from_addr maps an address to the concrete range", v, sid(add(x, k(first))), facts=f, where=r.where, interp=r.I)
        r2 = run(cx, P, SID + "::to_addr", [v], s)
        for s2, v2 in r2.outs:
            cx.same("to_addr inverts from_addr", v2, addr(x), facts=s2.facts.d.items(), where=r2.where, interp=r2.I)
        if not r2.outs: cx.violation("to_addr inverts from_addr", "to_addr rejects ids made by from_addr", r2.where)
        r3 = run(cx, P, SID + "::is_virtual", [v], s)
        for s3, v3 in r3.outs: cx.same("concrete ids are not virtual", v3, FALSE, facts=s3.facts.d.items(), where=r3.where, interp=r3.I)
    cx.same("from_addr accepts every address that fits", cases(r.outs, lambda s, v: TRUE, FALSE), leq(x, k((1 << 64) - 1 - first)), where=r.where, interp=r.I, need=200, tries=2000)
    r = one("to_addr", [sid(x)])
    cx.same("to_addr rejects exactly the ids below the concrete range", cases(r.outs, lambda s, v: TRUE, FALSE), not_(lt(x, k(first))), where=r.where, interp=r.I, need=200, tries=2000)
    r = one("is_virtual", [sid(x)])
    cx.same("is_virtual holds exactly for user ids and the metadata id", cases(r.outs), leq(x, k(M_ + 1)), where=r.where, interp=r.I, need=200, tries=2000)
    r = one("as_u64", [sid(x)]); cx.same("as_u64 is the id's number", cases(r.outs), x, where=r.where, interp=r.I)
    r = run(cx, P, SID + "::new_virtual"); 
    for s, v in r.outs:
        cv = conv(P, r, None)
        if cv is not None: cx.same("new_virtual keeps the number", v, sid(cv), facts=s.facts.d.items(), where=r.where, interp=r.I)
    r = run(cx, P, SID + "::new")
    for s, v in r.outs:
        cv = conv(P, r, None)
        if cv is not None: cx.same("new keeps the number", v, sid(cv), facts=s.facts.d.items(), where=r.where, interp=r.I)
    # the id that names nothing
    def num(v): return int(v[1]) if v[0] == "int" else num(v[-1][0] if isinstance(v[-1], list) and isinstance(v[-1][0], list) else v[-1])
    cx.require("the metadata id is reserved right above the user ids", num(const(P, "stringtable::METADATA_STRING_ID")) == M_ + 1, "METADATA_STRING_ID is %s" % const(P, "METADATA_STRING_ID"))
    cx.require("concrete ids start above the reserved ids", num(const(P, "stringtable::FIRST_REGULAR_STRING_ID")) == first, "FIRST_REGULAR_STRING_ID is %s" % const(P, "FIRST_REGULAR_STRING_ID"))
    for nm in ("StringId::INVALID", "EventId::INVALID"):
        cx.require("%s is neither a user id, the metadata id nor a concrete id" % nm, num(const(P, nm)) == M_ + 2, "%s is %s" % (nm, const(P, nm)))
    E_ = "measureme::event_id::EventId::"
    e = sym("spec.e", u(64))
    for n, args, want in (("from_label", [sid(e)], eid(e)), ("from_u64", [e], eid(e)), ("to_string_id", [eid(e)], sid(e)), ("as_u64", [eid(e)], e), ("from_virtual", [sid(e)], eid(e))):
        r = run(cx, P, E_ + n, args)
        for s, v in r.outs: cx.same("EventId::%s keeps the id" % n, v, want, facts=s.facts.d.items(), where=r.where, interp=r.I)
        cx.require("EventId::%s never fails" % n, len(r.outs) > 0, "never returns", r.where)
