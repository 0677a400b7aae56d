"""C08, C09, C15 (writing side), C29: the Profiler."""
from spec import *
PR = "measureme::profiler::Profiler::"
PT = "measureme::serialization::PageTag"
MAX1 = (1 << 48) - 1
MAXI = (1 << 48) - 3
TAGS = ("Events", "StringData", "StringIndex")

def readings(I, log):
    """a counter reading is a fresh value that depends on which counter is read"""
    def since_start(I, st, c):
        v = st.simp(I.load(st, c.args[0]))
        n = mk("reading", v, len([x for x in st.mem.get(("G", "readings"), mk("cat")).a]), ty=u(64))
        s = st.copy()
        s.mem[("G", "readings")] = mk("cat", *(st.mem.get(("G", "readings"), mk("cat")).a + (n,)))
        log.append((v, n))
        return [(s, n)]
    I.overrides["measureme::counters::Counter::since_start"] = since_start

class Rec:
    """a profiler made by Profiler::with_counter, analysed symbolically"""
def new_profiler(cx, P):
    R = Rec(); R.P = P
    R.ctr = sym("spec.counter", P.tyinfo(P.fn(PR + "with_counter")["locals"][2][0]))
    f = cx.fn(P, PR + "with_counter")
    R.where = where(f)
    r = run(cx, P, PR + "with_counter", [symargs(P, f)[0], R.ctr], io_ok=True)
    R.run = r
    R.outs = []
    for s, v in r.outs:
        v = s.simp(v)
        if v.op == "agg" and v.a[0].endswith("Result") and v.a[1] == 0: R.outs.append((s, v.a[2][0]))
        elif v.op == "agg" and v.a[0].endswith("Result"): pass
        else: raise Undecided("result of Profiler::with_counter not determined: %s" % show(v)[:100])
    if not R.outs: raise Undecided("Profiler::with_counter never succeeds")
    R.st, R.prof = R.outs[0]
    R.root = ("O", "spec-prof")
    R.st = R.st.copy(); R.st.mem[R.root] = R.prof
    R.tags = stream_tags(R.st)
    R.made = R.st
    # whatever happened since: each stream holds anything
    R.st = State(dict(R.st.mem))
    for t, key in R.tags.items(): R.st.mem[key] = sym("spec.sofar.%s" % t, "seq"); R.st.mem["G", "writes", key[2]] = k(0)
    return R

def stream_tags(st):
    """{tag name: ghost stream key} for the sinks alive in a state"""
    out = {}
    for r, v in st.mem.items():
        if r[0] == "G" and r[1] == "stream":
            sv = st.simp(st.mem.get(r[2][0], UNIT))
            if sv.op == "agg":
                for x in subterms(sv):
                    if x.op == "agg" and x.a[0] == PT and not x.a[2]: out.setdefault(TAGS[x.a[1]], r)
    return out

def le48(v1, v2):
    up = or_(shl(32, and_(shr(64, v1, k(32)), k(0xffff)), k(16)), and_(shr(64, v2, k(32)), k(0xffff)))
    return [le(4, trunc(32, v1)), le(4, trunc(32, v2)), le(4, up)]
def event_bytes(kind, eid_, th, v1, v2):
    return cat(le(8, kind), le(8, eid_), le(4, th), *le48(v1, v2))
INSTANT, INTEGER = k(MAX1), k(MAX1 - 1)

def call(cx, R, path, args, st=None, log=None):
    class C: pass
    C.fn = cx.fn(R.P, path); C.where = where(C.fn)
    C.I = cx.interp(R.P); C.log = [] if log is None else log
    readings(C.I, C.log)
    C.I.io_ok = True; C.I.count_writes = True
    C.outs = C.I.call_fn(C.fn, args, st or R.st, 0)
    if C.outs is None: raise Undecided("not analysed: " + path)
    return C

def new_facts(s, base): return [(c, b) for c, b in s.facts.d.items() if c not in base.facts.d]

def nread(st): return len(st.mem.get(("G", "readings"), mk("cat")).a)

def untouched(cx, R, C, what, tags=("StringData", "StringIndex"), base=None):
    for s, _ in C.outs:
        for t in tags:
            key = R.tags.get(t)
            if key is None: continue
            cx.same("%s leaves the %s stream alone" % (what, t), s.mem.get(key, EMPTY), (base or R.st).mem.get(key, EMPTY), facts=new_facts(s, R.st), where=C.where, interp=C.I)

def stream(s, key):
    return s.simp(s.mem.get(key, EMPTY))

def expect_event(cx, R, C, what, bytes_, ok, nr, base=None, io=None):
    """C appends exactly the event, taking nr readings, when ok holds, and panics otherwise"""
    base = base or R.st
    key = R.tags.get("Events")
    if key is None: raise Undecided("no event stream")
    old = stream(base, key)
    got = cases(C.outs, lambda s, v: stream(s, key), PANIC, base=set(base.facts.d))
    cx.same("%s appends exactly its event" % what, got, ite(ok, cat(old, bytes_), PANIC), where=C.where, interp=C.I, need=120, tries=1500)
    one_write(cx, C.outs, key, C.I, C.where, what, base)
    for s, _ in C.outs:
        cx.require("%s takes %d counter reading(s)" % (what, nr), nread(s) - nread(base) == nr, "takes %d" % (nread(s) - nread(base)), C.where)

def writes(s, key, base): return sub(s.mem.get(("G", "writes", key[2]), k(0)), base.mem.get(("G", "writes", key[2]), k(0)))
def one_write(cx, outs, key, I, wh, what, base, **kw):
    """what is appended to a stream is appended in one step, so that nothing of another thread gets in between"""
    cx.holds("%s writes in one step" % what, [cases(outs, lambda s, v: writes(s, key, base), PANIC, base=set(base.facts.d))], lambda e, vs: not isinstance(vs[0], int) or vs[0] == 1, where=wh, interp=I, **kw)

def args3():
    return sym("spec.kind", u(64)), sym("spec.id", u(64)), sym("spec.thread", u(32))

def rd(R, n): return mk("reading", R.ctr, n, ty=u(64))

@rule("C08")
def c08(cx):
    P = cx.prog("measureme")
    R = new_profiler(cx, P)
    kd, ei, th = args3()
    me = ref(R.root)
    C = call(cx, R, PR + "record_instant_event", [me, sid(kd), eid(ei), th])
    r0 = rd(R, 0)
    expect_event(cx, R, C, "record_instant_event", event_bytes(kd, ei, th, r0, INSTANT), leq(r0, k(MAX1)), 1)
    untouched(cx, R, C, "record_instant_event")
    v = sym("spec.value", u(64))
    C = call(cx, R, PR + "record_integer_event", [me, sid(kd), eid(ei), th, v])
    expect_event(cx, R, C, "record_integer_event", event_bytes(kd, ei, th, v, INTEGER), leq(v, k(MAX1)), 0)
    untouched(cx, R, C, "record_integer_event")
    intervals(cx, R)

def ival_ok(a, b): return both(leq(a, b), leq(b, k(MAXI)))
GUARD = "measureme::profiler::TimingGuard"

def drop_guard(cx, R, st, g, log):
    """run the guard's drop as at the end of a scope"""
    P = R.P
    class C: pass
    C.I = cx.interp(P); C.log = log; readings(C.I, log); C.I.io_ok = True; C.I.count_writes = True
    root = ("O", "spec-guard")
    s = st.copy(); s.mem[root] = g
    f = P.fn("<%s as core::ops::drop::Drop>::drop" % GUARD)
    C.where = where(f) if f else GUARD
    start = P.fn(PR + "start_recording_interval_event")
    tid = start["locals"][0][0]
    C.outs = C.I.drop(s, ("loc", root, ()), tid, "spec")
    C.outs = [(x, UNIT) for x in C.outs]
    return C

def intervals(cx, R):
    P = R.P
    kd, ei, th = args3()
    ei2 = sym("spec.id2", u(64))
    me = ref(R.root)
    r0, r1 = rd(R, 0), rd(R, 1)
    def started(name):
        C = call(cx, R, PR + name, [me, sid(kd), eid(ei), th])
        res = []
        for s, v in C.outs:
            cx.require("%s takes one counter reading" % name, nread(s) == 1, "takes %d" % nread(s), C.where)
            cx.same("%s records nothing yet" % name, stream(s, R.tags["Events"]), stream(R.st, R.tags["Events"]), facts=new_facts(s, R.st), where=C.where, interp=C.I)
            res.append((s, v, C))
        cx.require("%s returns" % name, bool(res), "never returns", C.where)
        untouched(cx, R, C, name)
        return res
    for s, g, C0 in started("start_recording_interval_event"):
        C = drop_guard(cx, R, s, g, [])
        expect_event(cx, R, C, "dropping the guard", event_bytes(kd, ei, th, r0, r1), ival_ok(r0, r1), 1, base=s)
        untouched(cx, R, C, "dropping the guard")
        C = call(cx, R, GUARD + "::finish_with_override_event_id", [g, eid(ei2)], st=s)
        expect_event(cx, R, C, "finish_with_override_event_id", event_bytes(kd, ei2, th, r0, r1), ival_ok(r0, r1), 1, base=s)
        untouched(cx, R, C, "finish_with_override_event_id")
    for s, g, C0 in started("start_recording_interval_event_detached"):
        C = call(cx, R, PR + "finish_recording_interval_event", [me, g], st=s)
        expect_event(cx, R, C, "finish_recording_interval_event", event_bytes(kd, ei, th, r0, r1), ival_ok(r0, r1), 1, base=s)
        untouched(cx, R, C, "finish_recording_interval_event")

def impls(P, adt):
    for t in P.types:
        if t.get("adt") == adt: return set(t.get("impls", {}))
    raise Missing("type " + adt)

@rule("C09")
def c09(cx):
    """The guard's drop and both finishing functions write one event whether or
    not the thread is unwinding, and no timing can be duplicated."""
    P = cx.prog("measureme")
    R = new_profiler(cx, P)
    intervals(cx, R)
    for n in (GUARD, "measureme::profiler::DetachedTiming"):
        im = impls(P, n)
        for tr in ("core::clone::Clone", "core::marker::Copy"):
            cx.require("%s is not %s" % (n.rsplit("::")[-1], tr.rsplit("::")[-1]), tr not in im, "%s implements %s, so that one timing can be recorded more than once" % (n, tr), n)
