"""C31: misuse of the recording API is rejected at compile time."""
from spec import *
import witness, re
PRE = "#![allow(dead_code, unused_variables, unused_mut)]\nuse measureme::*;\nuse std::sync::Arc;\n"
ARGS = "(p: &Profiler, k: StringId, e: EventId)"
START = "p.start_recording_interval_event(k, e, 0)"
DET = "p.start_recording_interval_event_detached(k, e, 0)"
SINK = "SerializationSinkBuilder::new_in_memory().new_sink(PageTag::Events)"

# name: (the misuse, the codes of a rejection, the same program without the misuse)
REJECT = {
 "an interval finished twice through its guard": (
   "fn f%s { let mut g = %s; g.finish_with_override_event_id(e); g.finish_with_override_event_id(e); }" % (ARGS, START), {"E0382"},
   "fn f%s { let mut g = %s; g.finish_with_override_event_id(e); }" % (ARGS, START)),
 "a guard finished through a reference": (
   "fn f<'a>(g: &mut TimingGuard<'a>, e: EventId) { TimingGuard::finish_with_override_event_id(g, e); }", {"E0308"},
   "fn f<'a>(mut g: TimingGuard<'a>, e: EventId) { TimingGuard::finish_with_override_event_id(g, e); }"),
 "a borrowed guard finished by method call": (
   "fn f<'a>(g: &mut TimingGuard<'a>, e: EventId) { g.finish_with_override_event_id(e); }", {"E0507"},
   "fn f<'a>(mut g: TimingGuard<'a>, e: EventId) { g.finish_with_override_event_id(e); }"),
 "a guard used after it was finished": (
   "fn f%s { let mut g = %s; g.finish_with_override_event_id(e); drop(g); }" % (ARGS, START), {"E0382"},
   "fn f%s { let mut g = %s; drop(g); }" % (ARGS, START)),
 "a detached interval finished twice": (
   "fn f%s { let mut t = %s; p.finish_recording_interval_event(t); p.finish_recording_interval_event(t); }" % (ARGS, DET), {"E0382"},
   "fn f%s { let mut t = %s; p.finish_recording_interval_event(t); }" % (ARGS, DET)),
 "a detached interval finished through a reference": (
   "fn f(p: &Profiler, t: &DetachedTiming) { p.finish_recording_interval_event(t); }", {"E0308"},
   "fn f(p: &Profiler, mut t: DetachedTiming) { p.finish_recording_interval_event(t); }"),
 "a detached interval behind a reference finished": (
   "fn f(p: &Profiler, t: &DetachedTiming) { p.finish_recording_interval_event(*t); }", {"E0507"},
   "fn f(p: &Profiler, mut t: DetachedTiming) { p.finish_recording_interval_event(t); }"),
 "a guard kept after its profiler was dropped": (
   "fn f(p: Profiler, k: StringId, e: EventId) { let mut g = %s; drop(p); drop(g); }" % START, {"E0505"},
   "fn f(p: Profiler, k: StringId, e: EventId) { let mut g = %s; drop(g); drop(p); }" % START),
 "a guard returned beyond its profiler": (
   "fn f(p: Profiler, k: StringId, e: EventId) -> TimingGuard<'static> { %s }" % START, {"E0515", "E0597", "E0505"},
   "fn f(p: &'static Profiler, k: StringId, e: EventId) -> TimingGuard<'static> { %s }" % START),
 "a guard outliving a borrow of its profiler": (
   "fn f<'a>(p: &'a Profiler, k: StringId, e: EventId) -> TimingGuard<'static> { %s }" % START, {"", "E0621", "E0521"},
   "fn f<'a>(p: &'a Profiler, k: StringId, e: EventId) -> TimingGuard<'a> { %s }" % START),
 "a guard stored in a longer lived place": (
   "fn f(k: StringId, e: EventId, mk: fn() -> Profiler) { let mut keep: Vec<TimingGuard<'_>> = Vec::new(); { let p = mk(); keep.push(%s); } keep.clear(); }" % START, {"E0597"},
   "fn f(k: StringId, e: EventId, mk: fn() -> Profiler) { let p = mk(); let mut keep: Vec<TimingGuard<'_>> = Vec::new(); { keep.push(%s); } keep.clear(); }" % START),
 "a profiler moved away under its guard": (
   "fn f(p: Profiler, k: StringId, e: EventId) { let mut g = %s; let q = Box::new(p); drop(g); }" % START, {"E0505"},
   "fn f(p: Profiler, k: StringId, e: EventId) { let mut g = %s; drop(g); let q = Box::new(p); }" % START),
 "a guard's lifetime stretched": (
   "fn f<'a>(g: TimingGuard<'a>) -> TimingGuard<'static> { g }", {""},
   "fn f<'a>(g: TimingGuard<'static>) -> TimingGuard<'a> { g }"),
 "an event id builder outliving its profiler": (
   "fn f(p: Profiler) { let b = EventIdBuilder::new(&p); drop(p); b.from_label(StringId::new_virtual(1u64)); }", {"E0505"},
   "fn f(p: Profiler) { let b = EventIdBuilder::new(&p); b.from_label(StringId::new_virtual(1u64)); drop(p); }"),
 "a stream written after its bytes were extracted": (
   "fn f() { let mut s = %s; s.into_bytes(); s.write_bytes_atomic(b\"x\"); }" % SINK, {"E0382"},
   "fn f() { let mut s = %s; s.write_bytes_atomic(b\"x\"); s.into_bytes(); }" % SINK),
 "bytes extracted twice": (
   "fn f() { let mut s = %s; let a = s.into_bytes(); let b = s.into_bytes(); }" % SINK, {"E0382"},
   "fn f() { let mut s = %s; let a = s.into_bytes(); }" % SINK),
 "bytes extracted through a reference": (
   "fn f(s: &mut SerializationSink) { s.into_bytes(); }", {"E0507"},
   "fn f(mut s: SerializationSink) { s.into_bytes(); }"),
 "bytes extracted from a stream that is still shared": (
   "fn f(s: Arc<SerializationSink>) { s.into_bytes(); }", {"E0507"},
   "fn f(s: Arc<SerializationSink>) { Arc::try_unwrap(s).ok().unwrap().into_bytes(); }"),
 "bytes extracted under a writer of the stream": (
   "use std::io::Write; fn f() { let mut s = %s; let mut w = s.as_std_write(); s.into_bytes(); w.write_all(b\"x\").unwrap(); }" % SINK, {"E0505"},
   "use std::io::Write; fn f() { let mut s = %s; { let mut w = s.as_std_write(); w.write_all(b\"x\").unwrap(); } s.into_bytes(); }" % SINK),
 "a stream's writer outliving the stream": (
   "use std::io::Write; fn f() -> impl Write { let mut s = %s; let w = s.as_std_write(); w }" % SINK, {"E0515", "E0597"},
   "use std::io::Write; fn f<'a>(s: &'a SerializationSink) -> impl Write + 'a { let w = s.as_std_write(); w }"),
 "a stream's writer outliving a borrow of it": (
   "use std::io::Write; fn f<'a>(s: &'a SerializationSink) -> Box<dyn Write + 'static> { Box::new(s.as_std_write()) }", {"", "E0621", "E0521"},
   "use std::io::Write; fn f<'a>(s: &'a SerializationSink) -> Box<dyn Write + 'a> { Box::new(s.as_std_write()) }"),
 "the buffer of an atomic write kept": (
   "fn f(s: &SerializationSink) { let mut keep: Option<&mut [u8]> = None; s.write_atomic(8, |b| keep = Some(b)); drop(keep); }", {"E0521", ""},
   "fn f(s: &SerializationSink) { let mut keep: Option<u8> = None; s.write_atomic(8, |b| keep = Some(b[0])); drop(keep); }"),
 "a started interval discarded": (
   "#[deny(unused_must_use)] fn f%s { %s; }" % (ARGS, START), {"unused_must_use"},
   "#[deny(unused_must_use)] fn f%s { let _g = %s; }" % (ARGS, START)),
 "a started detached interval discarded": (
   "#[deny(unused_must_use)] fn f%s { %s; }" % (ARGS, DET), {"unused_must_use"},
   "#[deny(unused_must_use)] fn f%s { let _t = %s; }" % (ARGS, DET)),
 "an interval discarded by the caller of a wrapper": (
   "fn w<'a>(p: &'a Profiler, k: StringId, e: EventId) -> TimingGuard<'a> { %s } #[deny(unused_must_use)] fn f%s { w(p, k, e); }" % (START, ARGS), {"unused_must_use"},
   "fn w<'a>(p: &'a Profiler, k: StringId, e: EventId) -> TimingGuard<'a> { %s } #[deny(unused_must_use)] fn f%s { let _g = w(p, k, e); }" % (START, ARGS)),
 "a detached interval discarded by the caller of a wrapper": (
   "fn w(p: &Profiler, k: StringId, e: EventId) -> DetachedTiming { %s } #[deny(unused_must_use)] fn f%s { w(p, k, e); }" % (DET, ARGS), {"unused_must_use"},
   "fn w(p: &Profiler, k: StringId, e: EventId) -> DetachedTiming { %s } #[deny(unused_must_use)] fn f%s { let _g = w(p, k, e); }" % (DET, ARGS)),
}
for T, nm in (("TimingGuard<'static>", "guard"), ("DetachedTiming", "detached interval"), ("SerializationSink", "stream")):
    REJECT["a %s cloned" % nm] = ("fn need<T: Clone>() {} fn f() { need::<%s>(); }" % T, {"E0277"}, "fn need<T>() {} fn f() { need::<%s>(); }" % T)
    REJECT["a %s used after it was moved" % nm] = ("fn f(a: %s) { let b = a; let c = a; }" % T, {"E0382"}, "fn f(a: %s) { let b = a; let c = b; }" % T)

ACCEPT = {
 "sharing a profiler between threads": "fn need<T: Send + Sync + 'static>() {} fn f() { need::<Profiler>(); }",
 "sharing a stream between threads": "fn need<T: Send + Sync + 'static>() {} fn f() { need::<SerializationSink>(); need::<Arc<SerializationSink>>(); }",
 "sharing a string table between threads": "fn need<T: Send + Sync + 'static>() {} fn f() { need::<StringTableBuilder>(); }",
 "recording from scoped threads": "fn f(p: Profiler, k: StringId, e: EventId) { std::thread::scope(|s| { s.spawn(|| { let _g = p.start_recording_interval_event(k, e, 1); }); s.spawn(|| p.record_instant_event(k, e, 2)); }); }",
 "writing a stream from several threads": "fn f(mut s: SerializationSink) { std::thread::scope(|t| { t.spawn(|| s.write_bytes_atomic(b\"a\")); t.spawn(|| s.write_bytes_atomic(b\"b\")); }); }",
}

@rule("C31")
def c31_witnesses(cx):
    progs = {}
    for n, (bad, codes, good) in REJECT.items():
        progs["-" + n] = PRE + bad + "\n"; progs["+" + n] = PRE + good + "\n"
    for n, good in ACCEPT.items(): progs["+" + n] = PRE + good + "\n"
    try: res = witness.run(progs)
    except witness.Cannot as e:
        cx.undecided("client programs", str(e), "measureme"); return
    P = cx.prog("measureme")
    for n, (bad, codes, good) in REJECT.items():
        w = anchor(P, bad)
        c = res["+" + n]
        if c: cx.undecided(n, "the same program without the misuse is rejected too: %s" % (c[0],), w); continue
        r = res["-" + n]
        if not r: cx.violation(n + " is rejected", "the compiler accepts\n   " + bad, w); continue
        got = {x[0] for x in r}
        if got - codes: cx.undecided(n, "rejected for another reason: %s" % (sorted(r)[0],), w)
        else: cx.ok(n + " is rejected", "rustc: %s" % r[0][1][:90], w)
    for n, good in ACCEPT.items():
        w = anchor(P, good); r = res["+" + n]
        if not r: cx.ok(n + " is possible", "accepted by rustc", w)
        elif {x[0] for x in r} <= {"E0277"}: cx.violation(n + " is possible", "the compiler rejects\n   %s\n   %s" % (good, r[0][1]), w)
        else: cx.undecided(n, "rejected: %s" % (r[0],), w)

def anchor(P, src):
    """the public items of the library the program is about"""
    names = [f for f in P.fns if f and f["crate"] == "measureme" and f.get("pub") and re.search(r"\b%s\b" % re.escape(f["path"].rsplit("::", 1)[-1]), src) and f["path"].rsplit("::", 1)[-1] not in ("new", "drop")]
    if names: return where(names[-1] if "detached" in src else names[0])
    for a in P.d.get("adts", ()):
        if isinstance(a, dict) and re.search(r"\b%s\b" % a["path"].rsplit("::", 1)[-1], src): return "%s:%s %s" % (a["file"], a["line"], a["path"])
    return "measureme"

def dropped(users, P, f, tid):
    d = P.types[tid].get("drop_fn")
    if d is not None and P.fns[d]: users.setdefault(f["path"], set()).add(P.fns[d]["path"])

GUARDS = ("measureme::profiler::TimingGuard", "measureme::profiler::DetachedTiming")
@rule("C31")
def c31_only_by_value(cx):
    """nothing records an interval through a borrowed guard, and the parts of a guard are private"""
    P = cx.prog("measureme")
    users = {}
    for f in P.fns:
        if not f or f["crate"] != "measureme": continue
        for b in f["blocks"]:
            t = b["t"]
            if t[0] == "drop" and not t[1][1]: dropped(users, P, f, f["locals"][t[1][0]][0])
            if t[0] == "call" and isinstance(t[1], int):
                for x in (P.types[t[1]].get("callee") or {}).get("targs") or ():
                    if isinstance(x, int) and (P.types[t[1]]["callee"].get("path") == "core::mem::drop"): dropped(users, P, f, x)
                c = P.types[t[1]].get("callee") or {}
                users.setdefault(f["path"], set()).update(x for x in (c.get("res"), c.get("path")) if x)
    def reaches(p, seen):
        if p in seen: return False
        seen.add(p)
        for q in users.get(p, ()):
            if q == "measureme::raw_event::RawEvent::new_interval" or reaches(q, seen): return True
        return any(reaches(q, seen) for q in users if q.startswith(p + "::{closure"))
    n = 0
    for f in P.fns:
        if not f or f["crate"] != "measureme" or f["closure"]: continue
        for i in range(f["argc"]):
            t = P.types[f["locals"][i + 1][0]]
            if t["k"] != "ref": continue
            while t["k"] == "ref": t = P.types[t["to"]]
            if t.get("adt") not in GUARDS: continue
            if f.get("impl_trait") == "core::ops::drop::Drop": continue
            if not f.get("pub"): continue
            n += 1
            cx.require("intervals are finished by giving the guard away", not reaches(f["path"], set()), "%s records an interval and leaves the guard with its caller" % f["path"], where(f))
    cx.ok("intervals are finished by giving the guard away", "%d public functions take a borrowed guard" % n, "measureme")
    for a in P.d.get("adts", ()):
        if isinstance(a, dict) and a["path"] in GUARDS:
            pub = [x[0] for v in a["variants"] for x in v["f"] if x[2]]
            cx.require("%s cannot be built or taken apart outside the library" % a["path"].rsplit("::", 1)[-1], not pub, "public fields: %s" % ", ".join(pub), "%s:%s %s" % (a["file"], a["line"], a["path"]))
