"""C04: an I/O operation that fails is never swallowed, a short write never taken for a complete one."""
from rules_tools import *
from rules_sink import Sink, symargs, S
import rules_summary, rules_diff, rules_stacks, rules_edit, rules_crox, rules_view

def failures(v):
    """what failed, of an evaluated outcome (FAILED last): list, or None"""
    f = unagg(v, "spec.Out")
    x = f[-1]
    if not isinstance(x, (tuple, bytes)) or x[:1] == ("agg",): return None
    return [bytes(y).decode() if isinstance(y, (bytes, tuple)) and y[:1] != ("agg",) else str(y) for y in x]

def returned(v):
    return unagg(v, "spec.Out") is not None

def swallowed(cx, X, name):
    """no outcome of the tool is a success although something failed"""
    t = outcome(X.R, (DISK, TABLES, OUT, FAILED))
    fails = sorted({x for x in subterms(t) if x.op == "iofail"}, key=lambda x: x.id)
    kw = dict(where=X.R.where, interp=X.R.I, need=40, tries=200)
    # each operation fails alone, then several do
    for which in [[x] for x in fails] + ([None] if len(fails) > 1 else []):
        def fx(r, which=which):
            f = X.fx(r)
            for x in fails: f[x] = x in which if which is not None else r.random() < .4
            return f
        def test(e, vs):
            if not succeeded(vs[0]): return True
            w = failures(vs[0])
            return None if w is None else not w
        at = ""
        if which is not None: at = place(X.R, which[0])
        cx.holds("%s: success is not reported when %s" % (name, ("%s fails" % at) if which is not None else "any I/O operations fail"), [t], test, fixed=fx, **kw)
    acc = {x for x in subterms(t) if x.op == "accepted"}
    cx.holds("%s: a write that takes only part of the data is not taken for complete" % name,
             [subst(t, {x: k(0) for x in acc}), subst(t, {x: k(1 << 62) for x in acc})] if acc else [t],
             lambda e, vs: not acc or not succeeded(vs[0]) or vs[0] == vs[1], fixed=X.fx, **kw)
    return t

def place(R, x):
    """where the operation is"""
    return getattr(R.I, "io_sites", {}).get(x, "operation %s" % (x.a[0],))

def unreadable(cx, X, name, t):
    """success needs whatever was read to be readable"""
    rd = sorted({x for x in subterms(t) if x.op == "spec.readable" and not has_loopvar(x)}, key=lambda x: x.id)
    for x in rd:
        cx.holds("%s: success is not reported when a %s cannot be read (%s)" % (name, "profile" if x.a[0] == "profile" else "JSON file", show(x.a[1])),
                 [subst(t, {x: FALSE}), subst(t, {x: TRUE})],
                 lambda e, vs: not succeeded(vs[0]) or returned(vs[1]) and vs[0][4:] == vs[1][4:], fixed=X.fx, where=X.R.where, interp=X.R.I, need=60, tries=300)

def has_loopvar(x): return any(y.op in ("mu", "bv", "idx") for y in subterms(x) if y is not x)

def tool_rule(name, make):
    @rule("C04")
    def r(cx):
        X = make(cx)
        unreadable(cx, X, name, swallowed(cx, X, name))
    r.__name__ = "c04_" + name.replace(" ", "_")
    return r

tool_rule("summarize", lambda cx: rules_summary.Summary(cx, False))
tool_rule("summarize --json", lambda cx: rules_summary.Summary(cx, True))
tool_rule("summarize diff", lambda cx: rules_diff.Diff(cx, False))
tool_rule("summarize diff --json", lambda cx: rules_diff.Diff(cx, True))
tool_rule("stack_collapse", lambda cx: rules_stacks.Stacks(cx, "stack_collapse"))
tool_rule("flamegraph", lambda cx: rules_stacks.Stacks(cx, "flamegraph"))
tool_rule("mmedit", lambda cx: rules_edit.Edit(cx))
tool_rule("mmview", lambda cx: rules_view.View(cx, False))
tool_rule("mmview --thread", lambda cx: rules_view.View(cx, True))

for _v in rules_crox.VARIANTS:
    def _f(cx, v=_v):
        X = rules_crox.Crox(cx, **v); name = "crox" + "".join(" --" + n for n in v)
        t = swallowed(cx, X, name)
        memo = X.memo
        def fx(r):
            f = X.fx(r); sel = memo["sel"]
            memo["bad"] = bad = set(r.sample(sel, 1)) if sel and r.random() < .9 else set()
            for x in [x for x in f if isinstance(x, T) and x.op == "spec.readable"]: del f[x]
            f["fn", "spec.readable"] = lambda *a: bytes(a[-1]) not in bad
            return f
        cx.holds(name + ": success is not reported when one of the profiles cannot be read", [t],
                 lambda e, vs: not (memo["bad"] and succeeded(vs[0])), fixed=fx, classes=(lambda e, vs: bool(memo["bad"]), {True}), where=X.R.where, interp=X.R.I, need=60, tries=300)
        if not X.dir: return
        def fx2(r):
            f = X.fx(r); old = f["fn", "spec.dirents"]; at = r.random()
            def ents(p):
                es = list(old(p)); es.insert(int(at * (len(es) + 1)), ("agg", RES, 1, ("agg", "spec.error", None)))
                return tuple(es)
            f["fn", "spec.dirents"] = ents
            return f
        cx.holds(name + ": success is not reported when a directory entry cannot be read", [t], lambda e, vs: not succeeded(vs[0]), fixed=fx2, where=X.R.where, interp=X.R.I, need=40, tries=300)
    _f.__name__ = "c04_crox_" + "_".join(_v)
    rule("C04")(_f)

# ---------------------------------------------------------------- the recording and reading libraries
def outcomes(cx, name, R):
    """no outcome is a success with a failed operation behind it"""
    for s, v in R.outs:
        f = s.simp(s.mem.get(FAILED, EMPTY)); v = s.simp(v)
        if f is EMPTY or v.op == "agg" and v.a[0] == RES and v.a[1] == 1: continue
        what = ", ".join(y.a[0].decode("utf-8", "replace") for y in subterms(f) if y.op == "bytes") or show(f)
        if has_loopvar(f): cx.undecided(name + ": every failure surfaces", "not known how often this was tried: " + what, R.where)
        elif R.P.types[R.fn["locals"][0][0]].get("adt") == RES and v.op != "agg": cx.undecided(name + ": every failure surfaces", "result not known: " + show(v)[:100], R.where)
        else: cx.violation(name + ": every failure surfaces", "returns normally although %s failed" % what, R.where)
        return
    cx.ok(name + ": every failure surfaces", "%d outcomes" % len(R.outs), R.where)

WRITERS = [(S + "write_atomic", "write_atomic"), (S + "write_bytes_atomic", "write_bytes_atomic"), (S + "into_bytes", "into_bytes")]
for _p, _n in WRITERS:
    def _g(cx, p=_p, n=_n):
        P = cx.prog("measureme"); fn = cx.fn(P, p)
        R = Sink(cx, P, p, symargs(P, fn))
        outcomes(cx, n, R)
        short(cx, n, R)
    _g.__name__ = "c04_" + _n
    rule("C04")(_g)

def short(cx, name, R):
    """what reaches the backing storage does not depend on how much each write accepts"""
    for i, (s, v) in enumerate(R.outs):
        D = s.mem.get(("G", "delta", R.backl), EMPTY)
        acc = {x for x in subterms(D) if x.op == "accepted"}
        if not acc: continue
        cx.same("%s: a short write is not taken for complete (outcome %d)" % (name, i), subst(D, {x: k(0) for x in acc}), subst(D, {x: k(1 << 62) for x in acc}),
                facts=list(s.facts.d.items()), where=R.where, interp=R.I, what="what is written when every write accepts nothing, and everything")
    cx.ok("%s: short writes" % name, "%d outcomes" % len(R.outs), R.where)

import rules_sink as RS
for _p, _n in ((RS.ADAPT + "write", "writer view: write"), (RS.ADAPT + "flush", "writer view: flush"), (RS.DROP, "drop of a stream")):
    def _h(cx, p=_p, n=_n):
        P = cx.prog("measureme"); fn = cx.fn(P, p)
        R = Sink(cx, P, p, symargs(P, fn))
        outcomes(cx, n, R)
        short(cx, n, R)
        if p.endswith("flush"): flush_error(cx, P, fn)
    _h.__name__ = "c04_" + _n.replace(" ", "_")
    rule("C04")(_h)

def flush_error(cx, P, fn):
    """an error of the storage's own flush is handed on"""
    seen = []
    I = cx.interp(P, contracts=False); I.fact_limit = 3
    def flush(I, st, c):
        if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
        return M.io_fork(I, st, c, lambda s: (s, ok(UNIT)))
    for n in ("core::io::write::Write::flush", "std::io::Write::flush"): I.overrides[n] = flush
    class R: pass
    R.outs = I.call_fn(fn, symargs(P, fn), State(), 0); R.P = P; R.fn = fn; R.where = where(fn)
    outcomes(cx, "writer view: flush (its last step)", R)

@rule("C04")
def c04_profiler(cx):
    P = cx.prog("measureme")
    PR = "measureme::profiler::Profiler::"
    for name in ("new", "with_counter"):
        f = cx.fn(P, PR + name)
        class R: pass
        R.P = P; R.fn = f; R.where = where(f); R.I = cx.interp(P)
        R.outs = R.I.call_fn(f, symargs(P, f), State(), 0)
        outcomes(cx, "Profiler::" + name, R)
        n = len(getattr(R.I, "io_sites", {}))
        cx.ok("Profiler::%s: fallible operations seen" % name, "%d: %s" % (n, ", ".join(sorted(set(R.I.io_sites.values())))[:300]), R.where)

@rule("C04")
def c04_header(cx):
    P = cx.prog("measureme")
    f = cx.fn(P, "measureme::file_header::write_file_header")
    class R: pass
    R.P = P; R.fn = f; R.where = where(f); R.I = cx.interp(P, contracts=False)
    R.outs = R.I.call_fn(f, symargs(P, f), State(), 0)
    outcomes(cx, "write_file_header", R)
    for i, (s, v) in enumerate(R.outs):
        if s.simp(v).op == "agg" and s.simp(v).a[1] == 1: continue
        for r, x in s.mem.items():
            acc = {y for y in subterms(x) if y.op == "accepted"} if isinstance(x, T) and r[0] in ("P", "D", "O") else ()
            if acc: cx.same("write_file_header: a short write is not taken for complete (outcome %d)" % i, subst(x, {y: k(0) for y in acc}), subst(x, {y: k(1 << 62) for y in acc}),
                            facts=list(s.facts.d.items()), where=R.where, interp=R.I, what="what is written when every write accepts nothing, and everything")

@rule("C04", "C16")
def c16_open(cx):
    """ProfilingData::new: which file is read, and what happens when it cannot be"""
    P = cx.prog("analyzeme")
    f = cx.fn(P, "analyzeme::profiling_data::ProfilingData::new")
    I = cx.interp(P)
    def exists(I, st, c): return [(st, mk("spec.exists", M.content(I, st, c.args[0], c.tys[0]), ty="bool"))]
    for n in ("exists", "is_file"): I.overrides["std::path::Path::" + n] = exists
    def read(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0])
        return M.io_fork(I, st, c, lambda s: (s, ok(mk("filedata", p, ty="seq"))))
    I.overrides["std::fs::read"] = read
    def load(I, st, c):
        d = M.content(I, st, c.args[0])
        return forkres(st, mk("spec.loads", d, ty="bool"), agg("spec.Loaded", None, [d]), mk("spec.error", "load", d))
    I.overrides["analyzeme::profiling_data::ProfilingData::from_paged_buffer"] = load
    outs = I.call_fn(f, symargs(P, f), State(), 0)
    wh = where(f)
    class R: pass
    R.P = P; R.fn = f; R.where = wh; R.I = I; R.outs = outs
    if "C04" == cx.prop: outcomes(cx, "ProfilingData::new", R)
    t = cases(outs, lambda s, v: agg("spec.Out", None, [s.simp(v)]), loopfacts=False)
    stem = mk("deref", symargs(P, f)[0], ty="seq")
    reads = [x for x in subterms(t) if x.op == "iofail"]; ld = [x for x in subterms(t) if x.op == "spec.loads"]
    memo = {}
    def fx(r):
        m = memo; m["stem"] = r.choice((b"d/run", b"run-1", b"a/b.mm_profdata", b"x.y"))
        fl = {stem: m["stem"]}
        m["there"] = r.random() < .8; m["io"] = m["there"] and r.random() < .7; m["loads"] = r.random() < .7
        for x in reads: fl[x] = not m["io"]
        for x in ld: fl[x] = m["loads"]
        fl["fn", "filedata"] = lambda p: b"data of " + bytes(p)
        base = m["stem"].rsplit(b"/", 1); nm = base[-1]
        i = nm.rfind(b"."); nm = (nm[:i] if i > 0 else nm) + b".mm_profdata"
        m["file"] = b"/".join(base[:-1] + [nm])
        fl["fn", "spec.exists"] = lambda p: bytes(p) == m["file"] and m["there"]
        return fl
    kw = dict(where=wh, interp=I, fixed=fx, need=120, tries=500, total=True)
    cl = (lambda e, vs: (memo["there"], memo["io"], memo["loads"]), {(True, True, True), (True, False, True), (True, True, False), (False, False, True)})
    def test(e, vs):
        r = unagg(vs[0], "spec.Out")
        if r is None or unagg(r[0], RES) is None: return None
        good = memo["there"] and memo["io"] and memo["loads"]
        if r[0][2] == 1: return not good
        if not good: return False
        d = unagg(r[0][3], "spec.Loaded")
        return None if d is None else bytes(d[0]) == b"data of " + memo["file"]
    cx.holds("ProfilingData::new loads the .mm_profdata file of the given stem, or reports an error when it cannot", [t], test, classes=cl, **kw)
