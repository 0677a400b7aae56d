"""C44: a stream buffers at most one page, and no page is larger than the maximum."""
from check import *
import models as M, randint
from rules_sink import *
MAX = 256 * 1024

def frames(b):
    """payload lengths of the pages in b, None if it is not whole pages"""
    out = []; i = 0
    while i < len(b):
        if i + 5 > len(b): return None
        n = int.from_bytes(b[i + 1:i + 5], "little"); out.append(n); i += 5 + n
    return out if i == len(b) else None

@rule("C44")
def c44(cx):
    P = cx.prog("measureme")
    for path in WRITERS:
        if path in (S + "into_bytes",): continue
        fn = cx.fn(P, path); name = path.rsplit("::", 1)[1]
        if path.startswith("<"): name = "drop" if path == DROP else "writer view: " + name
        args = symargs(P, fn)
        R = Sink(cx, P, path, args)
        if R.sinkl is None or R.nback > 1:
            cx.undecided(name, "locks of the sink not identified (%d own, %d shared)" % (R.nsink, R.nback), R.where); continue
        bi, ai = R.fields()
        B0 = fld(next(d["content"] for d in R.acq if d["lid"] == R.sinkl), *bi)
        for n, (s, rv) in enumerate(R.outs):
            if rv.op == "agg" and rv.a[0].endswith("Result") and rv.a[1] == 1: continue
            cur = R.I.load_loc(s, R.sinkl[0], R.sinkl[1] + (("mx",),))
            B1 = fld(cur, *bi)
            D = s.mem.get(("G", "delta", R.backl), EMPTY) if R.backl else EMPTY
            def fixed(rnd, B1=B1, D=D, B0=B0):
                f = {B0: rnd.randbytes(min(MAX, sized(rnd)))}
                for t in subterms(mk("cat", B1, D)):
                    if t.op == "deref" and t.ty == "seq": f[t] = rnd.randbytes(sized(rnd))
                    elif t.op == "fixlen" and t.a[1].op == "sym": f[t.a[1]] = sized(rnd)
                return f
            kw = dict(facts=list(s.facts.d.items()), where=R.where, interp=R.I, fixed=fixed, need=60, tries=600)
            nm = "%s, outcome %d" % (name, n) if len(R.outs) > 1 else name
            cx.holds(nm + ": at most one page stays in the buffer", [length(B1), length(B0)],
                     lambda env, v: v[0] <= MAX, what="bytes buffered after and before the operation (a page holds %d)" % MAX, **kw)
            if D is EMPTY: continue
            def small(env, v):
                ls = frames(bytes(v[0])) if isinstance(v[0], (bytes, tuple, bytearray)) else None
                return True if ls is None else max(ls or [0]) <= MAX     # other framing is C02's
            cx.holds(nm + ": no page is larger than the maximum", [D], small, what="pages written", **kw)

@rule("C44")
def c44_total(cx):
    """no operation refuses a state that operations lead to"""
    P = cx.prog("measureme")
    for path in WRITERS:
        if path in (S + "into_bytes",): continue
        fn = cx.fn(P, path); name = path.rsplit("::", 1)[1]
        if path.startswith("<"): name = "drop" if path == DROP else "writer view: " + name
        I = cx.interp(P, contracts=False); I.fact_limit = 3; I.io_ok = True
        ps = []; acq = []
        I.observers.append(lambda kd, d: ps.append((d, I.where())) if kd == "panic" else acq.append(d) if kd == "acquired" else None)
        I.call_fn(fn, symargs(P, fn), State(), 0)
        firsts = [d for d in acq if is_sink_state(P, d["inner"])]
        if not firsts: cx.undecided(name + ": accepts every size", "lock of the sink not identified", where(fn)); continue
        B0 = fld(firsts[0]["content"], *inner_fields(P, firsts[0]["inner"])[0])
        bad = False; n = 0
        for d, w in ps:
            facts = list(d["st"].facts.d.items())
            if any(x.op in ("mu", "iofail", "asm", "call", "opaque", "unk") for c, b in facts for x in subterms(c)): continue
            n += 1
            def fixed(rnd, facts=facts):
                f = {B0: rnd.randbytes(min(MAX, sized(rnd)))}
                for c, b in facts:
                    for t in subterms(c):
                        if t.op == "deref" and t.ty == "seq": f[t] = rnd.randbytes(sized(rnd))
                        elif t.op == "fixlen" and t.a[1].op == "sym": f[t.a[1]] = sized(rnd)
                        elif t.op == "sym" and t.ty and t.ty[0] == "int": f[t] = sized(rnd)
                return f
            v = randint.check([length(B0)], lambda env, v: v[0] > MAX, facts=facts, seed=cx.seed, fixed=fixed, interp=I, tries=400, need=1000)
            if v.kind == "ne":
                bad = True
                cx.violation(name + ": accepts every size", "%s panics (%s) although at most a page is buffered, e.g. %s" % (path, d["msg"], "; ".join(short(x) for x in v.sample[:-1])), w)
        if not bad: cx.ok(name + ": accepts every size", "none of %d panics is reachable while at most a page is buffered" % n, where(fn))
