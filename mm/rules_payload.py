"""C21: containment, kinds, durations and accessors of event payloads."""
from spec import *
from rules_decode import EP, TS, field
import random
LW, EV = "decodeme::lightweight_event::LightweightEvent", "decodeme::event::Event"
PA, PB = sym("spec.self", None), sym("spec.other", None)
TM = sym("spec.time", ("int", True, 128))
OPT = "core::option::Option"
NONE = ("agg", OPT, 0)
def some(x): return ("agg", OPT, 1, x)
def mkp(p):
    if p[0] == "int": return ("agg", EP, 1, p[1])
    if p[0] == "at": return ("agg", EP, 0, ("agg", TS, 1, p[1]))
    return ("agg", EP, 0, ("agg", TS, 0, p[1], p[2]))
def unp(v):
    if v[2] == 1: return ("int", v[3])
    t = v[3]
    return ("at", t[3]) if t[2] == 1 else ("iv", t[3], t[4])
def rand_pair(r):
    ts = [randint.near(r, 1 << 62, lambda: r.choice((0, 1, 10**9, 10**9 - 1, 17 * 10**17, -5))) + d for d in (0, 1, 2, 3)]
    def one():
        m = r.random()
        if m < .2: return ("int", randint.near(r, 2**48 - 1, lambda: r.choice((0, 1, 2**48 - 1, r.getrandbits(48)))))
        if m < .45: return ("at", r.choice(ts))
        a, b = r.choice(ts), r.choice(ts)
        if a > b and r.random() < .9: a, b = b, a
        return ("iv", a, b)
    return one(), one(), r.choice(ts)
def contains(a, b):
    if a[0] != "iv" or b[0] == "int": return False
    return a[1] <= b[1] and b[-1] <= a[2]
def order(a, b):
    c = lambda x, y: "<" if x < y else "=" if x == y else ">"
    if a[0] == "iv" and b[0] != "int": return (a[0], b[0], c(a[1], b[1]), c(b[-1], a[2]))
    return (a[0], b[0])
ORDERS = {("iv", "at", x, y) for x, y in (("<", "<"), ("=", "<"), ("<", "="), (">", "<"), ("<", ">"))} | \
         {("iv", "iv", x, y) for x in "<=>" for y in "<=>"} | {("iv", "int"), ("int", "iv"), ("at", "iv"), ("at", "at"), ("int", "int"), ("int", "at"), ("at", "int")}
def ts_of(a): return NONE if a[0] == "int" else some(mkp(a)[3])
def dur(a): return some(a[2] - a[1]) if a[0] == "iv" and a[2] >= a[1] else NONE
KIND = {"iv", "at", "int", "reversed"}
def kind(a): return "reversed" if a[0] == "iv" and a[2] < a[1] else a[0]

ACC = [(EP, n, f) for n, f in (("duration", dur), ("is_interval", lambda a: a[0] == "iv"), ("is_instant", lambda a: a[0] == "at"), ("is_integer", lambda a: a[0] == "int"),
        ("timestamp", ts_of), ("integer", lambda a: some(a[1]) if a[0] == "int" else NONE))] + \
      [(TS, n, f) for n, f in (("is_instant", lambda a: a[0] == "at"), ("start", lambda a: a[1]), ("end", lambda a: a[-1]), ("duration", dur))] + \
      [(EV, n, f) for n, f in (("duration", dur), ("integer", lambda a: some(a[1]) if a[0] == "int" else NONE))] + \
      [(LW, n, f) for n, f in (("duration", dur), ("start", lambda a: NONE if a[0] == "int" else some(a[1])), ("end", lambda a: NONE if a[0] == "int" else some(a[-1])), ("timestamp", ts_of))]

def wrap(P, adt, x, other):
    """an event of that type whose payload is x and whose other fields are anything"""
    if adt in (EP, TS): return x
    t = next((t for t in P.types if t.get("adt") == adt and "variants" in t), None)
    if t is None: raise Missing("type " + adt)
    return agg(adt, None, [x if n == "payload" else sym("spec.%s.%s" % (other, n), P.tyinfo(i)) for n, i in t["variants"][0]["f"]])

def boolean(x): return x if x in (True, False) else bool(x) if isinstance(x, int) else None

@rule("C21")
def c21(cx):
    P = cx.prog("decodeme")
    def go(adt, name, args):
        f = cx.fn(P, adt + "::" + name)
        st = State(); rs = []
        for i, x in enumerate(args):
            if x is TM: rs.append(x); continue
            by_value = P.types[f["locals"][i + 1][0]]["k"] != "ref"
            if by_value: rs.append(x); continue
            root = ("O", "spec-arg%d" % i); st.mem[root] = x; rs.append(ref(root))
        I = cx.interp(P)
        return I, cases(I.call_fn(f, rs, st, 0)), where(f)
    def fx(r):
        a, b, t = rand_pair(r)
        return {PA: mkp(a), PB: mkp(b), TM: t}
    def fts(r):
        while True:
            a, b, t = rand_pair(r)
            if a[0] != "int": return {PA: mkp(a)[3], TM: t}
    def fxo(r):
        # intervals that can be recorded: the end is not before the start
        a, b, t = rand_pair(r)
        o = lambda x: x if x[0] != "iv" else ("iv", min(x[1:]), max(x[1:]))
        return {PA: mkp(o(a)), PB: mkp(o(b)), TM: t}
    for adt in (EP, LW, EV):
        I, t, wh = go(adt, "contains", [wrap(P, adt, PA, "a"), wrap(P, adt, PB, "b")])
        cx.holds("%s::contains follows the time order" % adt.split("::")[-1], [t, PA, PB], lambda e, vs: None if boolean(vs[0]) is None else boolean(vs[0]) == contains(unp(vs[1]), unp(vs[2])),
                 where=wh, interp=I, fixed=fxo, need=400, tries=1500, classes=(lambda e, vs: order(unp(vs[1]), unp(vs[2])), ORDERS))
    for adt, name, want in ACC:
        I, t, wh = go(adt, name, [wrap(P, adt, PA, "a")])
        u = unp if adt != TS else (lambda v: unp(("agg", EP, 0, v)))
        def test(e, vs):
            w = want(u(vs[1]))
            if isinstance(w, bool): return None if boolean(vs[0]) is None else boolean(vs[0]) == w
            return e.eqv(vs[0], w)
        cx.holds("%s::%s reports the payload" % (adt.split("::")[-1], name), [t, PA], test, where=wh, interp=I, fixed=fx if adt != TS else fts, need=60, tries=400,
                 classes=(lambda e, vs: kind(u(vs[1])), KIND - ({"int"} if adt == TS else set())))
    I, t, wh = go(TS, "contains", [PA, TM])
    def inside(a, x): return a[0] == "iv" and a[1] <= x < a[2]
    def where_(a, x): return a[0] if a[0] == "at" else "rev" if a[2] < a[1] else "empty" if a[1] == a[2] else "before" if x < a[1] else "first" if x == a[1] else "in" if x < a[2] else "end" if x == a[2] else "after"
    un = lambda v: unp(("agg", EP, 0, v))
    cx.holds("Timestamp::contains: start inclusive, end exclusive", [t, PA, TM], lambda e, vs: None if boolean(vs[0]) is None else boolean(vs[0]) == inside(un(vs[1]), vs[2]),
             where=wh, interp=I, fixed=fts, need=100, tries=800, classes=(lambda e, vs: where_(un(vs[1]), vs[2]), {"at", "before", "first", "in", "end", "after"}))
