"""Models of iterators and iterator adapters."""
from terms import *
import interp as IP
from interp import NVAR, Undecided
import models as M
from models import some, NONE, ok, err, lastseg, strip, content, fork, elem_tyinfo, isbyte, uid, agg

ITER = "core::iter::traits::iterator::Iterator"
DEITER = "core::iter::traits::double_ended::DoubleEndedIterator"

def A(name, *fs): return agg("it." + name, None, fs)
def F(i): return ("f", i, None, None)

def sub_target(I, st, t, i): return I.textend(t, F(i))

def make_iter(I, st, v, tid, c=None):
    """into_iter(): (iterator value, type id of what drives it)"""
    v = st.simp(v)
    if v.op == "agg" and str(v.a[0]).startswith("it."): return v
    t = I.p.types[tid] if tid is not None else {"k": "?"}
    if t["k"] == "ref":
        inner, it = strip(I, tid)
        if it["k"] in ("slice", "array") or (it["k"] == "adt" and it["adt"] in IP.SEQ_ADTS):
            r = M.seqref(I, st, v, tid)
            I.note_ty(st, r, inner)
            L = length(st.simp(I.load(st, r)))
            return A("slice", r, k(0), L, k(inner))
        if it["k"] == "adt" and it["adt"].endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
            kind = "set" if it["adt"].endswith("Set") else "iter"
            m = st.simp(I.load(st, v)); return A("mapiter", m, mk("kind", kind), k(0), v, mk("maplen", m, ty=("int", False, 63)))
        if it["k"] == "adt" and it["adt"] == M.OPT:
            o = st.simp(I.load(st, v))
            if o.op == "agg":
                if o.a[1] == 0: return A("once", NONE)
                tg = I.target_of(st, v)
                return A("once", some(I.tref(I.textend(I.textend(tg, ("v", 1, "Some")), ("f", 0, "0", None)))))
    if t["k"] == "adt":
        a = t["adt"]
        if a in IP.SEQ_ADTS: return A("vec", v, k(0), length(v), k(tid))
        if a.endswith("ops::range::RangeInclusive") and v.op == "agg":
            return agg("core::ops::range::Range", None, [v.a[2][0], add(v.a[2][1], k(1))])
        if a.endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")):
            kind = "into-set" if a.endswith("Set") else "into"
            return A("mapiter", v, mk("kind", kind), k(0), UNIT, mk("maplen", v, ty=("int", False, 63)))
        if a == M.OPT: return A("once", v)
    if t["k"] == "array": return A("vec", v, k(0), length(v), k(tid))
    return v

def nxt(I, st, tgt, tid, back, site):
    """-> [(state, item or None)]"""
    v = st.simp(I.tload(st, tgt))
    if v.op == "gamma":
        out = []
        for pol in (True, False):
            s = st.assume(v.a[0], pol)
            if s is not None:
                s = s.copy(); I.tstore(s, tgt, v.a[1] if pol else v.a[2])
                out += nxt(I, s, tgt, tid, back, (site, pol))
        return out
    if v.op == "ref":
        t = I.p.types[tid] if tid is not None else None
        return nxt(I, st, I.target_of(st, v), t["to"] if t and t["k"] == "ref" else None, back, site)
    name = v.a[0] if v.op == "agg" else None
    def upd(s, i, x):
        s = s.copy(); I.tstore(s, sub_target(I, s, tgt, i), x); return s
    if name == "it.slice" or name == "it.vec":
        src, lo, hi, et = v.a[2]
        out = []
        s = st.assume(lt(lo, hi), True)
        if s is not None:
            i = lo if not back else sub(hi, k(1))
            if name == "it.slice": item = I.tref(I.textend(I.target_of(s, src), ("ix", i, elem_tyinfo(I, et.a[0]) if et.op == "k" else None)))
            else: item = index(src, i, elem_tyinfo(I, et.a[0]) if et.op == "k" else None, s.facts)
            out.append((upd(s, 2 if back else 1, i if back else add(lo, k(1))), item))
        s = st.assume(lt(lo, hi), False)
        if s is not None: out.append((s, None))
        return out
    if name == "core::ops::range::Range":
        lo, hi = v.a[2]
        out = []
        s = st.assume(lt(lo, hi), True)
        if s is not None:
            i = lo if not back else sub(hi, k(1))
            out.append((upd(s, 1 if back else 0, i if back else add(lo, k(1))), i))
        s = st.assume(lt(lo, hi), False)
        if s is not None: out.append((s, None))
        return out
    if name == "core::ops::range::RangeFrom":
        lo = v.a[2][0]
        return [(upd(st, 0, add(lo, k(1))), lo)]
    if name == "it.repeat": return [(st, v.a[2][0])]
    if name == "it.chunks" and not back:
        src, pos, n = v.a[2]
        seq = I.load(st, src)
        L = length(seq)
        out = []
        s = st.assume(lt(pos, L), True)
        if s is not None:
            end = minmax("min", add(pos, n), L)
            if s.decide(le(add(pos, n), L)) is True: end = add(pos, n)
            r = I.tref(I.textend(I.target_of(s, src), ("sl", pos, end)))
            I.emit("chunk", st=s, ref=r, n=n)
            out.append((upd(s, 1, end), r))
        s = st.assume(lt(pos, L), False)
        if s is not None: out.append((s, None))
        return out
    if name == "it.rchunk":
        # chunks lo..hi of n elements each, by number
        src, lo, hi, n = v.a[2]
        out = []
        s = st.assume(lt(lo, hi), True)
        if s is not None:
            i = lo if not back else sub(hi, k(1))
            L = length(I.load(s, src)); a = mul(i, n); e = minmax("min", add(a, n), L)
            if s.decide(le(add(a, n), L)) is True: e = add(a, n)
            r = I.tref(I.textend(I.target_of(s, src), ("sl", a, e)))
            out.append((upd(s, 2 if back else 1, i if back else add(lo, k(1))), r))
        s = st.assume(lt(lo, hi), False)
        if s is not None: out.append((s, None))
        return out
    if name == "it.step" and not back:
        inner, n, t, begun = v.a[2]
        out = []
        for pol in (False, True):
            s = st.assume(begun, pol)
            if s is None: continue
            if pol:
                w = advance(I, s, s.simp(I.tload(s, sub_target(I, s, tgt, 0))), sub(n, k(1)))
                if w is None: out = None; break
                s = upd(s, 0, w)
            else: s = upd(s, 3, TRUE)
            out += nxt(I, s, sub_target(I, s, tgt, 0), t.a[0], back, (site, "step", pol))
        if out is not None: return out
    if name == "it.mapwhile" and not back:
        inner, f, t = v.a[2]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "mw")):
            if x is None: out.append((s, None)); continue
            for s2, o in I.call_value(s, I.tref(sub_target(I, s, tgt, 1)), [x], (site, "mwf")): out += split_opt(s2, o)
        return out
    if name == "it.scan" and not back:
        inner, f, t, acc = v.a[2]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "sc")):
            if x is None: out.append((s, None)); continue
            for s2, o in I.call_value(s, I.tref(sub_target(I, s, tgt, 1)), [I.tref(sub_target(I, s, tgt, 3)), x], (site, "scf")): out += split_opt(s2, o)
        return out
    if name == "it.skipwhile" and not back:
        inner, f, t, begun = v.a[2]
        out = []
        s = st.assume(begun, True)
        if s is not None: out += nxt(I, s, sub_target(I, s, tgt, 0), t.a[0], back, (site, "skw"))
        s = st.assume(begun, False)
        if s is not None:
            for q, x in filter_next(I, s, tgt, s.simp(I.tload(s, tgt)), name, back, (site, "skf")):
                out.append((upd(q, 3, TRUE) if x is not None else q, x))
        return out
    if name == "it.skip" and not back:
        # number still to be dropped: a loop that drops them, then the rest
        inner, n, t = v.a[2]
        lid = (I.stack[-1].cp if I.stack else 0, ("skip", site))
        got = []; ended = []
        def step(h):
            got.clear(); ended.clear()
            hv = h.simp(I.tload(h, tgt)).a[2][1]
            backs = []
            q = h.assume(lt(k(0), hv), True)
            if q is not None:
                q = upd(q, 1, sub(hv, k(1)))
                for s2, x in nxt(I, q, sub_target(I, q, tgt, 0), t.a[0], back, (site, "skd")):
                    (ended if x is None else backs).append(s2)
            q = h.assume(lt(k(0), hv), False)
            if q is not None: got.append(q)
            return backs, None
        if n is k(0): rest = [st]
        else:
            li = I.fixpoint(lid, st, step)
            li.out = got + ended
            rest = list(got)
        out = [(s2, None) for s2 in ended]
        for s2 in rest: out += nxt(I, s2, sub_target(I, s2, tgt, 0), t.a[0], back, (site, "skn"))
        return out
    if name == "it.rev":
        inner, t = v.a[2]
        return nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], not back, (site, "rev"))
    if name == "it.map":
        inner, f, t = v.a[2]
        if t is k(-2):
            return [(s2, y) for s2, y in I.call_value(st, I.tref(sub_target(I, st, tgt, 1)), [], (site, "mapf"))]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "map")):
            if x is None: out.append((s, None)); continue
            fr = I.tref(sub_target(I, s, tgt, 1))
            for s2, y in I.call_value(s, fr, [x], (site, "mapf")):
                out.append((s2, y))
        return out
    if name in ("it.cloned", "it.copied"):
        inner, t = v.a[2]
        return [(s, None if x is None else s.simp(I.load(s, x))) for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "cl"))]
    if name == "it.enum" and not back:
        inner, n, t = v.a[2]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "en")):
            out.append((s, None) if x is None else (upd(s, 1, add(n, k(1))), agg("()", None, [n, x])))
        return out
    if name == "it.inspect":
        inner, f, t = v.a[2]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "insp")):
            if x is None: out.append((s, None)); continue
            s = s.copy(); root = ("T", I.cp(I.stack[-1].cp, (site, "inspx"))); s.mem[root] = x
            for s2, _ in I.call_value(s, I.tref(sub_target(I, s, tgt, 1)), [ref(root)], (site, "inspf")): out.append((s2, x))
        return out
    if name in ("it.filter", "it.filtermap"):
        return filter_next(I, st, tgt, v, name, back, site)
    if name == "it.takewhile":
        inner, f, t, done = v.a[2]
        if done is TRUE: return [(st, None)]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "tw")):
            if x is None: out.append((s, None)); continue
            s = s.copy(); root = ("T", I.cp(I.stack[-1].cp, (site, "twx"))); s.mem[root] = x
            for s2, b in I.call_value(s, I.tref(sub_target(I, s, tgt, 1)), [ref(root)], (site, "twf")):
                q = s2.assume(b, True)
                if q is not None: out.append((q, x))
                q = s2.assume(b, False)
                if q is not None: out.append((upd(q, 3, TRUE), None))
        return out
    if name == "it.take" and not back:
        inner, n, t = v.a[2]
        out = []
        s = st.assume(eq(n, k(0)), True)
        if s is not None: out.append((s, None))
        s = st.assume(eq(n, k(0)), False)
        if s is not None:
            s = upd(s, 1, sub(n, k(1)))
            out += nxt(I, s, sub_target(I, s, tgt, 0), t.a[0], back, (site, "take"))
        return out
    if name == "it.once":
        o = v.a[2][0]
        if o.op == "agg":
            if o.a[1] == 0: return [(st, None)]
            return [(upd(st, 0, NONE), o.a[2][0])]
        NVAR[o] = 2
        out = []
        s = st.assume(isv(o, 1), True)
        if s is not None: out.append((upd(s, 0, NONE), fld(down(o, 1, "Some"), 0, "0")))
        s = st.assume(isv(o, 1), False)
        if s is not None: out.append((upd(s, 0, NONE), None))
        return out
    if name == "it.chain":
        a, b, ta, tb = v.a[2]
        i, j = (0, 1) if not back else (1, 0)
        ts = (ta, tb) if not back else (tb, ta)
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, i), ts[0].a[0], back, (site, "ch0")):
            if x is not None: out.append((s, x)); continue
            out += nxt(I, s, sub_target(I, s, tgt, j), ts[1].a[0], back, (site, "ch1"))
        return out
    if name == "it.zip" and not back:
        a, b, ta, tb = v.a[2]
        out = []
        for s, x in nxt(I, st, sub_target(I, st, tgt, 0), ta.a[0], back, (site, "z0")):
            if x is None: out.append((s, None)); continue
            for s2, y in nxt(I, s, sub_target(I, s, tgt, 1), tb.a[0], back, (site, "z1")):
                out.append((s2, None if y is None else agg("()", None, [x, y])))
        return out
    if name == "it.peek" and not back:
        inner, t, pk = v.a[2]
        if pk.op == "agg" and pk.a[1] == 1:
            o = pk.a[2][0]
            s = upd(st, 2, NONE)
            if o.op == "agg": return [(s, o.a[2][0] if o.a[1] == 1 else None)]
            NVAR[o] = 2
            out = []
            q = s.assume(isv(o, 1), True)
            if q is not None: out.append((q, fld(down(o, 1, "Some"), 0, "0")))
            q = s.assume(isv(o, 1), False)
            if q is not None: out.append((q, None))
            return out
        if pk.op == "agg":
            return nxt(I, st, sub_target(I, st, tgt, 0), t.a[0], back, (site, "pk"))
        # unknown whether something was peeked
        NVAR[pk] = 2
        out = []
        q = st.assume(isv(pk, 1), True)
        if q is not None:
            o = fld(down(pk, 1, "Some"), 0, "0"); NVAR[o] = 2
            q = upd(q, 2, NONE)
            r = q.assume(isv(o, 1), True)
            if r is not None: out.append((r, fld(down(o, 1, "Some"), 0, "0")))
            r = q.assume(isv(o, 1), False)
            if r is not None: out.append((r, None))
        q = st.assume(isv(pk, 1), False)
        if q is not None: out += nxt(I, q, sub_target(I, q, tgt, 0), t.a[0], back, (site, "pk"))
        return out
    if name == "it.mapiter":
        m, kind, n, src, L = v.a[2]
        kd = kind.a[0]
        out = []
        s = st.assume(lt(n, L), True)
        if s is not None:
            key = mk("mapkey", m, sub(L, k(1)) if back else n)
            val = mk("mapval", m, key)
            kr = ref(("C", key)); vr = ref(("C", val))
            if src is not UNIT and kd in ("iter", "values", "values_mut", "iter_mut"):
                vr = I.tref(I.textend(I.target_of(s, src), ("mk", key)))
            s = s.assume(mk("maphas", m, key, ty="bool"), True) or s
            item = {"iter": lambda: agg("()", None, [kr, vr]), "iter_mut": lambda: agg("()", None, [kr, vr]), "keys": lambda: kr, "values": lambda: vr, "values_mut": lambda: vr,
                    "into": lambda: agg("()", None, [key, val]), "into_values": lambda: val, "into_keys": lambda: key,
                    "drain": lambda: agg("()", None, [key, val]), "set": lambda: kr, "into-set": lambda: key}[kd]()
            out.append((upd(s, 4, sub(L, k(1))) if back else upd(s, 2, add(n, k(1))), item))
        s = st.assume(lt(n, L), False)
        if s is not None: out.append((s, None))
        return out
    # workspace iterator types
    if tid is not None:
        t = I.p.types[tid]
        if t["k"] == "ref": t = I.p.types[t["to"]]
        if t["k"] == "adt" and t["adt"] == "alloc::boxed::Box":
            d = IP.DYN.get(v)
            if v.op == "ref": return nxt(I, st, I.target_of(st, v), d[1] if d else t["args"][0], back, site)
        imp = t.get("impls") or {}
        tr, me = (DEITER, "next_back") if back else (ITER, "next")
        if tr in imp and me in imp[tr]:
            fn = I.p.fns[imp[tr][me]]
            r = I.call_fn(fn, [I.tref(tgt)], st, (site, "ws", back))
            if r is not None:
                out = []
                for s, o in r:
                    o = s.simp(o)
                    if o.op == "agg": out.append((s, o.a[2][0] if o.a[1] == 1 else None))
                    else:
                        NVAR[o] = 2
                        q = s.assume(isv(o, 1), True)
                        if q is not None: out.append((q, q.simp(fld(down(o, 1, "Some"), 0, "0"))))
                        q = s.assume(isv(o, 1), False)
                        if q is not None: out.append((q, None))
                return out
    # anything else: an unknown sequence of items
    tag = "b" if back else "f"
    out = []
    c = mk("more", v, tag, ty="bool")
    s = st.assume(c, True)
    if s is not None:
        q = s.copy(); I.tstore(q, tgt, mk("adv", v, tag))
        out.append((q, mk("item", v, tag)))
    s = st.assume(c, False)
    if s is not None: out.append((s, None))
    return out

def filter_next(I, st, tgt, v, name, back, site):
    """advance until the predicate accepts: a loop over rejected items"""
    lid = (I.stack[-1].cp if I.stack else 0, ("filter", site))
    got = []
    def step(h):
        got.clear()
        backs = []
        val = h.simp(I.tload(h, tgt))
        t = val.a[2][2]
        for s, x in nxt(I, h, sub_target(I, h, tgt, 0), t.a[0], back, (site, "fi")):
            if x is None: got.append((s, None)); continue
            fr = I.tref(sub_target(I, s, tgt, 1))
            if name == "it.filtermap":
                for s2, o in I.call_value(s, fr, [x], (site, "fmf")):
                    o = s2.simp(o)
                    if o.op == "agg":
                        (got.append((s2, o.a[2][0])) if o.a[1] == 1 else backs.append(s2))
                    else:
                        NVAR[o] = 2
                        q = s2.assume(isv(o, 1), True)
                        if q is not None: got.append((q, fld(down(o, 1, "Some"), 0, "0")))
                        q = s2.assume(isv(o, 1), False)
                        if q is not None: backs.append(q)
                continue
            s = s.copy()
            root = ("T", I.cp(I.stack[-1].cp if I.stack else 0, (site, "filx"))); s.mem[root] = x
            for s2, b in I.call_value(s, fr, [ref(root)], (site, "filf")):
                s2 = s2.copy(); s2.mem.pop(root, None)
                q = s2.assume(b, name != "it.skipwhile")
                if q is not None: got.append((q, x))
                q = s2.assume(b, name == "it.skipwhile")
                if q is not None: backs.append(q)
        return backs, None
    li = I.fixpoint(lid, st, step)
    li.out = [s for s, _ in got]
    return list(got)

def split_opt(s, o):
    """[(state, item or None)] of a computed option"""
    o = s.simp(o)
    if o.op == "agg": return [(s, o.a[2][0] if o.a[1] == 1 else None)]
    NVAR[o] = 2
    out = []
    q = s.assume(isv(o, 1), True)
    if q is not None: out.append((q, q.simp(fld(down(o, 1, "Some"), 0, "0"))))
    q = s.assume(isv(o, 1), False)
    if q is not None: out.append((q, None))
    return out

def advance(I, st, it, n):
    """the iterator with its first n items dropped, or None where it takes running it"""
    if n is k(0): return it
    if not (it.op == "agg"): return None
    nm, f = str(it.a[0]), it.a[2]
    if nm in ("it.slice", "it.vec"): return A(nm[3:], f[0], minmax("min", add(f[1], n), f[2]), f[2], f[3])
    if nm == "core::ops::range::Range": return agg(nm, None, [minmax("min", add(f[0], n), minmax("max", f[0], f[1])), f[1]])
    if nm == "it.rchunk": return A("rchunk", f[0], minmax("min", add(f[1], n), f[2]), f[2], f[3])
    if nm == "it.chunks": return A("chunks", f[0], minmax("min", add(f[1], mul(n, f[2])), length(I.load(st, f[0]))), f[2])
    if nm == "it.cloned":
        x = advance(I, st, f[0], n)
        return None if x is None else agg(nm, None, [x] + list(f[1:]))
    if nm == "it.rev":
        x = retreat(I, st, f[0], n)
        return None if x is None else agg(nm, None, [x] + list(f[1:]))
    if nm == "it.enum":
        # the count goes on only over items there are; it is not looked at after the last
        x = advance(I, st, f[0], n)
        return None if x is None else agg(nm, None, [x, add(f[1], n)] + list(f[2:]))
    return None

def retreat(I, st, it, n):
    """the iterator with its last n items dropped"""
    if not (it.op == "agg"): return None
    nm, f = str(it.a[0]), it.a[2]
    low = lambda lo, hi: minmax("max", lo, sub(hi, n))
    if nm in ("it.slice", "it.vec"): return A(nm[3:], f[0], f[1], low(f[1], f[2]), f[3])
    if nm == "core::ops::range::Range": return agg(nm, None, [f[0], low(f[0], minmax("max", f[0], f[1]))])
    if nm == "it.rchunk": return A("rchunk", f[0], f[1], low(f[1], f[2]), f[3])
    if nm == "it.cloned":
        x = retreat(I, st, f[0], n)
        return None if x is None else agg(nm, None, [x] + list(f[1:]))
    return None

def reverse(I, st, it, kt):
    """rev(): maps and filters commute with it"""
    if it.op == "agg":
        nm, f = str(it.a[0]), it.a[2]
        if nm in ("it.map", "it.filter", "it.filtermap", "it.inspect") and not (nm == "it.map" and f[2] is k(-2)):
            return agg(nm, None, [reverse(I, st, f[0], f[2]), f[1], k(-1)])
        if nm == "it.chunks" and f[1] is k(0):
            L = length(I.load(st, f[0]))
            return A("rev", A("rchunk", f[0], k(0), div(add(L, sub(f[2], k(1))), f[2]), f[2]), k(-1))
    return A("rev", it, kt)

def taken(it, n):
    """the first n items of an iterator given by value, where that is one of the same kind"""
    if it.op != "agg": return None
    nm, f = str(it.a[0]), it.a[2]
    if nm in ("it.slice", "it.vec"): return agg(nm, None, [f[0], f[1], minmax("min", f[2], add(f[1], n)), f[3]])
    if nm == "core::ops::range::Range": return agg(nm, None, [f[0], minmax("min", f[1], add(f[0], n))])
    if nm in ("it.cloned", "it.enum") or nm == "it.map" and f[2] is not k(-2):
        w = taken(f[0], n)
        return None if w is None else agg(nm, None, [w] + list(f[1:]))
    if nm == "it.rev" and f[0].op == "agg":
        g = f[0].a[2]
        if f[0].a[0] in ("it.slice", "it.vec"): return agg(nm, None, [agg(str(f[0].a[0]), None, [g[0], minmax("max", g[1], sub(g[2], n)), g[2], g[3]])] + list(f[1:]))
        if f[0].a[0] == "core::ops::range::Range": return agg(nm, None, [agg(str(f[0].a[0]), None, [minmax("max", g[0], sub(g[1], n)), g[1]])] + list(f[1:]))
    return None

def trips(it):
    """number of items of an iterator if it is a small constant"""
    if it.op != "agg": return None
    nm, f = str(it.a[0]), it.a[2]
    if nm in ("it.slice", "it.vec"): d = sub(f[2], f[1])
    elif nm == "core::ops::range::Range": d = sub(f[1], f[0])
    elif nm in ("it.map", "it.cloned", "it.rev", "it.enum", "it.inspect") and not (nm == "it.map" and f[2] is k(-2)): return trips(f[0])
    elif nm == "it.zip":
        a, b = trips(f[0]), trips(f[1])
        return a if b is None and isinstance(a, int) and f[1].op == "agg" and f[1].a[0] == "core::ops::range::RangeFrom" else None if a is None or b is None else min(a, b)
    elif nm == "it.chain":
        a, b = trips(f[0]), trips(f[1])
        return None if a is None or b is None else a + b
    else: return None
    return max(0, d.a[0]) if d.op == "k" and d.a[0] <= 16 else None

def filters(itv):
    """does an adapter chain drop items?"""
    while itv.op == "agg" and itv.a[0] in ("it.map", "it.filter", "it.filtermap", "it.cloned"):
        if itv.a[0] in ("it.filter", "it.filtermap"): return True
        itv = itv.a[2][0]
    return False

def consume(I, st, itv, tid, site, body, acc0=None, name="loop"):
    """Run body for each item.  body(state, item, accref) -> (continue [states], exits [(state, value)])
    Returns (final states when exhausted, early exits)."""
    if itv.op == "agg" and itv.a[0] == "it.flatmap":
        inner, f, t = itv.a[2]
        froot = ("T", I.cp(I.stack[-1].cp if I.stack else 0, ("fmf", site)))
        st = st.copy(); st.mem[froot] = f
        def body2(s, x, accr):
            cont, ex = [], []
            outs = [(s, x)] if f is UNIT else I.call_value(s, ref(froot), [x], (site, "flm"))
            for s2, seq in outs:
                seq = s2.simp(seq)
                ity = IP.DYN.get(("itty", seq))
                if ity is None and seq.op != "agg" and is_seqlike(seq): seq = A("vec", seq, k(0), length(seq), UNIT)
                sub_ = make_iter(I, s2, seq, ity) if seq.op != "agg" or not str(seq.a[0]).startswith("it.") else seq
                fin, early, _, _ = consume(I, s2, sub_, ity, (site, "inner"), lambda s3, y, _a: body(s3, y, accr), name=name + "i")
                cont += fin; ex += early
            return cont, ex
        return consume(I, st, inner, t.a[0], (site, "outer"), body2, acc0=acc0, name=name)
    if itv.op == "agg" and itv.a[0] in ("it.map", "it.filter", "it.filtermap", "it.cloned") and filters(itv):
        # an iterator with a filter: its source is run through, the body is skipped for what the filter drops
        inner, kind = itv.a[2][0], itv.a[0][3:]
        t = itv.a[2][1 if kind == "cloned" else 2]
        froot = ("T", I.cp(I.stack[-1].cp if I.stack else 0, ("ff", site)))
        xroot = ("T", I.cp(I.stack[-1].cp if I.stack else 0, ("fx", site)))
        st = st.copy()
        if kind != "cloned": st.mem[froot] = itv.a[2][1]
        def body3(s, x, accr):
            cont, ex = [], []
            def go(s2, y):
                c2, e2 = body(s2, y, accr)
                cont.extend(c2); ex.extend(e2)
            if kind == "cloned": go(s, content(I, s, x))
            elif kind == "map":
                for s2, y in I.call_value(s, ref(froot), [x], (site, "fmp")): go(s2, y)
            elif kind == "filter":
                s = s.copy(); s.mem[xroot] = x
                for s2, b in I.call_value(s, ref(froot), [ref(xroot)], (site, "flt")):
                    s2 = s2.copy(); s2.mem.pop(xroot, None)
                    q = s2.assume(b, True)
                    if q is not None: go(q, x)
                    q = s2.assume(b, False)
                    if q is not None: cont.append(q)
            else:
                for s2, o in I.call_value(s, ref(froot), [x], (site, "ftm")):
                    o = s2.simp(o)
                    if o.op == "agg": go(s2, o.a[2][0]) if o.a[1] == 1 else cont.append(s2); continue
                    NVAR[o] = 2
                    q = s2.assume(isv(o, 1), True)
                    if q is not None: go(q, fld(down(o, 1, "Some"), 0, "0"))
                    q = s2.assume(isv(o, 1), False)
                    if q is not None: cont.append(q)
            return cont, ex
        return consume(I, st, inner, t.a[0], (site, "src"), body3, acc0=acc0, name=name)
    cpi = I.stack[-1].cp if I.stack else 0
    root = ("T", I.cp(cpi, ("it", site)))
    accr = ("T", I.cp(cpi, ("acc", site)))
    st = st.copy()
    st.mem[root] = itv
    if acc0 is not None: st.mem[accr] = acc0
    done = []; early = []
    n = trips(itv)
    if n is not None and n <= 16:
        cur = [st]
        for i in range(n + 1):
            new = []
            for j, h in enumerate(cur):
                for s, x in nxt(I, h, ("loc", root, ()), tid, False, (site, "un", i, j)):
                    if x is None: done.append(s); continue
                    cont, ex = body(s, x, accr)
                    new += cont; early += ex
            cur = new if len(new) <= 4 else [I.join(new, (cpi, name, site, i))]
            if not cur: return done, early, root, accr
        raise Undecided("a loop over %d items does not end" % n)
    def step(h):
        done.clear(); early.clear()
        backs = []
        for s, x in nxt(I, h, ("loc", root, ()), tid, False, (site, "nx")):
            if x is None: done.append(s); continue
            cont, ex = body(s, x, accr)
            backs += cont; early.extend(ex)
        return backs, None
    lid = (cpi, (name, site))
    li = I.fixpoint(lid, st, step)
    li.out = done + [s for s, _ in early]
    fin = []
    for s in done:
        s = close_loop(I, s, li)
        fin.append(s)
    return fin, list(early), root, accr

ELT = lambda lid: mk("elt", lid)

def close_loop(I, s, li):
    """Replace loop-carried values of an exhausted loop by closed forms."""
    if not li.sticky or not li.backs: return s
    m = closed_form_map(I, li, s)
    if not m: return s
    s = s.copy()
    memo = {}
    for r, v in list(s.mem.items()):
        nv = subst(v, m, memo)
        if nv is not v: s.mem[r] = nv
    # what the closed form settles is no condition any more, where every time round comes to the end
    d = s.facts.d; head = li.head.facts.d
    def only(q, c): return all(x in head or x is c for x in q.facts.d) and q.facts.d.get(c) is (not d[c])
    for c in [c for c in d if any(h in subterms(c) for h in m)] if len(li.out) == 1 and len(li.backs) == 1 else ():
        if only(li.backs[0], c) and subst(c, m, memo) is (TRUE if d[c] else FALSE): d = {x: v for x, v in d.items() if x is not c}
    if d is not s.facts.d: s.facts = type(s.facts)(d)
    return s

def loop_index(I, li, s, mus):
    """(key, head value, step, a, b): an index that runs over a..b, for an exit where it is exhausted"""
    allm = set(mus.values())
    for key, h in sorted(mus.items(), key=str):
        stp = None
        for back in li.backs:
            b = I.at(back, *key)
            q = 1 if b is add(h, k(1)) else -1 if b is sub(h, k(1)) else 0
            if q == 0 or stp not in (None, q): stp = 0; break
            stp = q
        if not stp: continue
        i0 = I.at(li.init, *key)
        if i0 is None: continue
        for c, v in s.facts.d.items():
            if c.op not in ("lt0", "eq0") or h not in subterms(c): continue
            cc, mm = lin_parts(c.a[0])
            if mm.get(h) not in (1, -1): continue
            n = mm[h]
            # the other side: h <op> bound
            bound = scale(sub(c.a[0], scale(h, n)), -n)
            if subterms(bound) & allm: continue
            if any(b.facts.d.get(c) is not (not v) for b in li.backs): continue
            if c.op == "lt0":
                # n=1:  h - bound < 0 ;  n=-1: bound - h < 0
                if stp == 1:
                    if n == 1 and v is False: return key, h, 1, i0, bound
                    if n == -1 and v is True: return key, h, 1, i0, add(bound, k(1))
                else:
                    if n == -1 and v is False: return key, h, -1, bound, i0
                    if n == 1 and v is True: return key, h, -1, sub(bound, k(1)), i0
            elif v is True:
                return (key, h, 1, i0, bound) if stp == 1 else (key, h, -1, bound, i0)
    return None

def bindvar(body):
    """a bound variable not used in body"""
    n = 0
    for x in subterms(body):
        if x.op == "bindvar": n = max(n, x.a[0] + 1)
    return mk("bindvar", n, ty=("int", False, 64))

def inner_loop(I, t, mus, me):
    """does t depend on another loop whose start or course depends on one of the symbols"""
    done = {me}
    todo = [x for x in subterms(t) if x.op == "mu"]
    while todo:
        m = todo.pop()
        if m.a[0] in done: continue
        done.add(m.a[0])
        L = I.loops.get(m.a[0])
        if L is None: continue
        seen = set()
        for q in [L.init, L.head] + list(L.backs or []):
            for c, v in q.facts.d.items():
                if q is L.init: continue
                seen |= subterms(c)
            for root, path in L.sticky: seen |= subterms(I.base(q, root))
        if any(x in mus for x in seen): return True
        todo += [x for x in seen if x.op == "mu"]
    return False

def closed_form_map(I, li, s):
    """{loop symbol: closed form} for an exit state in which the loop's index is exhausted"""
    out = {}
    back = I.join(li.backs, ("cf", li.id)) if len(li.backs) > 1 else li.backs[0]
    mus = {}
    for (root, path) in li.sticky:
        h = I.at(li.head, root, path)
        if h is None: continue
        mus[(root, path)] = h
    ix = loop_index(I, li, s, mus)
    if ix is None: return out
    key, h, stp, a, b = ix
    if any(x in subterms(a) or x in subterms(b) for x in mus.values()): return out
    out[h] = b if stp == 1 else a
    others = [v for v in mus.values() if v is not h]
    def canon(t):
        bv = bindvar(t)
        r = subst(t, {h: bv if stp == 1 else add(bv, k(1))})
        return r, bv
    counters = {}       # what goes up or down by the same amount every time round is the index in another guise
    for key2, m in mus.items():
        bk, i2 = I.at(back, *key2), I.at(li.init, *key2)
        if m is h or bk is None or i2 is None or not is_intish(bk) or not is_intish(i2): continue
        d = sub(bk, m)
        if d.op == "k": counters[m] = add(i2, scale(sub(h, a) if stp == 1 else sub(b, h), d.a[0]))
    for key2, m in mus.items():
        if m is h: continue
        bk = I.at(back, *key2)
        i2 = I.at(li.init, *key2)
        if bk is None or i2 is None or bk is m: continue
        if counters and not (m in counters and len(counters) == 1): bk = subst(bk, {x: v for x, v in counters.items() if x is not m})
        if inner_loop(I, bk, set(mus.values()), li.id): continue     # depends on a loop within this one
        if is_intish(bk):
            d = sub(bk, m)
            if not any(x in subterms(d) for x in others):
                body, bv = canon(d)
                out[m] = add(i2, sum_of(body, a, b, bv))
                continue
        if bk.op == "gamma" and m in (bk.a[1], bk.a[2]):
            # conditional append
            other = bk.a[2] if bk.a[1] is m else bk.a[1]
            if other.op == "cat" and other.a and other.a[0] is m:
                tail = cat(*other.a[1:])
                if not any(x in subterms(tail) or x in subterms(bk.a[0]) for x in others):
                    g = gamma(bk.a[0], EMPTY, tail) if bk.a[1] is m else gamma(bk.a[0], tail, EMPTY)
                    body, bv = canon(g)
                    out[m] = cat(i2, collect_of(body, a, b, bv, stp))
                    continue
        if bk.op == "gamma" and is_seqlike(bk):
            ps = common_prefix(bk, m)
            if ps is not None and not any(x in subterms(ps) for x in others):
                body, bv = canon(ps)
                out[m] = cat(i2, collect_of(body, a, b, bv, stp))
                continue
        if bk.op == "cat" and bk.a and bk.a[0] is m:
            tail = cat(*bk.a[1:])
            if not any(x in subterms(tail) for x in others):
                body, bv = canon(tail)
                out[m] = cat(i2, collect_of(body, a, b, bv, stp))
                continue
        if bk.op == "cat" and bk.a and bk.a[-1] is m:
            tail = cat(*bk.a[:-1])
            if not any(x in subterms(tail) for x in others):
                body, bv = canon(tail)
                out[m] = cat(collect_of(body, a, b, bv, -stp), i2)
                continue
        if bk.op in ("min", "max") and m in bk.a:
            rest = [x for x in bk.a if x is not m]
            if not any(o in subterms(x) for x in rest for o in others):
                body, bv = canon(minmax(bk.op, *rest))
                out[m] = minmax(bk.op, i2, mk("big" + bk.op, body, a, b, bv, ty=i2.ty))
                continue
        # generic fold
        if any(x in subterms(bk) for x in others if x is not m): continue
        acc = mk("accvar", 1 + max([x.a[0] for x in subterms(bk) if x.op == "accvar"] or [-1]), ty=m.ty)
        body, bv = canon(subst(bk, {m: acc}))
        out[m] = mk("fold", i2, body, a, b, k(stp), bv, acc, ty=m.ty)
    return out

def common_prefix(t, m):
    """t == cat(m, r): r, looking through gates"""
    if t is m: return EMPTY
    if t.op == "gamma":
        a, b = common_prefix(t.a[1], m), common_prefix(t.a[2], m)
        return None if a is None or b is None else gamma(t.a[0], a, b)
    if t.op == "cat" and t.a and t.a[0] is m: return cat(*t.a[1:])
    return None

def sum_of(body, a, b, bv):
    if bv not in subterms(body):
        return mul(body, sub(b, a))
    c, m = lin_parts(body)
    if len(m) > 1 or c:
        return add(mul(k(c), sub(b, a)), *[scale(sum_of(t, a, b, bv), n) for t, n in m.items()])
    (t, n), = m.items()
    return scale(mk("sum", t, a, b, bv, ty=("int", False, 64)), n)

def collect_of(body, a, b, bv, stp):
    """concatenation of body(i) for i in a..b"""
    if body.op == "unit":
        e = body.a[0]
        src = e.a[0] if e.op == "idx" and e.a[1] is bv and bv not in subterms(e.a[0]) else None
        if src is not None and stp == 1 and a.op == "k" and a.a[0] == 0 and b is length(src):
            return src
        if bv not in subterms(e): return rep(e, sub(b, a), body.a[1] == "b")
        return mk("map", mk("range", a, b, k(stp), bv), e, body.a[1], ty="seq")
    if body.op == "bytes" and len(body.a[0]) == 1: return rep(k(body.a[0][0]), sub(b, a), True)
    return mk("catmap", mk("range", a, b, k(stp), bv), body, ty="seq")

def chained(I, st, x, y):
    """two slices read one after the other are the slice of their concatenation"""
    if not all(z.op == "agg" and z.a[0] == "it.slice" for z in (x, y)): return None
    if any(isinstance(z.a[2][3].a[0], tuple) for z in (x, y)): return None
    cs = []
    for z in (x, y):
        v = st.simp(I.load(st, z.a[2][0]))
        if not is_seqlike(v) and v.ty != "seq": return None
        cs.append(slice_(v, z.a[2][1], z.a[2][2]))
    c = cat(*cs)
    root = ("O", ("chained", c))
    st = st.copy(); st.mem[root] = c
    return st, A("slice", ref(root), k(0), length(c), x.a[2][3])

# ---------------------------------------------------------------- dispatch
def opt_out(outs):
    return [(s, NONE if x is None else some(x)) for s, x in outs]

def dispatch(I, st, c):
    p, r = c.path, c.res
    m = lastseg(p)
    if p == "core::iter::traits::collect::Extend::extend":
        d = strip(I, c.tys[0])[1]
        if d["k"] != "adt": return None
        an = d["adt"]
        itv = st.simp(c.args[1])
        if not (itv.op == "agg" and str(itv.a[0]).startswith("it.")): itv = make_iter(I, st, c.args[1], c.tys[1], c)
        if not (itv.op == "agg" and str(itv.a[0]).startswith("it.")): return None
        ismap, isset = an.endswith("Map"), an.endswith("Set")
        isstr = an == "alloc::string::String"
        if not (ismap or isset or isstr or an in ("alloc::vec::Vec", "smallvec::SmallVec")): return None
        b = isbyte(I, c.tys[0])
        import maps
        def body(s, x, accr):
            s = s.copy()
            if ismap: s.mem[accr] = maps.insert(s.mem[accr], maps.kv(I, s, fld(x, 0, "0"), None), fld(x, 1, "1"))
            elif isset: s.mem[accr] = maps.insert(s.mem[accr], maps.kv(I, s, x, None), UNIT)
            elif isstr:
                y = content(I, s, x)
                if not is_seqlike(y): y = mk("utf8", y, ty="seq")
                s.mem[accr] = cat(s.mem[accr], y)
            else:
                y = s.simp(x)
                if b: y = content(I, s, y)
                s.mem[accr] = cat(s.mem[accr], unit(y, b))
            return [s], []
        if an in ("alloc::vec::Vec", "smallvec::SmallVec"):     # a stretch of a sequence as it is
            w = st.simp(itv); q = w.a[2][0] if w.op == "agg" and w.a[0] == "it.cloned" else w
            f = q.a[2] if q.op == "agg" and q.a[0] in ("it.slice", "it.vec") and (w is not q or b or q.a[0] == "it.vec") else None
            if f is not None:
                s = st.copy()
                data = st.simp(content(I, st, f[0])) if q.a[0] == "it.slice" else f[0]
                if is_seqlike(data):
                    I.store(s, c.args[0], cat(s.simp(I.load(s, c.args[0])), slice_(data, f[1], f[2], s.facts)))
                    return [(s, UNIT)]
        cur = st.simp(I.load(st, c.args[0])) if (ismap or isset) else EMPTY
        fin, early, _, accr = consume(I, st, itv, c.tys[1], c.site, body, acc0=cur, name="extend")
        out = []
        for s in fin:
            s = s.copy(); r = s.mem[accr]
            if not (ismap or isset): r = cat(s.simp(I.load(s, c.args[0])), r)
            I.store(s, c.args[0], r)
            out.append((s, UNIT))
        return out
    # iterator creation
    if p.endswith("IntoIterator::into_iter"):
        if "fn" in c.callee: return None
        return [(st, make_iter(I, st, c.args[0], c.tys[0], c))]
    if m in ("next", "next_back") and (p.startswith(ITER) or p.startswith(DEITER)):
        if "fn" in c.callee:
            v = st.simp(content(I, st, c.args[0]))
            if not (v.op == "agg" and str(v.a[0]).startswith("it.")): return None
        t = I.p.types[c.tys[0]]
        return opt_out(nxt(I, st, I.target_of(st, c.args[0]), t["to"] if t["k"] == "ref" else None, m == "next_back", ("n", c.site)))
    if p.startswith("core::iter::sources::once::once"): return [(st, A("once", some(c.args[0])))]
    if p.startswith("core::iter::sources::empty"): return [(st, A("once", NONE))]
    if p.startswith("core::iter::sources::repeat_n"): return [(st, A("take", A("repeat", c.args[0]), c.args[1], k(-1)))]
    if p == "core::iter::sources::repeat::repeat": return [(st, A("repeat", c.args[0]))]
    if p == "core::iter::sources::repeat_with::repeat_with": return [(st, A("map", A("repeat", UNIT), c.args[0], k(-2)))]
    if p.endswith("Peekable::peek"):
        tgt = I.target_of(st, c.args[0])
        v = st.simp(I.tload(st, tgt))
        if v.op != "agg" or v.a[0] != "it.peek": return None
        inner, t, pk = v.a[2]
        slot = I.textend(I.textend(I.textend(I.textend(I.textend(tgt, F(2)), ("v", 1, "Some")), ("f", 0, "0", None)), ("v", 1, "Some")), ("f", 0, "0", None))
        if pk.op == "agg" and pk.a[1] == 1 and pk.a[2][0].op == "agg":
            o = pk.a[2][0]
            return [(st, NONE if o.a[1] == 0 else some(I.tref(slot)))]
        out = []
        base = st
        known = pk.op == "agg" and pk.a[1] == 1      # looked at already, with either result
        if pk.op != "agg" or known:
            if not known: NVAR[pk] = 2
            q = st if known else st.assume(isv(pk, 1), True)
            if q is not None:
                o = pk.a[2][0] if known else fld(down(pk, 1, "Some"), 0, "0")
                NVAR[o] = 2
                w = q.assume(isv(o, 1), True)
                if w is not None:
                    w = w.copy(); I.tstore(w, I.textend(tgt, F(2)), some(some(fld(down(o, 1, "Some"), 0, "0"))))
                    out.append((w, some(I.tref(slot))))
                w = q.assume(isv(o, 1), False)
                if w is not None:
                    w = w.copy(); I.tstore(w, I.textend(tgt, F(2)), some(NONE)); out.append((w, NONE))
            if known: return out
            base = st.assume(isv(pk, 1), False)
            if base is None: return out
            base = base.copy(); I.tstore(base, I.textend(tgt, F(2)), NONE)
        for s, x in nxt(I, base, sub_target(I, base, tgt, 0), t.a[0], False, (c.site, "peek")):
            s = s.copy()
            if x is None:
                I.tstore(s, I.textend(tgt, F(2)), some(NONE)); out.append((s, NONE))
            else:
                I.tstore(s, I.textend(tgt, F(2)), some(some(x))); out.append((s, some(I.tref(slot))))
        return out
    if not (p.startswith(ITER) or p.startswith(DEITER) or "exact_size" in p or p.startswith("core::iter")): return None
    if "fn" in c.callee: return None
    if not c.args: return None
    tid = c.tys[0]
    it = c.args[0]
    kt = k(tid) if tid is not None else k(-1)
    if m == "map": return [(st, A("map", it, c.args[1], kt))]
    if m == "flat_map": return [(st, A("flatmap", it, c.args[1], kt))]
    if m == "flatten": return [(st, A("flatmap", it, UNIT, kt))]
    if m == "filter": return [(st, A("filter", it, c.args[1], kt))]
    if m == "filter_map": return [(st, A("filtermap", it, c.args[1], kt))]
    if m == "inspect": return [(st, A("inspect", it, c.args[1], kt))]
    if m == "take_while": return [(st, A("takewhile", it, c.args[1], kt, FALSE))]
    if m == "rev": return [(st, reverse(I, st, it, kt))]
    if m == "map_while": return [(st, A("mapwhile", it, c.args[1], kt))]
    if m == "skip_while": return [(st, A("skipwhile", it, c.args[1], kt, FALSE))]
    if m == "scan": return [(st, A("scan", it, c.args[2], kt, c.args[1]))]
    if m == "step_by": return [(st, A("step", it, c.args[1], kt, FALSE))]
    if m in ("cloned", "copied"): return [(st, A("cloned", it, kt))]
    if m == "enumerate": return [(st, A("enum", it, k(0), kt))]
    if m == "take":
        w = taken(st.simp(it), c.args[1])
        return [(st, w if w is not None else A("take", it, c.args[1], kt))]
    if m == "peekable": return [(st, A("peek", it, kt, NONE))]
    if m == "fuse" or m == "by_ref": return [(st, it)]
    if m == "skip":
        w = advance(I, st, st.simp(it), c.args[1])
        return [(st, w if w is not None else A("skip", it, c.args[1], kt))]
    if m == "chain":
        tb = c.tys[1]
        b = make_iter(I, st, c.args[1], tb)
        both_ = chained(I, st, it, b) if not any(x is not None and 'IterMut' in str(strip(I, x)[1].get('adt')) for x in (tid, tb)) else None
        if both_ is not None: return [both_]
        return [(st, A("chain", it, b, kt, k(tb) if tb is not None else k(-1)))]
    if m == "zip":
        tb = c.tys[1]
        b = make_iter(I, st, c.args[1], tb)
        return [(st, A("zip", it, b, kt, k(tb) if tb is not None else k(-1)))]
    if m == "len":
        v = content(I, st, it)
        if v.op == "agg" and v.a[0] in ("it.slice", "it.vec"): return [(st, sub(v.a[2][2], v.a[2][1]))]
        if v.op == "agg" and v.a[0] == "core::ops::range::Range": return [(st, sub(v.a[2][1], v.a[2][0]))]
        n = iter_len(I, st, it, tid, c.site)
        return n if n is not None else [(st, mk("iterlen", v, ty=("int", False, 63)))]
    if m == "size_hint": return None
    byref = tid is not None and I.p.types[tid]["k"] == "ref" and m in ("any", "all", "find", "position", "nth", "try_for_each", "try_fold", "find_map")
    if byref:
        # operates on the iterator in place: not closed
        v = st.simp(I.load(st, it))
        tid = I.p.types[tid]["to"]
    else: v = it
    site = ("c", c.site)
    if m in ("nth", "nth_back") and (byref or m == "nth_back"):
        if m == "nth_back":
            if tid is None or I.p.types[tid]["k"] != "ref": return None
            v = st.simp(I.load(st, it)); tid = I.p.types[tid]["to"]
        imp = (I.p.types[tid].get("impls") or {}) if tid is not None and tid >= 0 else {}
        w = advance(I, st, v, c.args[1]) if m == "nth" else retreat(I, st, v, c.args[1])
        tgt = I.target_of(st, it)
        if w is not None:
            st = st.copy(); I.tstore(st, tgt, w)
            return opt_out(nxt(I, st, tgt, tid, m == "nth_back", site))
        return None
    if m == "for_each":
        f = c.args[1]
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = f
        def body(s, x, accr): return [s2 for s2, _ in I.call_value(s, ref(froot), [x], (site, "fe"))], []
        fin, _, _, _ = consume(I, st, v, tid, site, body, name="for_each")
        return [(s, UNIT) for s in fin]
    if m == "fold":
        f = c.args[2]
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = f
        def body(s, x, accr):
            out = []
            for s2, y in I.call_value(s, ref(froot), [s.mem[accr], x], (site, "fo")):
                s2 = s2.copy(); s2.mem[accr] = y; out.append(s2)
            return out, []
        fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=c.args[1], name="fold")
        return [(s, s.mem[accr]) for s in fin]
    if m == "reduce":
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = c.args[1]
        def body(s, x, accr):
            cur = s.simp(s.mem[accr])
            out = []
            q = s.assume(cur.a[2][0], False)
            if q is not None: q = q.copy(); q.mem[accr] = agg("optmm", None, [TRUE, x]); out.append(q)
            q = s.assume(cur.a[2][0], True)
            if q is not None:
                for s2, y in I.call_value(q, ref(froot), [cur.a[2][1], x], (site, "rd")):
                    s2 = s2.copy(); s2.mem[accr] = agg("optmm", None, [TRUE, y]); out.append(s2)
            return out, []
        fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=agg("optmm", None, [FALSE, k(0)]), name=m)
        outs = []
        for s in fin:
            a = s.simp(s.mem[accr])
            if a.op != "agg": return None
            outs += fork(I, s, a.a[2][0], lambda q: some(a.a[2][1]), NONE)
        return outs
    if m in ("any", "all"):
        f = c.args[1]
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = f
        want = m == "any"
        if v.op == "agg" and v.a[0] == "it.slice" and v.a[2][1] is k(0):
            q = quantifier(I, st, v, froot, want, site, c)
            if q is not None: return q
        def body(s, x, accr):
            cont, ex = [], []
            for s2, b in I.call_value(s, ref(froot), [x], (site, "an")):
                q = s2.assume(b, want)
                if q is not None: ex.append((q, kb(want)))
                q = s2.assume(b, not want)
                if q is not None: cont.append(q)
            return cont, ex
        fin, early, _, _ = consume(I, st, v, tid, site, body, name=m)
        return [(s, kb(not want)) for s in fin] + early
    if m in ("rfind", "rposition"):
        if tid is None or I.p.types[tid]["k"] != "ref": return None
        v = reverse(I, st, st.simp(I.load(st, it)), k(I.p.types[tid]["to"])); tid = None
        if m == "rposition":
            n = iter_len(I, st, v, None, c.site)
            if n is None or len(n) != 1: return None
            last = sub(n[0][1], k(1))
        m = m[1:]; back = True
    else: back = False
    if m == "find" or m == "position" or m == "find_map":
        f = c.args[1]
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = f
        def body(s, x, accr):
            cont, ex = [], []
            arg = x
            s = s.copy()
            root = ("T", uid(I, c, "fx"))
            if m == "find": s.mem[root] = x; arg = ref(root)
            for s2, b in I.call_value(s, ref(froot), [arg], (site, "fn")):
                if m == "find_map":
                    o = s2.simp(b)
                    if o.op == "agg":
                        (ex.append((s2, o)) if o.a[1] == 1 else cont.append(s2))
                    else:
                        NVAR[o] = 2
                        q = s2.assume(isv(o, 1), True)
                        if q is not None: ex.append((q, o))
                        q = s2.assume(isv(o, 1), False)
                        if q is not None: cont.append(q)
                    continue
                q = s2.assume(b, True)
                if q is not None: ex.append((q, some(x if m == "find" else q.mem[accr])))
                q = s2.assume(b, False)
                if q is not None:
                    if m == "position":
                        q = q.copy(); q.mem[accr] = add(q.mem[accr], k(1))
                    cont.append(q)
            return cont, ex
        fin, early, _, _ = consume(I, st, v, tid, site, body, acc0=k(0) if m == "position" else None, name=m)
        if back and m == "position": early = [(s, some(sub(last, o.a[2][0]))) for s, o in early]
        return [(s, NONE) for s in fin] + early
    if m in ("try_for_each", "try_fold"):
        d = I.p.types[c.dty] if c.dty is not None else {"k": "?"}
        if d.get("adt") not in (M.RES, M.OPT): return None
        good = 0 if d["adt"] == M.RES else 1
        name = "Ok" if good == 0 else "Some"
        f = c.args[-1]
        froot = ("T", uid(I, c, "f")); st = st.copy(); st.mem[froot] = f
        def body(s, x, accr):
            cont, ex = [], []
            for s2, o in I.call_value(s, ref(froot), [x] if m == "try_for_each" else [s.mem[accr], x], (site, "tf")):
                o = s2.simp(o)
                if o.op == "agg":
                    if o.a[1] == good:
                        s2 = s2.copy(); s2.mem[accr] = o.a[2][0]; cont.append(s2)
                    else: ex.append((s2, o))
                    continue
                NVAR[o] = 2
                q = s2.assume(isv(o, good), True)
                if q is not None:
                    q = q.copy(); q.mem[accr] = fld(down(o, good, name), 0, "0"); cont.append(q)
                q = s2.assume(isv(o, good), False)
                if q is not None: ex.append((q, NONE if good else err(fld(down(o, 1, "Err"), 0, "0"))))
            return cont, ex
        fin, early, _, accr = consume(I, st, v, tid, site, body, acc0=c.args[1] if m == "try_fold" else UNIT, name=m)
        return [(s, (ok if good == 0 else some)(s.mem[accr])) for s in fin] + early
    if m == "partition":
        d = I.p.types[c.dty] if c.dty is not None else {"k": "?"}
        ts = d.get("args") or d.get("elems") or []
        if not ts or I.p.types[ts[0]].get("adt") != "alloc::vec::Vec": return None
        b = isbyte(I, ts[0])
        froot = ("T", uid(I, c, "f")); xroot = ("T", uid(I, c, "fx")); st = st.copy(); st.mem[froot] = c.args[1]
        def body(s, x, accr):
            s = s.copy(); s.mem[xroot] = x; out = []
            for s2, y in I.call_value(s, ref(froot), [ref(xroot)], (site, "pt")):
                for pol in (True, False):
                    q = s2.assume(y, pol)
                    if q is None: continue
                    q = q.copy(); q.mem.pop(xroot, None)
                    l, r = fld(q.mem[accr], 0, "0"), fld(q.mem[accr], 1, "1")
                    u = unit(x, b)
                    q.mem[accr] = agg("()", None, [cat(l, u), r] if pol else [l, cat(r, u)])
                    out.append(q)
            return out, []
        fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=agg("()", None, [EMPTY, EMPTY]), name=m)
        return [(s, s.mem[accr]) for s in fin]
    if m == "unzip":
        d = I.p.types[c.dty] if c.dty is not None else {"k": "?"}
        ts = d.get("args") or d.get("elems") or []
        if len(ts) != 2 or any(I.p.types[t].get("adt") != "alloc::vec::Vec" for t in ts): return None
        bs = [isbyte(I, t) for t in ts]
        def body(s, x, accr):
            s = s.copy(); a = s.mem[accr]
            s.mem[accr] = agg("()", None, [cat(fld(a, i, str(i)), unit(fld(x, i, str(i)), bs[i])) for i in (0, 1)])
            return [s], []
        fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=agg("()", None, [EMPTY, EMPTY]), name=m)
        return [(s, s.mem[accr]) for s in fin]
    if m in ("max_by_key", "min_by_key"):
        froot = ("T", uid(I, c, "f")); xroot = ("T", uid(I, c, "fx")); st = st.copy(); st.mem[froot] = c.args[1]
        def body(s, x, accr):
            s = s.copy(); s.mem[xroot] = x; out = []
            for s2, y in I.call_value(s, ref(froot), [ref(xroot)], (site, "mk")):
                y = content(I, s2, y)
                if not is_intish(y): raise Undecided("largest by a key that is not a number")
                s2 = s2.copy(); s2.mem.pop(xroot, None)
                cur = s2.simp(s2.mem[accr])
                has = cur.a[2][0]
                # the last of the largest, the first of the smallest
                take = le(cur.a[2][1], y) if m == "max_by_key" else lt(y, cur.a[2][1])
                for pol in (True, False):
                    q = s2.assume(has, pol)
                    if q is None: continue
                    if not pol:
                        q = q.copy(); q.mem[accr] = agg("optmm", None, [TRUE, y, x]); out.append(q); continue
                    w = q.assume(take, True)
                    if w is not None: w = w.copy(); w.mem[accr] = agg("optmm", None, [TRUE, y, x]); out.append(w)
                    w = q.assume(take, False)
                    if w is not None: out.append(w)
            return out, []
        try: fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=agg("optmm", None, [FALSE, k(0), UNIT]), name=m)
        except Undecided: return None
        outs = []
        for s in fin:
            a = s.simp(s.mem[accr])
            if a.op != "agg": return None
            outs += fork(I, s, a.a[2][0], lambda q: some(a.a[2][2]), NONE)
        return outs
    if m == "product":
        def body(s, x, accr):
            s = s.copy(); s.mem[accr] = mul(s.mem[accr], content(I, s, x)); return [s], []
        fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=k(1), name=m)
        return [(s, s.mem[accr]) for s in fin]
    if m in ("sum", "count", "collect", "last", "product") or m in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
        if m == "count":
            def body(s, x, accr):
                s = s.copy(); s.mem[accr] = add(s.mem[accr], k(1)); return [s], []
            fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=k(0), name=m)
            return [(s, s.mem[accr]) for s in fin]
        if m == "sum":
            def body(s, x, accr):
                s = s.copy()
                x = content(I, s, x)
                s.mem[accr] = add(s.mem[accr], x); return [s], []
            fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=k(0), name=m)
            return [(s, s.mem[accr]) for s in fin]
        if m == "last":
            def body(s, x, accr):
                s = s.copy(); s.mem[accr] = some(x); return [s], []
            fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=NONE, name=m)
            return [(s, s.mem[accr]) for s in fin]
        if m in ("max", "min"):
            def body(s, x, accr):
                s = s.copy()
                cur = s.simp(s.mem[accr])
                xv = content(I, s, x)
                if not is_intish(xv): raise Undecided("min/max of non-integers")
                if cur.op == "agg" and cur.a[1] == 0: s.mem[accr] = agg("optmm", None, [TRUE, xv])
                else: s.mem[accr] = agg("optmm", None, [TRUE, gamma(cur.a[2][0], minmax(m, cur.a[2][1], xv), xv)])
                return [s], []
            try:
                fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=agg("optmm", None, [FALSE, k(0)]), name=m)
            except Undecided: return None
            outs = []
            for s in fin:
                a = s.mem[accr]
                outs += fork(I, s, a.a[2][0], lambda q: some(a.a[2][1]), NONE)
            return outs
        if m == "collect":
            d = I.p.types[c.dty] if c.dty is not None else {"k": "?"}
            if d["k"] == "adt" and (d["adt"] in ("alloc::vec::Vec", "alloc::string::String") or (d["adt"] == "alloc::boxed::Box" and I.p.types[d["args"][0]]["k"] in ("slice", "str"))):
                isstr = d["adt"] == "alloc::string::String" or (d["adt"].endswith("Box") and I.p.types[d["args"][0]]["k"] == "str")
                b = isbyte(I, c.dty)
                itemty = None
                def body(s, x, accr):
                    s = s.copy()
                    if isstr:
                        y = content(I, s, x)
                        if not is_seqlike(y): y = mk("utf8", y, ty="seq")
                    else: y = unit(x, b)
                    s.mem[accr] = cat(s.mem[accr], y); return [s], []
                fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=EMPTY, name=m)
                out = []
                for s in fin:
                    r = s.mem[accr]
                    if d["adt"].endswith("Box"):
                        s = s.copy(); root = ("O", uid(I, c, "cbox")); s.mem[root] = r; r = ref(root)
                    out.append((s, r))
                return out
            if d["k"] == "adt" and d["adt"].endswith(("HashMap", "BTreeMap")):
                import maps
                def body(s, x, accr):
                    s = s.copy()
                    s.mem[accr] = maps.insert(s.mem[accr], maps.kv(I, s, fld(x, 0, "0"), None), fld(x, 1, "1")); return [s], []
                fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=maps.empty(I, c), name=m)
                return [(s, s.mem[accr]) for s in fin]
            if d["k"] == "adt" and d["adt"].endswith(("HashSet", "BTreeSet")):
                import maps
                def body(s, x, accr):
                    s = s.copy()
                    s.mem[accr] = maps.insert(s.mem[accr], maps.kv(I, s, x, None), UNIT); return [s], []
                fin, _, _, accr = consume(I, st, v, tid, site, body, acc0=maps.empty(I, c), name=m)
                return [(s, s.mem[accr]) for s in fin]
            if d["k"] == "adt" and d["adt"] in (M.RES, M.OPT):
                inner = I.p.types[d["args"][0]]
                good = 0 if d["adt"] == M.RES else 1
                gname = "Ok" if good == 0 else "Some"
                if inner["k"] == "adt" and inner["adt"] == "alloc::vec::Vec":
                    b = isbyte(I, d["args"][0])
                    def body(s, x, accr):
                        x = s.simp(x)
                        cont, ex = [], []
                        if x.op == "agg":
                            if x.a[1] == good:
                                s = s.copy(); s.mem[accr] = cat(s.mem[accr], unit(x.a[2][0], b)); return [s], []
                            return [], [(s, x)]
                        NVAR[x] = 2
                        q = s.assume(isv(x, good), True)
                        if q is not None:
                            q = q.copy(); q.mem[accr] = cat(q.mem[accr], unit(fld(down(x, good, gname), 0, "0"), b)); cont.append(q)
                        q = s.assume(isv(x, good), False)
                        if q is not None: ex.append((q, NONE if good else err(fld(down(x, 1, "Err"), 0, "0"))))
                        return cont, ex
                    fin, early, _, accr = consume(I, st, v, tid, site, body, acc0=EMPTY, name=m)
                    return [(s, some(s.mem[accr]) if good else ok(s.mem[accr])) for s in fin] + early
        if m in ("max_by_key", "min_by_key", "max_by", "min_by", "product"): return None
    return None

EXACT = "core::iter::traits::exact_size::ExactSizeIterator"
def iter_len(I, st, it, tid, site):
    """[(state, number of items left)] of an exact-size iterator (behind any references), or None"""
    v = st.simp(it)
    for _ in range(4):
        t = I.p.types[tid] if tid is not None and tid >= 0 else None
        if v.op != "ref" or (t is not None and t["k"] != "ref"): break
        if t is not None: tid = t["to"]
        it = v; v = st.simp(I.load(st, v))
    if v.op == "agg":
        f = v.a[2]; n = str(v.a[0])
        if n in ("it.slice", "it.vec", "it.rchunk"): return [(st, sub(f[2], f[1]))]
        if n == "it.chunks": return [(st, div(add(sub(length(I.load(st, f[0])), f[1]), sub(f[2], k(1))), f[2]))]
        if n == "core::ops::range::Range": return [(st, minmax("max", k(0), sub(f[1], f[0])))]
        if n in ("it.map", "it.cloned", "it.rev", "it.enum", "it.inspect"):
            kt = {"it.map": 2, "it.inspect": 2, "it.enum": 2}.get(n, 1)
            tt = f[kt].a[0]
            return iter_len(I, st, f[0], tt if isinstance(tt, int) and tt >= 0 else None, site)
    t = I.p.types[tid] if tid is not None and tid >= 0 else None
    imp = (t or {}).get("impls") or {}
    if it.op == "ref": r = it
    else:
        r = ref(("T", I.cp(I.stack[-1].cp if I.stack else 0, ("len", site))))
        st = st.copy(); st.mem[r.a[0]] = it
    if EXACT in imp and "len" in imp[EXACT]: return I.call_fn(I.p.fns[imp[EXACT]["len"]], [r], st, (site, "len"))
    if ITER in imp and "size_hint" in imp[ITER]:
        out = []
        for s, h in I.call_fn(I.p.fns[imp[ITER]["size_hint"]], [r], st, (site, "hint")) or []:
            out.append((s, fld(h, 0, "0")))
        return out
    return None

def quantifier(I, st, itv, froot, want, site, c):
    """any/all over a whole slice with a pure predicate: a quantified condition"""
    src, lo, hi, et = itv.a[2]
    seq = st.simp(I.load(st, src))
    qi = mk("qix", len(I.stack), ty=("int", False, 64))
    x = I.tref(I.textend(I.target_of(st, src), ("ix", qi, elem_tyinfo(I, et.a[0]))))
    np = len(I.panics)
    outs = I.call_value(st, ref(froot), [x], (site, "qf"))
    if not outs or len(I.panics) != np: return None
    try:
        s0 = I.join([o[0].copy() for o in outs], ("q", site)) if len(outs) > 1 else outs[0][0]
    except Exception:
        return None
    # the predicate's value as a function of the element
    val = None
    states = []
    for s, b in outs:
        s = s.copy(); s.mem[("T", "qv")] = b; states.append(s)
    j = I.join(states, ("q2", site)) if len(states) > 1 else states[0]
    pv = j.mem[("T", "qv")]
    if "phi" in ops_in(pv): return None
    # no side effects allowed
    for r, v in j.mem.items():
        if r == ("T", "qv"): continue
        if r in st.mem and st.mem[r] is not v: return None
    bv = bindvar(pv)
    pv = subst(pv, {qi: bv})
    cond = mk("exists_i", pv if want else not_(pv), lo, hi, bv, ty="bool")
    r = cond if want else not_(cond)
    out = []
    for pol in (True, False):
        s = st.assume(cond, pol)
        if s is not None: out.append((s, kb(pol if want else not pol)))
    return out
