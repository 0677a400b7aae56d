"""Models of hash maps and tree maps: a map is a value; an entry is a place in it."""
from terms import *
import terms
import interp as IP
from interp import NVAR
import models as M
from models import some, NONE, lastseg, strip, content, fork, uid

def has(m, key):
    if m.op == "mapE": return FALSE
    if m.op == "mapins":
        if m.a[1] is key: return TRUE
        e = eq(m.a[1], key)
        if e is FALSE: return has(m.a[0], key)
        if e is TRUE: return TRUE
    if m.op == "mapdel":
        if m.a[1] is key: return FALSE
        if eq(m.a[1], key) is FALSE: return has(m.a[0], key)
    if m.op == "gamma": return gamma(m.a[0], has(m.a[1], key), has(m.a[2], key))
    return mk("maphas", m, key, ty="bool")

def val(m, key, ty=None):
    if m.op == "mapins":
        if m.a[1] is key: return m.a[2]
        if eq(m.a[1], key) is FALSE: return val(m.a[0], key, ty)
    if m.op == "mapdel" and eq(m.a[1], key) is FALSE: return val(m.a[0], key, ty)
    if m.op == "gamma":
        if m.a[1].op == "mapE": return val(m.a[2], key, ty)
        if m.a[2].op == "mapE": return val(m.a[1], key, ty)
        return gamma(m.a[0], val(m.a[1], key, ty), val(m.a[2], key, ty))
    return mk("mapval", m, key, ty=ty)

def insert(m, key, v):
    if m.op == "mapins" and m.a[1] is key: m = m.a[0]
    if m.op == "gamma":
        a, b = m.a[1], m.a[2]
        if a.op == "mapins" and a.a[1] is key and a.a[0] is b: m = b
        elif b.op == "mapins" and b.a[1] is key and b.a[0] is a: m = a
    if v.op == "mapval" and v.a[0] is m and v.a[1] is key: return m
    return mk("mapins", m, key, v)

def delete(m, key):
    if m.op == "mapins" and m.a[1] is key: return delete(m.a[0], key)
    if m.op == "mapE": return m
    return mk("mapdel", m, key)

_old_gamma = terms.gamma
def gamma_hook(c, x, y):
    return None

def keyof(I, st, v, tid): return content(I, st, v, tid)

def vty(I, tid):
    t = strip(I, tid)[1]
    return I.p.tyinfo(t["args"][1]) if len(t.get("args", [])) > 1 else None

def ent_ref(I, st, mref, key, ty): return I.tref(I.textend(I.target_of(st, mref), ("mk", key, ty)))

def index(I, st, c):
    m = st.simp(content(I, st, c.args[0])); key = keyof(I, st, c.args[1], c.tys[1])
    s = st.assume(has(m, key), True)
    if s is None:
        I.panic(st, "map-index", "missing key"); return []
    return [(s, ent_ref(I, s, c.args[0], key, vty(I, c.tys[0])))]

def kv(I, st, v, tid):
    """a key as stored: below references (maps compare what keys refer to)"""
    v = st.simp(v)
    t = I.p.types[tid] if tid is not None else None
    if v.op == "ref" or v.ty == "ref" or t is not None and t["k"] == "ref": return content(I, st, v, tid)
    return v

def empty(I, c):
    """an empty map; an ordered one knows that it is"""
    t = strip(I, c.dty)[1] if c.dty is not None else {}
    return mk("mapE", "bt") if "BTree" in str(t.get("adt")) else mk("mapE")

def emptied(I, tid):
    return mk("mapE", "bt") if "BTree" in str(strip(I, tid)[1].get("adt")) else mk("mapE")

def dispatch(I, st, c):
    p, r = c.path, c.res
    m = lastseg(p)
    owner = p.rsplit("::", 2)[-2] if p.count("::") > 1 else ""
    if m in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "default") and ("Map" in p or "Set" in p): return [(st, empty(I, c))]
    if p == "core::default::Default::default" and ("Map" in r or "Set" in r): return [(st, empty(I, c))]
    if owner in ("HashMap", "BTreeMap", "HashSet", "BTreeSet"):
        isset = owner.endswith("Set")
        t0 = c.tys[0]
        if m == "entry":
            key = kv(I, st, c.args[1], c.tys[1])
            cur = st.simp(I.load(st, c.args[0]))
            # which variant it is: the map cannot change while the entry is held
            return [(st, agg("entry", None, [c.args[0], key, mk("vty", vty(I, t0)), has(cur, key), k(0 if owner == "HashMap" else 1)]))]
        if m in ("insert", "replace"):
            s = st.copy()
            cur = s.simp(I.load(s, c.args[0])); key = kv(I, s, c.args[1], c.tys[1])
            h = has(cur, key)
            I.store(s, c.args[0], insert(cur, key, UNIT if isset else c.args[2]))
            if isset: return [(s, not_(h))]
            old = val(cur, key, vty(I, t0))
            I.emit("map-insert", st=s, key=key, has=h, call=c, val=c.args[2])
            return [(s, gamma(h, some(old), NONE))] if h.op == "b" else fork(I, s, h, some(old), NONE)
        if m in ("get", "get_mut"):
            mp = st.simp(I.load(st, M.seqref(I, st, c.args[0], t0))); key = keyof(I, st, c.args[1], c.tys[1])
            return fork(I, st, has(mp, key), lambda s: some(ent_ref(I, s, c.args[0], key, vty(I, t0))), NONE)
        if m in ("contains_key", "contains"):
            mp = content(I, st, c.args[0]); key = keyof(I, st, c.args[1], c.tys[1])
            return [(st, has(mp, key))]
        if m == "remove":
            mp = st.simp(I.load(st, c.args[0])); key = keyof(I, st, c.args[1], c.tys[1])
            v = val(mp, key, vty(I, t0))
            def yes(s): return some(v)
            out = []
            s = st.assume(has(mp, key), True)
            if s is not None:
                s = s.copy(); I.store(s, c.args[0], delete(mp, key)); out.append((s, TRUE if isset else some(v)))
            s = st.assume(has(mp, key), False)
            if s is not None: out.append((s, FALSE if isset else NONE))
            return out
        if owner.startswith("BTree") and m in ("first_key_value", "last_key_value", "pop_first", "pop_last", "first", "last"):
            mp = content(I, st, c.args[0]); n = mk("maplen", mp, ty=("int", False, 63))
            key = mk("mapkey", mp, sub(n, k(1)) if m.endswith("last") or m.startswith("last") else k(0))
            out = []
            s = st.assume(eq(n, k(0)), False)
            if s is not None:
                s = s.assume(has(mp, key), True) or s
                if m.startswith("pop"):
                    s = s.copy(); I.store(s, c.args[0], delete(mp, key))
                    out.append((s, some(key if isset else agg("()", None, [key, val(mp, key, vty(I, t0))]))))
                else:
                    kr = ref(("C", key))
                    out.append((s, some(kr if isset else agg("()", None, [kr, ent_ref(I, s, c.args[0], key, vty(I, t0))]))))
            s = st.assume(eq(n, k(0)), True)
            if s is not None: out.append((s, NONE))
            return out
        if m == "len": return [(st, k(0) if content(I, st, c.args[0]).op == "mapE" else mk("maplen", content(I, st, c.args[0]), ty=("int", False, 63)))]
        if m == "is_empty": return [(st, eq(mk("maplen", content(I, st, c.args[0]), ty=("int", False, 63)), k(0)))]
        if m in ("iter", "keys", "values", "iter_mut", "values_mut"):
            mp = content(I, st, c.args[0])
            kind = "set" if isset else m
            return [(st, agg("it.mapiter", None, [mp, mk("kind", kind), k(0), c.args[0], mk("maplen", mp, ty=("int", False, 63))]))]
        if m in ("into_values", "into_keys", "drain", "into_iter"):
            s = st
            if m == "drain":
                mp = st.simp(I.load(st, c.args[0])); s = st.copy(); I.store(s, c.args[0], emptied(I, t0))
                return [(s, agg("it.mapiter", None, [mp, mk("kind", "into-set" if isset else "drain"), k(0), UNIT, mk("maplen", mp, ty=("int", False, 63))]))]
            return [(st, agg("it.mapiter", None, [c.args[0], mk("kind", m if m != "into_iter" else "into"), k(0), UNIT, mk("maplen", c.args[0], ty=("int", False, 63))]))]
        if m == "clear":
            s = st.copy(); I.store(s, c.args[0], emptied(I, t0)); return [(s, UNIT)]
        if m == "retain" or m == "extend": return None
    if owner in ("OccupiedEntry", "VacantEntry"):
        e = st.simp(c.args[0])
        if e.op == "ref": e = st.simp(I.load(st, e))
        if e.op != "agg" or e.a[0] != "entry": return None
        mref, key, vt = e.a[2][:3]
        cur = st.simp(I.load(st, mref))
        er = ent_ref(I, st, mref, key, vt.a[0])
        if m in ("key", "into_key"): return [(st, ref(("C", key)) if m == "key" else key)]
        if owner == "OccupiedEntry":
            if m in ("get", "get_mut", "into_mut"): return [(st, er)]
            old = val(cur, key, vt.a[0])
            s = st.copy()
            if m == "insert": I.store(s, mref, insert(cur, key, c.args[1])); return [(s, old)]
            if m == "remove": I.store(s, mref, delete(cur, key)); return [(s, old)]
            if m == "remove_entry": I.store(s, mref, delete(cur, key)); return [(s, agg("()", None, [key, old]))]
        elif m in ("insert", "insert_entry"):
            s = st.copy()
            I.emit("map-insert", st=s, key=key, has=FALSE, call=c, val=c.args[1])
            I.store(s, mref, insert(cur, key, c.args[1]))
            return [(s, er if m == "insert" else e)]
        return None
    if owner == "Entry" or "entry::Entry" in p:
        e = st.simp(c.args[0])
        if e.op != "agg" or e.a[0] != "entry": return None
        mref, key, vt = e.a[2][:3]
        ty = vt.a[0]
        cur = st.simp(I.load(st, mref))
        h = has(cur, key)
        er = lambda s: ent_ref(I, s, mref, key, ty)
        if m in ("or_insert", "or_default", "or_insert_with", "or_insert_with_key"):
            d = st.decide(h)
            if d is True: return [(st, er(st))]
            if m == "or_insert": outs = [(st, c.args[1])]
            elif m == "or_default":
                tt = I.p.types[c.dty]["to"] if c.dty is not None else None
                dv = M.default_of(I, st, tt, c)
                if dv is None:
                    imp = (I.p.types[tt].get("impls") or {}).get("core::default::Default")
                    if imp and "default" in imp: outs = I.call_fn(I.p.fns[imp["default"]], [], st, c.site)
                    else: return None
                else: outs = [(st, dv)]
            else:
                s = st.assume(h, False)
                outs = I.call_value(s, c.args[1], [], c.site) if s is not None else []
                res = []
                for s2, v in outs:
                    s2 = s2.copy(); I.store(s2, mref, insert(s2.simp(I.load(s2, mref)), key, v)); res.append((s2, er(s2)))
                s = st.assume(h, True)
                if s is not None: res.append((s, er(s)))
                if len(res) == 2 and res[0][0].held == res[1][0].held:
                    # the entry exists on both sides now
                    j = I.join([s for s, _ in res], ("entry", c.site, I.stack[-1].cp))
                    return [(j, er(j))]
                return res
            res = []
            for s2, v in outs:
                s2 = s2.copy()
                cur2 = s2.simp(I.load(s2, mref))
                I.store(s2, mref, insert(cur2, key, v if d is False else gamma(h, val(cur2, key, ty), v)))
                res.append((s2, er(s2)))
            return res
        if m == "and_modify":
            out = []
            s = st.assume(h, True)
            if s is not None:
                for s2, _ in I.call_value(s, c.args[1], [er(s)], c.site): out.append((s2, e))
            s = st.assume(h, False)
            if s is not None: out.append((s, e))
            if len(out) == 2:
                j = I.join([x for x, _ in out], ("am", c.site, I.stack[-1].cp))
                return [(j, e)]
            return out
        if m == "key": return [(st, ref(("C", key)))]
    return None
