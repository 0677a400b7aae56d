"""Serialization as a value: what a value becomes when serde's data model is JSON.
Derived and hand-written Serialize implementations of the workspace are analysed as they are."""
from terms import *
import models as M
import iters
SER = agg("spec.Ser", None, [])
RES = "core::result::Result"
S = "serde_core::ser::"
def ok(x): return agg(RES, 0, [x])
def J(n, *a): return agg("spec.J" + n, None, list(a))
def isagg(v, n): return v.op == "agg" and v.a[0] == n
STRS = ("alloc::string::String", "alloc::borrow::Cow", "std::path::PathBuf")
MAPS = ("HashMap", "BTreeMap", "IndexMap")
SEQS = ("alloc::vec::Vec",)
VALUE = "serde_json::value::Value"

def serialize(I, st, v, tid, site):
    """-> [(state, JSON value)] or None"""
    for _ in range(6):
        t = I.p.types[tid]
        if t["k"] == "ref" or t.get("adt") == "alloc::boxed::Box":
            nt = t["to"] if t["k"] == "ref" else t["args"][0]
            if I.p.types[nt]["k"] in ("str",): break
            w = st.simp(v)
            if w.op == "ref": w = I.load(st, w)
            v, tid = w, nt
        else: break
    v = st.simp(v)
    kd = t["k"]
    if v.op == "agg" and str(v.a[0]).startswith("spec.J"): return [(st, v)]
    if v.op == "gamma" and kd not in ("int", "uint", "bool", "str", "ref") and t.get("adt") not in STRS:
        out = []
        for pol in (True, False):
            s = st.assume(v.a[0], pol)
            if s is not None:
                r = serialize(I, s, v.a[1] if pol else v.a[2], tid, (site, pol))
                if r is None: return None
                out += r
        return out
    if kd in ("int", "uint"): return [(st, J("Num", v))]
    if kd == "bool": return [(st, J("Bool", v))]
    if kd == "float": return [(st, J("Float", v))]
    if kd == "str" or (kd == "ref" and I.p.types[t["to"]]["k"] == "str"): return [(st, J("Str", M.content(I, st, v)))]
    a = t.get("adt", "")
    if a in STRS: return [(st, J("Str", M.content(I, st, v)))]
    if kd == "tuple" and not t.get("elems"): return [(st, J("Null"))]
    if a == "core::option::Option":
        if v.op == "agg":
            if v.a[1] == 0: return [(st, J("Null"))]
            return serialize(I, st, v.a[2][0], t["args"][0], (site, "some"))
        NVAR[v] = 2
        out = []
        q = st.assume(isv(v, 1), True)
        if q is not None:
            r = serialize(I, q, fld(down(v, 1, "Some"), 0, "0"), t["args"][0], (site, "some"))
            if r is None: return None
            out += r
        q = st.assume(isv(v, 1), False)
        if q is not None: out.append((q, J("Null")))
        return out
    if a == VALUE and v.op == "agg":
        n = v.a[1]
        if n is None:
            x = st.simp(v.a[2][0]) if v.a[2] else None
            if x is not None and x.op == "agg" and str(x.a[0]).startswith("spec.J"): return [(st, x)]
            return None
        if n == 0: return [(st, J("Null"))]
        if n == 1: return [(st, J("Bool", v.a[2][0]))]
        x = st.simp(v.a[2][0])
        if n == 3: return [(st, J("Str", M.content(I, st, x)))]
        if n == 5 and isagg(x, "spec.JObj"): return [(st, x)]
        if n == 4: return seq_of(I, st, x, None, site)
        return None
    if any(a.endswith("::" + m) for m in MAPS): return [(st, J("Map", M.content(I, st, v)))]
    if a in SEQS or kd in ("slice", "array"):
        el = t["args"][0] if a in SEQS else t.get("elem", t.get("to"))
        return seq_of(I, st, M.content(I, st, v), el, site)
    imp = (t.get("impls") or {}).get(S + "Serialize") or {}
    if "serialize" in imp:
        root = ("T", I.cp(I.stack[-1].cp if I.stack else 0, ("ser", site)))
        st = st.copy(); st.mem[root] = v
        r = I.call_fn(I.p.fns[imp["serialize"]], [ref(root), SER], st, (site, "ser"))
        if r is None: return None
        out = []
        for s, x in r:
            x = s.simp(x)
            if isagg(x, RES) and x.a[1] == 0: out.append((s, x.a[2][0]))
            elif isagg(x, RES): out.append((s, J("Fail")))
            else: out.append((s, J("Unknown", x)))
        return out
    return [(st, J("Unknown", v))]

def seq_of(I, st, v, el, site):
    if v is EMPTY: return [(st, J("Arr", EMPTY))]
    if el is None: return None
    it = agg("it.vec", None, [v, k(0), length(v), k(el)])
    bad = []
    def body(s, x, accr):
        out = []
        r = serialize(I, s, x, el, (site, "el"))
        if r is None: bad.append(1); return [s], []
        for s2, j in r:
            s2 = s2.copy(); s2.mem[accr] = cat(s2.mem[accr], unit(j)); out.append(s2)
        return out, []
    fin, early, _, accr = iters.consume(I, st, it, None, (site, "seq"), body, acc0=EMPTY, name="ser")
    if bad: return None
    return [(s, J("Arr", s.mem[accr])) for s in fin] + [(s, v) for s, v in early]

def deref(I, st, v):
    for _ in range(4):
        v = st.simp(v)
        if v.op != "ref": return v
        v = I.load(st, v)
    return v

def install(I, writer=None):
    """writer(I, st, target, data, call) -> [(state, io result)] for what a serde_json::Serializer writes"""
    O = I.overrides
    isser = lambda st, v: isagg(deref(I, st, v), "spec.Ser")
    # the serializer of a value
    def struct(I, st, c): return [(st, ok(J("Obj", EMPTY)))] if isser(st, c.args[0]) else None
    O[S + "Serializer::serialize_struct"] = struct
    def field(I, st, c):
        v = st.simp(I.load(st, c.args[0])) if st.simp(c.args[0]).op == "ref" else None
        if v is None or not isagg(v, "spec.JObj"): return None
        r = serialize(I, st, c.args[2], c.tys[2], c.site)
        if r is None: return None
        out = []
        for s, j in r:
            s = s.copy(); v = s.simp(I.load(s, c.args[0]))
            I.store(s, c.args[0], J("Obj", cat(v.a[2][0], unit(J("KV", M.content(I, s, c.args[1]), j))))); out.append((s, ok(UNIT)))
        return out
    O[S + "SerializeStruct::serialize_field"] = field
    def skip(I, st, c): return [(st, ok(UNIT))]
    O[S + "SerializeStruct::skip_field"] = skip
    def end(I, st, c):
        v = st.simp(c.args[0])
        return [(st, ok(v))] if v.op == "agg" and str(v.a[0]).startswith("spec.J") and v.a[0] != "spec.JsonSeq" else None
    O[S + "SerializeStruct::end"] = end
    def prim(kd):
        def f(I, st, c):
            if not isser(st, c.args[0]): return None
            return [(st, ok(J(kd, M.content(I, st, c.args[1]) if kd == "Str" else st.simp(c.args[1]))))]
        return f
    for n in ("u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"): O[S + "Serializer::serialize_" + n] = prim("Num")
    for n in ("f32", "f64"): O[S + "Serializer::serialize_" + n] = prim("Float")
    O[S + "Serializer::serialize_bool"] = prim("Bool")
    O[S + "Serializer::serialize_str"] = prim("Str")
    def uvar(I, st, c): return [(st, ok(J("Str", M.content(I, st, c.args[3]))))] if isser(st, c.args[0]) else None
    O[S + "Serializer::serialize_unit_variant"] = uvar
    def none(I, st, c): return [(st, ok(J("Null")))] if isser(st, c.args[0]) else None
    for n in ("none", "unit", "unit_struct"): O[S + "Serializer::serialize_" + n] = none
    def inner(i):
        def f(I, st, c):
            if not isser(st, c.args[0]): return None
            r = serialize(I, st, c.args[i], c.tys[i], c.site)
            return None if r is None else [(s, ok(j)) for s, j in r]
        return f
    O[S + "Serializer::serialize_some"] = inner(1)
    O[S + "Serializer::serialize_newtype_struct"] = inner(2)
    def valser(I, st, c):
        """x.serialize(serializer)"""
        if len(c.args) < 2 or not isser(st, c.args[1]): return None
        r = serialize(I, st, c.args[0], c.tys[0], c.site)
        return None if r is None else [(s, ok(j)) for s, j in r]
    O[S + "Serialize::serialize"] = valser
    # values built by hand
    def tovalue(I, st, c):
        r = serialize(I, st, c.args[0], c.tys[0], c.site)
        return None if r is None else [(s, ok(j)) for s, j in r]
    O["serde_json::value::to_value"] = O["serde_json::to_value"] = tovalue
    def mapnew(I, st, c): return [(st, J("Obj", EMPTY))]
    for n in ("new", "with_capacity"): O["serde_json::map::Map::" + n] = mapnew
    def mapins(I, st, c):
        v = deref(I, st, c.args[0])
        if not isagg(v, "spec.JObj"): return None
        r = serialize(I, st, c.args[2], c.tys[2], c.site)
        if r is None: return None
        out = []
        for s, j in r:
            s = s.copy(); I.store(s, c.args[0], J("Obj", cat(v.a[2][0], unit(J("KV", M.content(I, s, c.args[1]), j)))))
            out.append((s, mk("opaque", "Map::insert", v, ty=None)))
        return out
    O["serde_json::map::Map::insert"] = mapins
    if writer is None: return
    def newser(I, st, c): return [(st, agg("spec.JsonSer", None, [c.args[0]]))]
    for n in ("new", "pretty", "with_formatter"): O["serde_json::ser::Serializer::" + n] = newser
    def sink(st, r):
        """reference to the writer of a serializer"""
        for _ in range(4):
            v = st.simp(I.load(st, r))
            if v.op == "ref": r = v
            elif isagg(v, "spec.JsonSer"): return I.tref(I.textend(I.target_of(st, r), ("f", 0, None, None)))
            else: return None
    def seq(I, st, c):
        v = st.simp(c.args[0])
        if v.op != "ref": return None
        w = sink(st, v)
        if w is None: return None
        return [(s, ok(agg("spec.JsonSeq", None, [v])) if o.a[1] == 0 else o) for s, o in writer(I, st, w, unit(J("Open")), c)]
    O[S + "Serializer::serialize_seq"] = seq
    def of(st, v):
        v = deref(I, st, v)
        return sink(st, v.a[2][0]) if isagg(v, "spec.JsonSeq") else None
    def element(I, st, c):
        w = of(st, c.args[0])
        if w is None: return None
        r = serialize(I, st, c.args[1], c.tys[1], c.site)
        if r is None: return None
        out = []
        for s, j in r: out += writer(I, s, w, unit(agg("spec.Jsontext", None, [j])), c)
        return out
    O[S + "SerializeSeq::serialize_element"] = element
    def send(I, st, c):
        w = of(st, c.args[0])
        return None if w is None else writer(I, st, w, unit(J("Close")), c)
    O[S + "SerializeSeq::end"] = send
    def into(I, st, c):
        v = st.simp(c.args[0])
        return [(st, v.a[2][0])] if isagg(v, "spec.JsonSer") else None
    O["serde_json::ser::Serializer::into_inner"] = into

class Bad(Exception): pass
def value(v):
    """a Python value from an evaluated JSON value; Bad if not known"""
    if not (isinstance(v, tuple) and v[:1] == ("agg",)): raise Bad
    n = v[1]
    if n == "spec.JNull": return None
    if n in ("spec.JNum", "spec.JBool", "spec.JFloat"):
        if not isinstance(v[3], (int, float)): raise Bad
        return v[3]
    if n == "spec.JStr": return txt(v[3])
    if n == "spec.JObj":
        d = {}
        for x in v[3]:
            kx = txt(x[3])
            if kx in d: return ("duplicate key", kx)
            d[kx] = value(x[4])
        return d
    if n == "spec.JArr": return [value(x) for x in v[3]]
    if n == "spec.JMap":
        m = v[3]
        if getattr(m, "base", 0) is not None: raise Bad
        d = {}
        for a, b in m.over.items():
            if isinstance(b, str): continue
            d[txt(a)] = txt(b) if isinstance(b, (bytes, tuple)) and b[:1] != ("agg",) else b
        return d
    raise Bad
def txt(v):
    if isinstance(v, tuple) and v[:1] == ("agg",):
        if len(v) == 4: return txt(v[3])
        raise Bad
    try: return bytes(v).decode()
    except (TypeError, ValueError): raise Bad
def document(v):
    """an array written element by element -> list of values; None if not known; False if not one complete array"""
    if not isinstance(v, tuple) or v[:1] == ("agg",): return None
    tag = [x[1] if isinstance(x, tuple) and x[:1] == ("agg",) else None for x in v]
    if len(tag) < 2 or tag[0] != "spec.JOpen" or tag[-1] != "spec.JClose" or any(t != "spec.Jsontext" for t in tag[1:-1]): return False
    try: return [value(x[3]) for x in v[1:-1]]
    except Bad: return None
