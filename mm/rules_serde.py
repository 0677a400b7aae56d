"""C33: results merged once per label and carried under their own names."""
from rules_account import *
import serial
DE = "serde_core::de::"
RESULTS = ("AnalysisResults", "QueryData", "ArtifactSize")

@rule("C33")
def c33_merge(cx):
    X = Account(cx, PDT + "perform_analysis", "val"); memo = X.memo
    X.jitter = True
    t = cases(X.outs, lambda s, v: s.simp(v), loopfacts=False)
    kw = dict(where=X.where, interp=X.I, fixed=X.fx, total=True, need=200, tries=900)
    A, Q, S = "analyzeme::" + AR, "analyzeme::" + QD, "analyzeme::" + AS
    D = {n: fields(X.P, n) for n in (A, Q, S)}
    def rows(vs, what, name):
        d = unrec(vs[0], A, D[A])
        rs = d and d[what]
        if not isinstance(rs, tuple) or rs[:1] == ("agg",): return None
        rs = [unrec(x, name, D[name]) for x in rs]
        return None if None in rs else rs
    def merged():
        n = [x["label"] for x in memo["e"] if x["m"] == 2 and x["kind"] == SK]
        return (len(n) > len(set(n)), len(set(n)) > 1)
    def sizes(e, vs):
        rs = rows(vs, "artifact_sizes", S)
        if rs is None: return None
        _, want, _ = totals(memo["e"])
        return sorted((text(r["label"]), r["value"]) for r in rs) == sorted((l.decode(), v) for l, v in want.items())
    cx.holds("sizes with the same label add up into one entry, others stay apart", [t], sizes, classes=(lambda e, vs: merged(), {(True, True), (False, True)}), **kw)
    def labels(e, vs):
        rs = rows(vs, "query_data", Q)
        if rs is None: return None
        want, _, _ = totals(memo["e"])
        ls = [text(r["label"]) for r in rs]
        return None if None in ls else sorted(ls) == sorted(l.decode() for l in want)
    cx.holds("every label with recorded data appears exactly once", [t], labels, **kw)

def type_id(P, name):
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t["adt"] == name and t.get("ws"): return i
    raise Undecided("no type " + name)

def json_name(v):
    """(field name, value) pairs of an evaluated JSON object"""
    if not (isinstance(v, tuple) and v[:2] == ("agg", "spec.JObj")): return None
    try: return [(serial.txt(x[3]), x[4]) for x in v[3]]
    except serial.Bad: return None

@rule("C33")
def c33_names(cx):
    P = cx.prog("analyzeme")
    for short in RESULTS:
        name = "analyzeme::analysis::" + short
        names = fields(P, name)
        vals = {n: sym("spec." + n, ty_of(n)) for n in names}
        v = agg(name, None, [vals[n] for n in names])
        # written
        I = cx.interp(P)
        serial.install(I)
        tid = type_id(P, name)
        imp = (P.types[tid].get("impls") or {}).get("serde_core::ser::Serialize") or {}
        if "serialize" not in imp: cx.undecided("%s is written with its fields' names" % short, "no Serialize implementation", "")
        else:
            f = P.fns[imp["serialize"]]; wh = where(f)
            outs = serial.serialize(I, State(), v, tid, 0)
            if outs is None: raise Undecided("how %s is written" % short)
            memo = {}
            def fx(r):
                for n in names: memo[n] = sample_value(r, n, P)
                return {vals[n]: memo[n] for n in names}
            def written(e, vs):
                ps = json_name(vs[0])
                if ps is None: return None
                return sorted(a for a, _ in ps) == sorted(names)
            def same(e, vs):
                ps = json_name(vs[0])
                if ps is None: return None
                for a, b in ps:
                    if a not in memo: continue
                    x = plain_json(b)
                    if x is None: return None
                    if x != plain_value(P, memo[a]): return False
                return True
            t = cases(outs)
            kw = dict(where=wh, interp=I, fixed=fx, total=True, need=40)
            cx.holds("%s is written with its fields' names" % short, [t], written, **kw)
            cx.holds("%s: each name stands for its own value" % short, [t], same, **kw)
        # read
        imp = (P.types[tid].get("impls") or {}).get(DE + "Deserialize") or {}
        c33_read(cx, P, short, name, names)

def ty_of(n): return "seq" if n in ("label", "query_data", "artifact_sizes") else u(64)
def sample_value(r, n, P):
    if n == "label": return r.choice((b"", b"a", b"mir_borrowck", b'"x"'))
    if n == "query_data":
        f = fields(P, "analyzeme::analysis::QueryData")
        return tuple(("agg", "analyzeme::analysis::QueryData", None) + tuple(sample_value(r, x, P) for x in f) for _ in range(r.randrange(3)))
    if n == "artifact_sizes":
        f = fields(P, "analyzeme::analysis::ArtifactSize")
        return tuple(("agg", "analyzeme::analysis::ArtifactSize", None) + tuple(sample_value(r, x, P) for x in f) for _ in range(r.randrange(3)))
    return r.choice((0, 1, 2, r.getrandbits(20), r.getrandbits(40)))

def plain_json(v):
    if isinstance(v, int): return v
    if not (isinstance(v, tuple) and v[:1] == ("agg",)): return None
    n = v[1]
    if n in ("spec.JNum", "spec.JUnknown"): return v[3] if isinstance(v[3], int) else None
    if n == "spec.JStr":
        try: return bytes(v[3])
        except Exception: return None
    if n == "spec.JArr":
        rs = [plain_json(x) for x in v[3]]
        return None if None in rs else rs
    if n == "spec.JObj":
        ps = json_name(v)
        if ps is None: return None
        d = {a: plain_json(b) for a, b in ps}
        return None if None in d.values() or len(d) != len(ps) else d
    return None
def plain_value(P, v):
    if isinstance(v, (int, bytes)): return v
    if v[:1] == ("agg",): return {n: plain_value(P, x) for n, x in zip(fields(P, v[1]), v[3:])}
    return [plain_value(P, x) for x in v]

def read_value(P, I, st, c, x):
    """the value of an entry as the type that is asked for reads it"""
    ts = c.callee.get("targs") or []
    T = P.types[ts[-1]] if ts else {}
    f = next((g for g in P.fns if g["path"] == "<%s as %sDeserialize>::deserialize" % (T.get("adt"), DE) and (P.types[g["locals"][0][0]].get("args") or [None])[0] == ts[-1]), None) if T.get("k") == "adt" and T.get("ws") else None
    if f is None: return [(st, M.ok(x))]
    return I.call_fn(f, [agg("spec.De", None, [x])], st, c.site)

def value_of(P):
    """what the Deserialize implementation of a standard type makes of an entry's value"""
    def de(I, st, c):
        d = st.simp(c.args[0])
        if not (d.op == "agg" and d.a[0] == "spec.De"): return None
        x = d.a[2][0]; T = P.types[P.types[c.dty]["args"][0]]
        if T["k"] in ("int", "uint"): x = cast_int(x, P.tyinfo(P.types[c.dty]["args"][0]))
        elif not (T["k"] == "adt" and T["adt"] in ("alloc::string::String", "alloc::borrow::Cow")): return None
        return [(st, M.ok(x))]
    return de

def c33_read(cx, P, short, name, names, sample=None, want=None):
    sample = sample or sample_value
    FV = "<%s as serde_core::de::Deserialize>::deserialize::__FieldVisitor" % name
    pre = "<%s as serde_core::de::Deserialize>::deserialize::" % name
    fns = {f["path"]: f for f in P.fns.values() if pre in f["path"]} if isinstance(P.fns, dict) else {f["path"]: f for f in P.fns if pre in f["path"]}
    vs_ = [f for p, f in fns.items() if p.endswith("::visit_str")]
    vm = [f for p, f in fns.items() if p.endswith("::visit_map")]
    if len(vs_) != 1 or len(vm) != 1: cx.undecided("%s is read back by its fields' names" % short, "no derived Deserialize implementation found", ""); return
    # name -> key
    keys = {}
    for n in names + ["spec-some-other-name"]:
        I = cx.interp(P)
        outs = I.call_fn(vs_[0], [UNIT, ref(("C", bytes_(n.encode())))], State(), 0)
        if len(outs) != 1: raise Undecided("the key for the name " + n)
        s, v = outs[0]; v = s.simp(v)
        if not (v.op == "agg" and v.a[1] == 0 and v.a[2][0].op == "agg"): 
            keys[n] = None; continue
        f = v.a[2][0]; keys[n] = ("agg", f.a[0], f.a[1])
    ENT = sym("spec.entries", "seq")
    I = cx.interp(P); wh = where(vm[0])
    pos = ("G", "mapaccess")
    def next_key(I, st, c):
        p = st.mem.get(pos, k(0)); out = []
        s = st.assume(lt(p, length(ENT)), True)
        if s is not None:
            s = s.copy(); s.mem[pos] = add(p, k(1))
            out.append((s, M.ok(M.some(fld(index(ENT, p, None, s.facts), 0, "0")))))
        s = st.assume(lt(p, length(ENT)), False)
        if s is not None: out.append((s, M.ok(M.NONE)))
        return out
    def next_value(I, st, c):
        p = st.mem.get(pos, k(0))
        return read_value(P, I, st, c, fld(index(ENT, sub(p, k(1)), None, st.facts), 1, "1"))
    I.overrides[DE + "Deserialize::deserialize"] = value_of(P)
    I.overrides[DE + "MapAccess::next_key"] = next_key
    I.overrides[DE + "MapAccess::next_value"] = next_value
    s0 = State(); s0.mem[pos] = k(0)
    outs = I.call_fn(vm[0], [UNIT, agg("spec.MapAccess", None, [])], s0, 0)
    memo = {}
    def fx(r):
        m = memo; m.clear()
        order = list(names); r.shuffle(order)
        es = []
        for n in order:
            if r.random() < .2: es.append(("agg", "spec.Entry", None, keys["spec-some-other-name"], 7))
            m[n] = sample(r, n, P)
            es.append(("agg", "spec.Entry", None, keys[n] if keys[n] is not None else keys["spec-some-other-name"], m[n]))
            if want: m[n] = want(n, m[n])
        return {ENT: tuple(es)}
    t = cases(outs, lambda s, v: s.simp(v))
    def test(e, vs):
        v = vs[0]
        if not (isinstance(v, tuple) and v[:2] == ("agg", "core::result::Result")): return None
        if v[2] != 0: return False
        d = unrec(v[3], name, names)
        if d is None: return None
        return all(e.eqv(d[n], memo[n]) for n in names)
    cx.holds("%s is read back by its fields' names, each into its own field" % short, [t], test, where=wh, interp=I, fixed=fx, total=True, need=40)
