"""Summaries of public recording-sink operations, used when analysing their
callers: a write appends its bytes to the sink's stream and returns the offset
of the first one.  That the real operations do so is what C01-C03 establish."""
from interp import *
import models as M
SINKT = "measureme::serialization::SerializationSink"

def key_of(I, st, r):
    t = I.target_of(st, r)
    if t[0] != "loc": raise Undecided("which sink is written")
    return (t[1], tuple(e[:2] for e in t[2]))

def base_addr(I, st, r, key):
    v = st.simp(I.load(st, r))
    if v.op == "agg" and any(x.op == "agg" and x.a[0] == "mutex" for x in v.a[2]): return k(0)
    return mk("sinkaddr", ref(key[0], key[1]), ty=("int", False, 63))

def append(I, st, r, data, c):
    key = key_of(I, st, r)
    g = ("G", "stream", key)
    cur = st.mem.get(g, EMPTY)
    b = base_addr(I, st, r, key)
    s = st.copy()
    data = s.simp(data)
    s.mem[g] = cat(cur, data)
    if getattr(I, "count_writes", False):
        n = ("G", "writes", key); s.mem[n] = add(s.mem.get(n, k(0)), k(1))
    addr = add(b, length(cur))
    I.emit("sink-write", sink=key, data=data, st=s, addr=addr, sinkv=I.load(s, r))
    return s, agg("measureme::serialization::Addr", None, [addr])

def write_bytes_atomic(I, st, c):
    data = M.content(I, st, c.args[1], c.tys[1])
    return [append(I, st, c.args[0], data, c)]

def write_atomic(I, st, c):
    n, clo = c.args[1], c.args[2]
    root = ("O", M.uid(I, c, "watom"))
    s = st.copy(); s.mem[root] = mk("rep", k(0), n, "b", ty="seq") if n.op != "k" or n.a[0] else EMPTY
    outs = I.call_value(s, clo, [mk("ref", root, (("sl", k(0), n),))], (c.site, "wa"), c)
    if outs is None: return None
    res = []
    for s2, _ in outs:
        data = s2.mem[root]
        s2 = s2.copy(); del s2.mem[root]
        res.append(append(I, s2, c.args[0], data, c))
    return res

def adapter_sink(I, st, r, tid):
    """reference to the sink behind a std writer view, if tid is one"""
    t = I.p.types[tid]
    if t["k"] != "adt" or not t["adt"].startswith("measureme::serialization::") or "variants" not in t: return None
    fs = t["variants"][0]["f"]
    if len(fs) != 1: return None
    ft = I.p.types[fs[0][1]]
    if ft["k"] != "ref" or I.p.types[ft["to"]].get("adt") != SINKT: return None
    v = st.simp(I.load(st, r))
    return fld(v, 0, fs[0][0])

def install(I):
    I.overrides[SINKT + "::write_bytes_atomic"] = write_bytes_atomic
    I.overrides[SINKT + "::write_atomic"] = write_atomic
    def hook(I, st, r, tid, data, c):
        s = adapter_sink(I, st, r, tid)
        if s is None: return None
        return append(I, st, s, data, c)[0]
    I.write_contract = hook

# ---- summaries of reading operations, each established by its own property
def split_streams(I, st, c):
    return [(st, mk("streams", M.content(I, st, c.args[0], c.tys[0])))]

def table_of(I, st, c):
    """id and table behind a StringRef, as values"""
    v = st.simp(I.load(st, c.args[0])) if c.tys and I.p.types[c.tys[0]]["k"] == "ref" else st.simp(c.args[0])
    if v.op != "agg": return v
    return agg(v.a[0], v.a[1], [st.simp(I.load(st, x)) if x.op == "ref" else x for x in v.a[2]])

def to_string(I, st, c):
    return [(st, mk("text", table_of(I, st, c), ty="seq"))]

def write_to_string(I, st, c):
    t = mk("text", table_of(I, st, c), ty="seq")
    tgt = I.target_of(st, c.args[1])
    s = st.copy()
    cur = s.simp(I.tload(s, tgt))
    I.tstore(s, tgt, cat(cur, t))
    return [(s, UNIT)]

READERS = {"measureme::serialization::split_streams": split_streams,
           "decodeme::stringtable::StringRef::to_string": to_string,
           "decodeme::stringtable::StringRef::write_to_string": write_to_string}
def install_readers(I, *names):
    for p, f in READERS.items():
        if not names or any(p.endswith(n) for n in names): I.overrides[p] = f
