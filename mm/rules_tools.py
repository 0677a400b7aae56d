"""The command line tools, analysed from main: options in, printed text, tables and files out."""
from spec import *
from rules_decode import field
import models as M
from terms import T
import json, random
OUT, ERRS, TABLES = ("G", "stdout"), ("G", "stderr"), ("G", "tables")
RES = "core::result::Result"

def adt(P, name):
    t = next((t for t in P.types if t.get("adt") == name and "variants" in t), None)
    if t is None: raise Missing("type " + name)
    return t

def ok(x): return agg(RES, 0, [x])
def err(x): return agg(RES, 1, [x])

def options(P, name, vals):
    """a value of an options type: vals by (variant and) field name"""
    t = adt(P, name)
    v, d = vals if t.get("enum") else (None, vals)
    i = next((i for i, x in enumerate(t["variants"]) if x["n"] == v), None) if v is not None else 0
    if i is None: raise Missing("subcommand %s of %s" % (v, name))
    fs = []
    for n, tid, *_ in t["variants"][i]["f"]:
        if n in d: x = d[n]
        elif t.get("enum") and len(t["variants"][i]["f"]) == 1: x = options(P, P.types[tid]["adt"], d)
        else: raise Missing("option %s" % n)
        fs.append(x)
    return agg(name, i if t.get("enum") else None, fs)

class Tool: pass
RESULTS = {}
def results_of(what, path):
    """what a profile (or a JSON file) holds: a function of its path"""
    return mk("spec.results", what, path)

def pathname(I, st, v):
    """the path of an open file, below its wrappers"""
    for _ in range(8):
        v = st.simp(M.content(I, st, v))
        if v.op == "file": return v.a[1]
        if v.op in ("bufwriter", "bufreader") and isinstance(v.a[0], T): v = v.a[0]
        elif v.op == "agg" and v.a[2]: v = v.a[2][0]
        else: return None

def deep(I, st, t, depth=0):
    """the value with what its references point to in place of them"""
    if depth > 6: return t
    m = {}
    for x in subterms(t):
        if x.op == "ref":
            v = M.content(I, st, x)
            if v is not x: m[x] = deep(I, st, v, depth + 1)
    return subst(t, m) if m else t

def tables(I):
    """prettytable: a table is its rows, a row its cells, a cell its text"""
    PT = "prettytable::"
    def new(I, st, c): return [(st, agg("spec.Table", None, [EMPTY]))]
    I.overrides[PT + "Table::new"] = new
    def cell(I, st, c): return [(st, agg("spec.Cell", None, [M.content(I, st, c.args[0])]))]
    for n in ("new", "new_align"): I.overrides[PT + "cell::Cell::" + n] = I.overrides[PT + "Cell::" + n] = cell
    def row(I, st, c): return [(st, agg("spec.Row", None, [st.simp(c.args[0])]))]
    I.overrides[PT + "row::Row::new"] = I.overrides[PT + "Row::new"] = row
    def add_row(I, st, c):
        t = st.simp(I.load(st, c.args[0]))
        if not (t.op == "agg" and t.a[0] == "spec.Table"): return None
        st = st.copy(); x = c.args[1]
        I.store(st, c.args[0], agg("spec.Table", None, [cat(t.a[2][0], unit(deep(I, st, st.simp(x))))]))
        return [(st, c.args[0])]
    I.overrides[PT + "Table::add_row"] = add_row
    def titles(I, st, c):
        t = st.simp(I.load(st, c.args[0]))
        if not (t.op == "agg" and t.a[0] == "spec.Table"): return None
        st = st.copy(); I.store(st, c.args[0], agg("spec.Table", None, [cat(unit(deep(I, st, st.simp(c.args[1]))), t.a[2][0])]))
        return [(st, UNIT)]
    I.overrides[PT + "Table::set_titles"] = titles
    def prn(I, st, c):
        t = st.simp(M.content(I, st, c.args[0]))
        st = st.copy(); st.mem[TABLES] = cat(st.mem.get(TABLES, EMPTY), unit(t))
        return [(st, UNIT)]
    for n in ("printstd", "print_tty"): I.overrides[PT + "Table::" + n] = prn

def forkres(st, cond, v, e):
    out = []
    s = st.assume(cond, True)
    if s is not None: out.append((s, ok(v)))
    s = st.assume(cond, False)
    if s is not None: out.append((s, err(e)))
    return out

def environment(I):
    """profiles and JSON files as functions of their paths"""
    def pnew(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0])
        return forkres(st, mk("spec.readable", "profile", p, ty="bool"), agg("spec.Data", None, [p]), mk("spec.error", "profile", p))
    I.overrides["analyzeme::profiling_data::ProfilingData::new"] = pnew
    def analysis(I, st, c):
        d = M.content(I, st, c.args[0])
        if not (d.op == "agg" and d.a[0] == "spec.Data"): return None
        return [(st, results_of("profile", d.a[2][0]))]
    I.overrides["analyzeme::profiling_data::ProfilingData::perform_analysis"] = I.overrides["analyzeme::analysis::perform_analysis"] = analysis
    for f in I.p.fns:
        if f["path"].endswith("::perform_analysis"): I.overrides[f["path"]] = analysis
    I.overrides["<analyzeme::ProfilingData>::perform_analysis"] = analysis
    def bufreader(I, st, c): return [(st, mk("bufreader", c.args[-1]))]
    for n in ("new", "with_capacity"): I.overrides["alloc::io::buffered::bufreader::BufReader::" + n] = I.overrides["std::io::buffered::bufreader::BufReader::" + n] = bufreader
    def from_reader(I, st, c):
        p = pathname(I, st, c.args[0])
        if p is None: return None
        return forkres(st, mk("spec.readable", "json", p, ty="bool"), results_of("json", p), mk("spec.error", "json", p))
    I.overrides["serde_json::de::from_reader"] = I.overrides["serde_json::from_reader"] = from_reader

def _texts(I):
    def from_str(I, st, c):
        x = M.content(I, st, c.args[0])
        return forkres(st, mk("spec.readable", "json text", x, ty="bool"), results_of("json text", x), mk("spec.error", "json text", x))
    for n in ("from_str", "from_slice"): I.overrides["serde_json::de::" + n] = I.overrides["serde_json::" + n] = from_str

FAILED, CREATED = ("G", "failed"), ("G", "created")
BUFW = ("alloc::io::buffered::bufwriter::BufWriter", "std::io::buffered::bufwriter::BufWriter")
def fsroot(p): return ("G", "fs", p)

def files(I):
    """files as functions from paths to contents; a buffered writer holds what it has not passed on.
    Every write may fail; the failures that happened are kept under FAILED."""
    I.fs_paths = []
    def create(st, p):
        if p not in I.fs_paths: I.fs_paths.append(p)
        st.mem[fsroot(p)] = EMPTY
        st.mem[CREATED] = cat(st.mem.get(CREATED, EMPTY), unit(p))
    def fcreate(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0])
        def fok(s):
            create(s, p)
            return (s, ok(agg("spec.File", None, [p])))
        return M.io_fork(I, st, c, fok)
    for n in ("create", "create_new"): I.overrides["std::fs::File::" + n] = fcreate
    def fwrite(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0]); d = M.content(I, st, c.args[1], c.tys[1])
        def fok(s):
            create(s, p); s.mem[fsroot(p)] = d
            return (s, ok(UNIT))
        return M.io_fork(I, st, c, fok)
    I.overrides["std::fs::write"] = fwrite
    def misc(I, st, c):
        p = M.content(I, st, c.args[0], c.tys[0])
        def fok(s):
            s.mem[CREATED] = cat(s.mem.get(CREATED, EMPTY), unit(agg("spec.FsOp", None, [bytes_(c.path.rsplit("::", 1)[-1].encode()), p])))
            return (s, ok(UNIT))
        return M.io_fork(I, st, c, fok)
    for n in ("remove_file", "rename", "copy", "remove_dir_all", "hard_link"): I.overrides["std::fs::" + n] = misc
    def put(s, p, data):
        if isinstance(p, tuple): s.mem[p] = cat(s.mem.get(p, EMPTY), data); return
        s.mem[fsroot(p)] = cat(s.mem.get(fsroot(p), EMPTY), data)
    def bufnew(I, st, c): return [(st, agg("spec.Buf", None, [c.args[-1], EMPTY]))]
    for b in BUFW:
        for n in ("new", "with_capacity"): I.overrides[b + "::" + n] = bufnew
    def isagg(v, n): return v.op == "agg" and v.a[0] == n
    def below(st, v):
        """path of the file below a writer"""
        for _ in range(6):
            v = st.simp(v)
            if isagg(v, "spec.File"): return v.a[2][0]
            if isagg(v, "std.Out"): return ("G", v.a[2][0].a[0].decode())
            if v.op == "ref": v = I.load(st, v)
            elif isagg(v, "spec.Buf"): v = v.a[2][0]
            else: return None
    def hook(I, st, r, sid, data, c):
        v = st.simp(I.load(st, r))
        if isagg(v, "spec.File"):
            s = st.copy(); put(s, v.a[2][0], data); return s
        if isagg(v, "spec.Buf") and below(st, v) is not None:
            s = st.copy(); I.store(s, r, agg("spec.Buf", None, [v.a[2][0], cat(v.a[2][1], data)])); return s
        return None
    I.write_contract = hook
    def pour(s, v):
        """the bytes held by a buffered writer reach the file"""
        if v.a[2][1] is not EMPTY: put(s, below(s, v), v.a[2][1])
        return agg("spec.Buf", None, [v.a[2][0], EMPTY])
    def flush(I, st, c):
        if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
        r = c.args[0]
        for _ in range(4):
            v = st.simp(I.load(st, r))
            if v.op != "ref": break
            r = v
        if isagg(v, "spec.File"): return [(st, ok(UNIT))]
        if not isagg(v, "spec.Buf") or below(st, v) is None: return None
        def fok(s):
            I.store(s, r, pour(s, v))
            return (s, ok(UNIT))
        return M.io_fork(I, st, c, fok)
    for n in ("core::io::write::Write::flush", "std::io::Write::flush"): I.overrides[n] = flush
    def sync(I, st, c): return M.io_fork(I, st, c, lambda s: (s, ok(UNIT)))
    for n in ("sync_all", "sync_data"): I.overrides["std::fs::File::" + n] = sync
    def into_inner(I, st, c):
        v = st.simp(c.args[0])
        if not isagg(v, "spec.Buf") or below(st, v) is None: return None
        def fok(s):
            pour(s, v)
            return (s, ok(v.a[2][0]))
        return M.io_fork(I, st, c, fok)
    def inner(I, st, c):
        return [(st, I.tref(I.textend(I.target_of(st, st.simp(c.args[0])), ("f", 0, None, None))))]
    for b in BUFW:
        I.overrides[b + "::into_inner"] = into_inner
        for n in ("get_ref", "get_mut"): I.overrides[b + "::" + n] = inner
    def drop_hook(I, st, tgt, v, site):
        if not isagg(v, "spec.Buf") or below(st, v) is None: return None
        if v.a[2][1] is EMPTY: return [st]
        cond = mk("iofail", I.cp(I.stack[-1].cp if I.stack else 0, ("dropbuf", site)), ty="bool")
        out = []
        s = st.assume(cond, False)
        if s is not None:
            s = s.copy(); pour(s, v); out.append(s)
        s = st.assume(cond, True)
        if s is not None:       # the error goes nowhere
            s = s.copy(); s.mem[FAILED] = cat(s.mem.get(FAILED, EMPTY), unit(bytes_(b"dropping a buffered writer")))
            out.append(s)
        return out
    I.drop_hook = drop_hook
    def to_writer(I, st, c):
        w, tid = c.args[0], c.tys[0]
        data = unit(agg("spec.Jsontext", None, [deep(I, st, st.simp(c.args[1]))]))
        owned = I.p.types[tid]["k"] != "ref"
        st = st.copy()
        if owned:
            root = ("T", I.cp(I.stack[-1].cp if I.stack else 0, ("jsonw", c.site))); st.mem[root] = w
            w = ref(root)
        s = hook(I, st, w, None, data, c)
        if s is None: return None
        out = M.io_fork(I, s, c, lambda q: (q, ok(UNIT)))
        if not owned: return out
        return [(q, r) for s, r in out for q in I.drop(s, ("loc", root, ()), tid, ("jsonw", c.site))]
    for n in ("to_writer", "to_writer_pretty"): I.overrides["serde_json::ser::" + n] = I.overrides["serde_json::" + n] = to_writer

def disk(R):
    """what is in the files at the end"""
    def pick(s): return agg("spec.Disk", None, [agg("spec.Disked", None, [p, s.simp(s.mem.get(fsroot(p), EMPTY))]) for p in R.I.fs_paths])
    return pick

def tool(cx, crate, opt, big=False, extra=None):
    """main of a tool with its environment replaced: T.I, T.outs"""
    P = cx.prog(crate, big)
    R = Tool(); R.P = P; R.main = cx.fn(P, crate + "::main"); R.where = where(R.main)
    R.I = I = cx.interp(P); I.fact_limit = 18
    def parse(I, st, c):
        t = I.p.types[c.dty]
        return [(st, options(P, t["adt"], opt))]
    I.overrides["clap::derive::Parser::parse"] = I.overrides["clap_builder::derive::Parser::parse"] = parse
    environment(I); _texts(I); tables(I); files(I)
    if extra: extra(I)
    R.outs = I.call_fn(R.main, [], State(), 0)
    if R.outs is None: raise Undecided("main of %s" % crate)
    return R

DISK = "disk"
def outcome(R, roots=()):
    """one term for everything the tool did: its result, then the contents of the given places"""
    at = lambda s, r: disk(R)(s) if r is DISK else s.simp(s.mem.get(r, EMPTY))
    pick = lambda s, v: agg("spec.Out", None, [s.simp(v)] + [at(s, r) for r in roots])
    return cases(sorted(R.outs, key=lambda o: 0 if o[0].simp(o[1]).op == "agg" and o[0].simp(o[1]).a[1] == 0 else 1), pick, loopfacts=False)

def good(t, more=None):
    """assignment in which nothing fails; more(term) -> value or None for other terms"""
    base = {("fn", "iofail"): lambda: False}; rest = []
    for x in subterms(t):
        if x.op in ("spec.readable", "spec.written"): base[x] = True
        elif x.op == "iofail": base[x] = False
        else: rest.append(x)
    return base

def results_terms(t): return [x for x in subterms(t) if x.op == "spec.results"]

def unagg(v, name=None):
    """the fields of an evaluated value, or None"""
    if isinstance(v, tuple) and v[:1] == ("agg",) and (name is None or v[1] == name): return v[3:]
    return None

def succeeded(v):
    f = unagg(v, "spec.Out")
    return f is not None and unagg(f[0], RES) is not None and f[0][2] == 0

def text(v):
    while unagg(v, "&") is not None and len(v) == 4: v = v[3]
    if isinstance(v, tuple) and v[:1] == ("agg",): return None
    try: return bytes(v).decode()
    except (TypeError, ValueError): return None

def table(v):
    """rows of cell texts of a printed table, or None"""
    f = unagg(v, "spec.Table")
    if f is None or not isinstance(f[0], tuple) or f[0][:1] == ("agg",): return None
    rows = []
    for r in f[0]:
        c = unagg(r, "spec.Row")
        if c is None or not isinstance(c[0], (tuple, bytes)) or c[0][:1] == ("agg",): return None
        cells = []
        for x in c[0]:
            y = unagg(x, "spec.Cell")
            if y is None: return None
            t = text(y[0])
            if t is None: return None
            cells.append(t)
        rows.append(cells)
    return rows

import re
UNIT_NS = {"ns": 1, "µs": 1000, "us": 1000, "ms": 10**6, "s": 10**9}
def ondisk(v):
    """{path: content} of an evaluated disk, or None"""
    f = unagg(v, "spec.Disk")
    if f is None: return None
    d = {}
    for x in f:
        y = unagg(x, "spec.Disked")
        if y is None or not isinstance(y[0], (bytes, tuple)) or y[0][:1] == ("agg",): return None
        d[bytes(y[0])] = y[1]
    return d

def jsonfile(v):
    """the value a file holds as JSON, or None"""
    if not isinstance(v, tuple) or v[:1] == ("agg",): return None
    if len(v) != 1: return ("not JSON",)
    j = unagg(v[0], "spec.Jsontext")
    return j[0] if j else None

def reads_as(txt, want, unit="dur"):
    """does a printed quantity denote the value, up to the digits shown?"""
    m = re.fullmatch(r"\s*([+-]?)([0-9]+(?:\.[0-9]+)?|inf|NaN)\s*(ns|µs|us|ms|s|%|bytes)?\s*", txt)
    if not m: return False
    if m[2] in ("inf", "NaN"): return m[2] == "NaN" and want != want or m[2] == "inf" and want == (float("inf") if m[1] != "-" else -float("inf"))
    scale_ = UNIT_NS.get(m[3]) if unit == "dur" else 1
    if scale_ is None or want != want or want in (float("inf"), -float("inf")): return False
    digits = len(m[2].split(".")[1]) if "." in m[2] else 0
    x = float(m[2]) * scale_ * (-1 if m[1] == "-" else 1)
    tol = 0.51 * scale_ * 10.0 ** -digits if (digits or scale_ == 1 and not isinstance(want, int) or scale_ > 1) else 0
    return abs(x - want) <= tol + 1e-9 * abs(want)
