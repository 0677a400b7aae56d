"""Models of the standard library (and a few dependency) functions, in terms
of the abstract domain.  dispatch() returns None if the callee is to be
followed or treated as opaque."""
import re
from terms import *
import interp as IP
from interp import NVAR, DEREF_TY, DYN, Undecided

OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"
def some(x): return agg(OPT, 1, [x])
NONE = agg(OPT, 0, [])
def ok(x): return agg(RES, 0, [x])
def err(x): return agg(RES, 1, [x])
LESS, EQUAL, GREATER = (agg(ORD, i, []) for i in range(3))
terms_names = {(OPT, 1): ["0"], (RES, 0): ["0"], (RES, 1): ["0"], (OPT, 0): []}
import terms
terms.FIELD_NAMES.update(terms_names)
DROP_RELEVANT = {"lock_api::mutex::MutexGuard", "alloc::io::buffered::bufwriter::BufWriter", "std::io::buffered::bufwriter::BufWriter"}

MODELS = {}
def model(*names):
    def deco(f):
        for n in names: MODELS[n] = f
        return f
    return deco

def strip(I, tid):
    """type below references"""
    t = I.p.types[tid]
    while t["k"] in ("ref", "ptr"):
        tid = t["to"]; t = I.p.types[tid]
    return tid, t

def content(I, st, v, tid=None):
    """Value below all references."""
    v = st.simp(v)
    if tid is not None:
        t = I.p.types[tid]
        while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["adt"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc")):
            nt = t["to"] if t["k"] in ("ref", "ptr") else t["args"][0]
            I.note_ty(st, v, nt)
            v = st.simp(I.load(st, v))
            tid = nt
            t = I.p.types[tid]
        ti = I.p.tyinfo(tid)
        if ti and v.ty is None and v.op not in ("k", "agg", "lin"): v.ty = ti
    while v.op == "ref":
        v = st.simp(I.load(st, v))
    if v.op == "gamma" and any(x.op == "ref" for x in (v.a[1], v.a[2])):
        v = gamma(v.a[0], content(I, st, v.a[1]), content(I, st, v.a[2]))
    return v

def selfty(I, c, i=0):
    return strip(I, c.tys[i])[1] if c.tys and i < len(c.tys) and c.tys[i] is not None else {"k": "?"}

def lastseg(p): return p.rsplit("::", 1)[-1]

INTM = re.compile(r"^(?:core::num::)?(?:<impl )?([iu](?:8|16|32|64|128|size))>?::(\w+)$")
IDENT_FNS = {
    "core::hint::must_use", "core::hint::black_box", "core::convert::identity", "alloc::string::String::as_str",
    "alloc::string::String::into_bytes", "str::as_bytes", "alloc::string::String::as_bytes", "alloc::vec::Vec::as_slice",
    "alloc::vec::Vec::as_mut_slice", "alloc::string::String::into_boxed_str", "core::iter::traits::iterator::Iterator::by_ref",
    "str::as_ptr_range", "std::path::Path::as_os_str", "std::ffi::os_str::OsStr::new", "std::path::Path::new",
    "alloc::vec::Vec::into_boxed_slice", "[T]::into_vec", "std::path::PathBuf::as_path", "core::pin::Pin::new",
    "alloc::vec::Vec::leak", "alloc::sync::Arc::as_ref", "str::into_string", "str::as_str",
    "[T]::as_slice",
    "core::ops::deref::Deref::deref#seq", "alloc::string::String::as_mut_str", "[T]::as_mut_slice", "smallvec::SmallVec::as_slice",
    "alloc::boxed::Box::leak", "std::path::PathBuf::into_os_string", "core::array::as_slice", "[T; N]::as_slice", "[T; N]::as_mut_slice",
}
# value conversions that keep the denoted value
VALUE_CONV = {
    "core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::string::ToString::to_string",
    "core::option::Option::cloned", "core::option::Option::copied", "[T]::to_vec",
}

def dispatch(I, st, c):
    p = c.path; r = c.res
    f = MODELS.get(r) or MODELS.get(p)
    if f:
        out = f(I, st, c)
        if out is not None: return out
    m = INTM.match(p) or INTM.match(r)
    if m:
        out = int_method(I, st, c, m.group(1), m.group(2))
        if out is not None: return out
    if p in IDENT_FNS: return [(st, c.args[0])]
    if p.startswith("core::iter::") or p.startswith("core::slice::iter") or p.startswith("itertools"):
        import iters
        out = iters.dispatch(I, st, c)
        if out is not None: return out
    if p.startswith("std::collections::") or p.startswith("alloc::collections::") or "hash::map" in r or "btree" in r:
        import maps
        out = maps.dispatch(I, st, c)
        if out is not None: return out
    if c.callee.get("kind") == "virtual":
        return virtual(I, st, c)
    return None

def virtual(I, st, c):
    """dyn Trait call: resolve by the provenance of the trait object"""
    recv = st.simp(c.args[0])
    d = DYN.get(recv)
    cands = []
    if d is None and recv.op == "ref":
        d = None
    if d is not None and d[0] == I.p.crate:
        t = I.p.types[d[1]]
        imp = (t.get("impls") or {}).get(c.callee.get("trait"))
        if imp is not None:
            meth = lastseg(c.path)
            if meth in imp:
                fn = I.p.fns[imp[meth]]
                r = I.call_fn(fn, c.args, st, c.site)
                if r is not None: return r
        if t["k"] in ("closure", "fndef"):
            return None
        # std implementation or provided method: retry with the concrete type
        c2 = IP.Call(); c2.__dict__.update(c.__dict__)
        c2.callee = dict(c.callee, kind="item")
        c2.tys = [d[1]] + list(c.tys[1:])
        f = MODELS.get(c.path)
        if f: return f(I, st, c2)
    I.emit("virtual", call=c, st=st)
    return None

# ---------------------------------------------------------------- opaque calls
def opaque(I, st, path, c):
    vals = [content(I, st, a, t) if t is not None else content(I, st, a) for a, t in zip(c.args, c.tys or [None] * len(c.args))]
    return opaque_call(I, st, path, c, vals)

PURE_PREFIX = ("core::", "alloc::", "str::", "[T]::", "memchr::", "std::path::", "f64::", "f32::", "char::", "u8::", "<")
IMPURE = ("::now", "::elapsed", "std::env", "std::fs", "std::process", "std::time::Instant", "std::time::SystemTime::now")

def opaque_call(I, st, path, c, vals):
    I.unmodelled[path] = I.unmodelled.get(path, 0) + 1
    parent = I.stack[-1].cp if I.stack else 0
    uid = I.cp(parent, ("op", c.site))
    I.emit("opaque", path=path, call=c, vals=vals, st=st, uid=uid)
    ti = I.p.tyinfo(c.dty) if c.dty is not None else None
    if c.diverges:
        I.panic(st, path, " ".join(show(v) for v in vals[:1]))
        return []
    s = st.copy()
    targs = tuple(I.p.types[x]["s"] for x in c.callee.get("targs", [])) if hasattr(c, "callee") else ()
    pure = path.startswith(PURE_PREFIX) and not any(x in path for x in IMPURE)
    base = mk("call", path, targs, tuple(vals), 0 if pure else uid)
    # effects on &mut arguments
    n = 0
    for i, (a, t) in enumerate(zip(c.args, c.tys or [])):
        if t is None: continue
        tt = I.p.types[t]
        if tt["k"] == "ref" and tt["mut"]:
            a = st.simp(a)
            cur = I.load(s, a)
            nv = mk("eff", path, i, tuple(vals), uid, ty=cur.ty)
            I.note_ty(s, a, tt["to"])
            I.store(s, a, nv)
            n += 1
    for a in c.args:
        a = st.simp(a)
        for q in [x for x in subterms(a) if x.op == "clo"]:
            I.emit("escaped-closure", clo=q, path=path)
            ups = I.p.upvars(q.a[0][2]) or ()
            for j, (x, t) in enumerate(zip(q.a[1], ups)):     # what the closure may change
                tt = I.p.types[t]
                if tt["k"] != "ref" or not tt["mut"]: continue
                x = st.simp(x)
                if x.op != "ref": continue
                cur = I.load(s, x)
                I.note_ty(s, x, tt["to"])
                I.store(s, x, mk("eff", path, ("up", j), tuple(vals), uid, ty=cur.ty))
                n += 1
    if ti == "ref" or ti is None or (c.dty is not None and I.p.types[c.dty]["k"] in ("ref", "ptr")):
        tt = I.p.types[c.dty] if c.dty is not None else {"k": "?"}
        if tt["k"] == "tuple" and not tt["elems"]: return [(s, UNIT)]
    v = mk("call", path, targs, tuple(vals), 0 if pure and not n else uid, ty=ti)
    return [(s, v)]

def opaque_value(I, st, name, args, site):
    return [(st, mk("call", name, (), tuple(args), I.cp(I.stack[-1].cp if I.stack else 0, ("ov", site))))]

def uid(I, c, tag=""):
    return I.cp(I.stack[-1].cp if I.stack else 0, ("u" + tag, c.site))

@model("bool::then", "core::bool::then")
def m_then(I, st, c):
    out = []
    s = st.assume(c.args[0], True)
    if s is not None: out += [(s2, some(v)) for s2, v in I.call_value(s, c.args[1], [], c.site, c) or []]
    s = st.assume(c.args[0], False)
    if s is not None: out.append((s, NONE))
    return out

@model("bool::then_some", "core::bool::then_some")
def m_then_some(I, st, c):
    return fork(I, st, c.args[0], lambda s: some(c.args[1]), lambda s: NONE)

def fork(I, st, cond, a, b):
    """[(state with cond, a())...]"""
    out = []
    s = st.assume(cond, True)
    if s is not None: out.append((s, a(s) if callable(a) else a))
    s = st.assume(cond, False)
    if s is not None: out.append((s, b(s) if callable(b) else b))
    return out

# ---------------------------------------------------------------- integers
def int_method(I, st, c, tyname, m):
    bits = 64 if tyname.endswith("size") else int(tyname[1:])
    signed = tyname[0] == "i"
    ty = ("int", signed, bits)
    lo, hi = int_range(ty)
    A = c.args
    x = A[0] if A else None
    if x is not None and x.op == "ref": x = I.load(st, x)
    if x is not None and x.ty is None and x.op not in ("k", "lin", "ref", "agg", "gamma"):
        if not (m.startswith("from_") and m.endswith("bytes")): x.ty = ty
    y = A[1] if len(A) > 1 else None
    if y is not None and y.op == "ref": y = I.load(st, y)
    n = bits // 8
    big = bool(I.p.d.get("big_endian_cfg"))
    def swap(t): return t.a[1] if t.op == "swap" and t.a[0] == n else (t if n == 1 else mk("swap", n, t, ty=ty))
    def be(t): return mk("be", n, t) if t.op != "swap" else lebytes(n, t.a[1])
    if m == "to_le_bytes": return [(st, lebytes(n, x))]
    if m == "to_be_bytes": return [(st, be(x))]
    if m == "to_ne_bytes": return [(st, be(x) if big else lebytes(n, x))]
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        s = x
        if s.op == "ref": s = I.load(st, s)
        isle = m == "from_le_bytes" or (m == "from_ne_bytes" and not big)
        return [(st, fromle(n, s, signed) if isle else swap(fromle(n, s, signed)))]
    if m in ("to_le", "from_le"): return [(st, swap(x) if big else x)]
    if m in ("to_be", "from_be"): return [(st, x if big else swap(x))]
    if m == "swap_bytes": return [(st, swap(x))]
    ops = {"add": add, "sub": sub, "mul": mul}
    mm = re.match(r"(checked|wrapping|saturating|overflowing|strict|unchecked)_(add|sub|mul)$", m)
    if mm:
        kind, o = mm.groups()
        r = ops[o](x, y)
        a, b = rng(r, st.facts)
        inb = TRUE if a >= lo and b <= hi else band(le(k(lo), r), le(r, k(hi)))
        if kind == "checked":
            return fork(I, st, inb, lambda s: some(r), NONE)
        if kind == "saturating":
            return [(st, minmax("min", minmax("max", r, k(lo)), k(hi)))]
        if kind in ("unchecked", "strict"): return [(st, r)]
        if kind == "wrapping":
            if inb is TRUE or st.decide(inb) is True: return [(st, r)]
            return [(st, mk("wrap", bits, r, ty=ty))]
        return [(st, agg("()", None, [mk("wrap", bits, r, ty=ty), not_(inb)]))]
    mm = re.match(r"(checked|wrapping)_(div|rem)$", m)
    if mm:
        o = div if mm.group(2) == "div" else rem
        if mm.group(1) == "checked": return fork(I, st, eq(y, k(0)), NONE, lambda s: some(o(x, y)))
        return [(st, o(x, y))]
    if m in ("div_euclid",) and not signed: return [(st, div(x, y))]
    if m in ("rem_euclid",) and not signed: return [(st, rem(x, y))]
    if m == "min": return [(st, minmax("min", x, y))]
    if m == "max": return [(st, minmax("max", x, y))]
    if m == "abs": return [(st, gamma(lt(x, k(0)), scale(x, -1), x))]
    if m == "unsigned_abs": return [(st, gamma(lt(x, k(0)), scale(x, -1), x))]
    if m == "abs_diff": return [(st, gamma(lt(x, y), sub(y, x), sub(x, y)))]
    if m == "signum": return [(st, gamma(lt(x, k(0)), k(-1), gamma(eq(x, k(0)), k(0), k(1))))]
    if m == "is_negative": return [(st, lt(x, k(0)))]
    if m == "is_positive": return [(st, lt(k(0), x))]
    if m == "pow" and y.op == "k" and x.op == "k": return [(st, k(x.a[0] ** y.a[0]))]
    if m == "pow" and y.op == "k" and 0 <= y.a[0] <= 4:
        r = k(1)
        for _ in range(y.a[0]): r = mul(r, x)
        return [(st, r)]
    if m == "div_ceil" and not signed: return [(st, div(add(x, sub(y, k(1))), y))]
    if m == "next_multiple_of" and not signed: return [(st, mul(div(add(x, sub(y, k(1))), y), y))]
    if m == "is_multiple_of" and not signed:
        if y.op == "k" and y.a[0]: return [(st, eq(rem(x, y), k(0)))]
        return fork(I, st, eq(y, k(0)), eq(x, k(0)), lambda s: eq(rem(x, y), k(0)))
    if m == "is_ascii_whitespace":
        return [(st, mk("asciiws", x, ty="bool") if x.op != "k" else kb(x.a[0] in (9, 10, 12, 13, 32)))]
    if m in ("is_ascii", "is_ascii_digit", "is_ascii_control", "is_ascii_graphic", "is_ascii_alphabetic", "is_ascii_alphanumeric"):
        return [(st, mk(m, x, ty="bool"))]
    return None

# ---------------------------------------------------------------- deref & friends
@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut")
def m_deref(I, st, c):
    if "fn" in c.callee: return None
    tid = c.tys[0]
    t = I.p.types[tid]
    if t["k"] == "ref": t = I.p.types[t["to"]]
    if t["k"] == "adt":
        a = t["adt"]
        if a in IP.SEQ_ADTS or a == "alloc::borrow::Cow": return [(st, c.args[0])]
        if a in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc", "alloc::boxed::Box", "alloc::rcs::rc::Rc"):
            v = I.load(st, c.args[0])
            return [(st, v)]
        if "MutexGuard" in a or "RwLock" in a or "RefMut" in a or a.endswith("cell::Ref"):
            g = st.simp(I.load(st, c.args[0]))
            if g.op == "agg": return [(st, g.a[2][0])]
            return None
        if a == "memmap2::Mmap": return [(st, c.args[0])]
        if a == MD: return [(st, I.tref(I.textend(I.target_of(st, c.args[0]), ("f", 0, "value", None))))]
    if t["k"] in ("slice", "str", "array"): return [(st, c.args[0])]
    if t["k"] == "ref": return [(st, I.load(st, c.args[0]))]
    return None

@model("core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut")
def m_asref(I, st, c):
    if "fn" in c.callee: return None
    t = I.p.types[c.tys[0]]
    v = c.args[0]
    while t["k"] == "ref":
        t2 = I.p.types[t["to"]]
        if t2["k"] != "ref": t = t2; break
        v = I.load(st, v); t = t2
    if t["k"] == "adt" and (t["adt"] in IP.SEQ_ADTS or t["adt"] == "alloc::borrow::Cow") or t["k"] in ("str", "slice", "array"):
        return [(st, v)]
    if t["k"] == "adt" and t["adt"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc"):
        return [(st, I.load(st, v))]
    if t["k"] == "param":
        return [(st, mk("asref", content(I, st, v), ty="ref"))]
    return None

def conv_value(I, st, c):
    if "fn" in c.callee: return None
    v = c.args[0]
    t = selfty(I, c)
    if t["k"] == "adt" and t["adt"] in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc"):
        return [(st, I.load(st, v))]
    return None

VALUE_ADTS = ("core::option::Option", "core::result::Result", "alloc::vec::Vec", "alloc::borrow::Cow", "alloc::string::String", "std::path::PathBuf",
              "core::time::Duration", "std::time::SystemTime", "alloc::collections::btree::map::BTreeMap", "alloc::collections::vec_deque::VecDeque", "core::cmp::Ordering")
def by_value(I, tid, trait, depth=0):
    """the type's implementation of the trait works on the value field by field: primitives, plain containers, derived implementations"""
    memo = I.p.__dict__.setdefault("by_value", {})
    if (tid, trait) in memo: return memo[tid, trait]
    if depth > 8: return False
    t = I.p.types[tid]; kd = t["k"]; memo[tid, trait] = r = True
    sub_ = lambda x: by_value(I, x, trait, depth + 1)
    if kd in ("int", "uint", "bool", "char", "str"): r = True
    elif kd == "ref": r = trait == "core::clone::Clone" or sub_(t["to"])
    elif kd == "tuple": r = all(sub_(x) for x in (t["args"] if "args" in t else t["elems"]))
    elif kd == "adt" and t["adt"] in VALUE_ADTS: r = all(sub_(x) for x in t["args"] if I.p.types[x].get("adt") != "alloc::alloc::Global")
    elif kd == "adt" and t.get("ws"):
        imp = (t.get("impls") or {}).get(trait) or {}
        f = imp.get("clone" if trait == "core::clone::Clone" else "eq")
        r = f is not None and I.p.fns[f].get("derived") in (True, "true") and all(sub_(x) for v in t["variants"] for _, x in v["f"])
    elif kd in ("slice", "array") and "elem" in t: r = sub_(t["elem"])
    else: r = False
    memo[tid, trait] = r
    return r

def values_of(I, st, t, depth=0):
    """the value with what its references point to in place of them"""
    if depth > 6: return t
    m = {}
    for x in subterms(t):
        if x.op == "ref":
            v = content(I, st, x)
            if v is not x: m[x] = values_of(I, st, v, depth + 1)
    return subst(t, m) if m else t

@model("core::clone::Clone::clone")
def m_clone(I, st, c):
    if "fn" in c.callee:
        if not c.tys or c.tys[0] is None or I.p.types[c.tys[0]]["k"] != "ref" or not by_value(I, I.p.types[c.tys[0]]["to"], "core::clone::Clone"): return None
    t = I.p.types[c.tys[0]]
    t1 = I.p.types[t["to"]] if t["k"] == "ref" else t
    v = st.simp(I.load(st, c.args[0]))
    if t["k"] == "ref": I.note_ty(st, c.args[0], t["to"]); v = st.simp(I.load(st, c.args[0]))
    if t1["k"] == "adt" and t1["adt"] == "alloc::boxed::Box":
        return new_box(I, st, c, I.load(st, v), v)
    ti = I.p.tyinfo(t["to"]) if t["k"] == "ref" else None
    if v.ty is None and ti and v.op not in ("k", "agg"): v.ty = ti
    return [(st, v)]

@model("core::clone::Clone::clone_from")
def m_clone_from(I, st, c):
    s = st.copy()
    I.store(s, c.args[0], I.load(s, c.args[1]))
    return [(s, UNIT)]

def new_box(I, st, c, v, like=None):
    s = st.copy()
    root = ("O", uid(I, c, "box"))
    s.mem[root] = v
    r = ref(root)
    if like is not None and like in DYN: DYN[r] = DYN[like]
    return [(s, r)]

@model("alloc::boxed::Box::new", "alloc::sync::Arc::new", "alloc::rcs::arc::Arc::new", "alloc::rc::Rc::new", "alloc::rcs::rc::Rc::new")
def m_boxnew(I, st, c):
    return new_box(I, st, c, c.args[0])

@model("alloc::boxed::Box::new_uninit")
def m_box_uninit(I, st, c):
    return new_box(I, st, c, mk("uninit", 0))

@model("core::mem::maybe_uninit::MaybeUninit::write", "alloc::boxed::Box::write")
def m_muwrite(I, st, c):
    s = st.copy()
    I.store(s, c.args[0], c.args[1])
    return [(s, c.args[0])]

@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(I, st, c):
    v = st.simp(I.load(st, c.args[0]))
    # MaybeUninit<[T;N]> -> value -> ManuallyDrop -> [T;N]
    for _ in range(4):
        if v.op == "agg" and len(v.a[2]) == 1 and not is_seqlike(v): v = v.a[2][0]
    if v.op == "upd": v = v.a[2]
    return [(st, v)]

@model("alloc::sync::Arc::try_unwrap", "alloc::rcs::arc::Arc::try_unwrap")
def m_tryunwrap(I, st, c):
    v = I.load(st, c.args[0])
    cond = mk("unique", c.args[0], ty="bool")
    return fork(I, st, cond, lambda s: ok(v), lambda s: err(c.args[0]))

@model("alloc::borrow::ToOwned::to_owned", "[T]::to_vec", "alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::to_mut_unused",
       "std::path::Path::to_path_buf", "std::path::Path::to_owned", "std::ffi::os_str::OsStr::to_os_string", "str::to_string", "alloc::string::String::from",
       "str::to_owned", "std::ffi::os_str::OsStr::to_owned", "std::path::Path::into_path_buf")
def m_owned(I, st, c):
    if "fn" in c.callee: return None
    v = content(I, st, c.args[0], c.tys[0])
    return [(st, v)]

@model("alloc::string::ToString::to_string")
def m_tostring(I, st, c):
    tid, t = strip(I, c.tys[0])
    v = content(I, st, c.args[0], c.tys[0])
    if I.p.tyinfo(tid) == "seq" or (t["k"] == "adt" and t["adt"] == "alloc::borrow::Cow"): return [(st, v)]
    return [(st, fmt_value(I, st, c, v, tid, "display", ()))]

import re as _re
def same_type(a, b):
    """the names of two types, lifetimes and the way to them aside"""
    n = lambda s: _re.sub(r"<>", "", _re.sub(r"\w+::", "", _re.sub(r"'\w+,? ?", "", s)))
    return n(a) == n(b)

def from_impl(I, src, dst):
    """the program's own From<src> for dst"""
    fns = getattr(I.p, "from_fns", None)
    if fns is None: fns = I.p.from_fns = [f for f in I.p.fns if f["path"].endswith("core::convert::From>::from") and f.get("argc", 1) == 1 and f.get("locals")]
    for f in fns:
        if same_type(I.p.types[f["locals"][1][0]]["s"], src) and same_type(I.p.types[f["locals"][0][0]]["s"], dst): return f
    return None

def display(I, st, c, v, tid, kind, spec=()):
    t = I.p.types[tid]
    if kind == "display" and not spec:
        if (I.p.tyinfo(tid) == "seq" and t["k"] != "array") or (t["k"] == "adt" and t["adt"] in ("alloc::borrow::Cow", "std::path::Display")):
            return [(st, v)]
        if v.op == "k" and t["k"] == "int": return [(st, bytes_(str(v.a[0]).encode()))]
    return [(st, mk("fmt", kind, spec, v, t["s"] if t["k"] not in ("int", "param") else t["k"], ty="seq"))]

# Cow: represented by the sequence it denotes
@model("core::convert::From::from", "core::convert::Into::into")
def m_from(I, st, c):
    if "fn" in c.callee and not c.res.startswith("<T as core::convert::Into>"):
        return None
    if "fn" in c.callee: pass
    src = c.tys[0] if c.tys and c.tys[0] is not None else None
    dst = c.dty
    v = c.args[0]
    if c.path.endswith("Into::into"):
        # U::from(self)
        targs = c.callee.get("targs", [])
        if len(targs) >= 2:
            d = I.p.types[targs[1]]
            imp = (d.get("impls") or {}).get("core::convert::From")
            if imp and "from" in imp and src is not None:
                for fid in (imp["from"] if isinstance(imp["from"], list) else [imp["from"]]):
                    fn = I.p.fns[fid]
                    if same_type(I.p.types[fn["locals"][1][0]]["s"], I.p.types[src]["s"]):
                        return I.call_fn(fn, c.args, st, c.site)
            fn = None if src is None else from_impl(I, I.p.types[src]["s"], d["s"])
            if fn is not None: return I.call_fn(fn, c.args, st, c.site)
            if dst is None: dst = targs[1]
    if src is None or dst is None: return [(st, mk("conv", v))]
    S = I.p.types[src]; D = I.p.types[dst]
    if S["s"] == D["s"]: return [(st, v)]
    if S["k"] == "param" or D["k"] == "param": return [(st, mk("conv", v, S["s"], D["s"], ty=I.p.tyinfo(dst)))]
    if S["k"] in ("int", "char", "bool") and D["k"] in ("int",):
        return [(st, gamma(v, k(1), k(0)) if S["k"] == "bool" else v)]
    si, di = I.p.tyinfo(strip(I, src)[0]), I.p.tyinfo(strip(I, dst)[0])
    dcow = D["k"] == "adt" and D["adt"] == "alloc::borrow::Cow"
    if (di == "seq" or dcow) and D["k"] == "adt":
        if si == "seq" or (strip(I, src)[1].get("adt") == "alloc::borrow::Cow"): return [(st, content(I, st, v, src))]
    if D["k"] == "adt" and D["adt"] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rcs::arc::Arc"):
        inner = I.p.types[D["args"][0]]
        val = content(I, st, v, src) if S["k"] == "ref" else v
        out = new_box(I, st, c, mk("conv", val, S["s"]) if inner["k"] == "dyn" else val)
        return out
    if D["k"] == "adt" and D["adt"] == OPT: return [(st, some(v))]
    return [(st, mk("conv", content(I, st, v, src), S["s"], D["s"], ty=I.p.tyinfo(dst)))]

@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def m_tryinto(I, st, c):
    targs = c.callee.get("targs", [])
    into = c.path.endswith("try_into")
    src = targs[0] if into else targs[1]
    dst = targs[1] if into else targs[0]
    S = I.p.types[src]; D = I.p.types[dst]
    if into:
        imp = (D.get("impls") or {}).get("core::convert::TryFrom")
        if imp and "try_from" in imp:
            return I.call_fn(I.p.fns[imp["try_from"]], c.args, st, c.site)
    elif "fn" in c.callee: return None
    v = c.args[0]
    if D["k"] == "array":
        s = content(I, st, v, src)
        n = D.get("len")
        if n is None: return None
        L = length(s)
        cond = eq(L, k(int(n)))
        e = err(mk("tryfromslice", s))
        d = st.decide(cond)
        s2 = s if s.op != "slice" or True else s
        return fork(I, st, cond, lambda q: ok(s), e)
    if S["k"] == "int" and D["k"] == "int":
        ty = I.p.tyinfo(dst); lo, hi = int_range(ty)
        cond = band(le(k(lo), v), le(v, k(hi)))
        return fork(I, st, cond, lambda q: ok(v), err(mk("tryfromint", v)))
    if D["k"] == "ref" and I.p.types[D["to"]]["k"] == "array":
        s = content(I, st, v, src); n = I.p.types[D["to"]].get("len")
        return fork(I, st, eq(length(s), k(int(n))), lambda q: ok(v), err(mk("tryfromslice", s)))
    return None

# ---------------------------------------------------------------- mem
@model("core::mem::swap")
def m_swap(I, st, c):
    s = st.copy()
    a = I.load(s, c.args[0]); b = I.load(s, c.args[1])
    I.store(s, c.args[0], b); I.store(s, c.args[1], a)
    return [(s, UNIT)]

@model("core::mem::replace")
def m_replace(I, st, c):
    s = st.copy()
    a = I.load(s, c.args[0])
    I.store(s, c.args[0], c.args[1])
    return [(s, a)]

@model("core::mem::take")
def m_take(I, st, c):
    s = st.copy()
    a = I.load(s, c.args[0])
    t = selfty(I, c)
    d = default_of(I, st, strip(I, c.tys[0])[0], c)
    if d is None: return None
    I.store(s, c.args[0], d)
    return [(s, a)]

def default_of(I, st, tid, c):
    t = I.p.types[tid]; ti = I.p.tyinfo(tid)
    if t["k"] in ("int", "char"): return k(0)
    if t["k"] == "bool": return FALSE
    if t["k"] == "float": return mk("fk", 0, 8)
    if ti == "seq": return EMPTY
    if ti and ti[0] == "int": return k(0)
    if t["k"] == "tuple": 
        fs = [default_of(I, st, e, c) for e in t["elems"]]
        return agg("()", None, fs) if all(f is not None for f in fs) else None
    if t["k"] == "adt":
        if t["adt"] == OPT: return NONE
        if t["adt"].endswith(("HashMap", "BTreeMap", "HashSet", "BTreeSet")): return mk("mapE")
        if t["adt"] == "alloc::borrow::Cow": return EMPTY
    if t["k"] == "ref" and I.p.types[t["to"]]["k"] in ("str", "slice"): return ref(("C", EMPTY))
    return None

@model("core::default::Default::default")
def m_default(I, st, c):
    if "fn" in c.callee: return None
    d = default_of(I, st, c.dty if c.dty is not None else c.callee["targs"][0], c)
    return [(st, d)] if d is not None else None

@model("core::mem::size_of", "core::mem::size_of_val")
def m_sizeof(I, st, c):
    t = I.p.types[c.callee["targs"][0]]
    if c.path.endswith("size_of_val") and t["k"] in ("slice", "str"):
        s = content(I, st, c.args[0], c.tys[0])
        es = 1 if t["k"] == "str" else I.p.types[t["to"]].get("size")
        es = es if es is not None else (I.p.types[t["to"]].get("bits", 0) // 8 or None)
        return [(st, scale(length(s), es))] if es else None
    n = t.get("size")
    if n is None and t["k"] == "int": n = t["bits"] // 8
    if n is None: return [(st, mk("sizeof", t["s"], ty=INT_U64))]
    return [(st, k(n))]

@model("core::mem::align_of")
def m_alignof(I, st, c):
    t = I.p.types[c.callee["targs"][0]]
    n = t.get("align") or (t["bits"] // 8 if t["k"] == "int" else None)
    return [(st, k(n))] if n else None

@model("core::mem::drop")
def m_drop(I, st, c):
    s = st.copy()
    root = ("T", uid(I, c, "drop"))
    s.mem[root] = c.args[0]
    if c.tys[0] is None: return None
    outs = I.drop(s, ("loc", root, ()), c.tys[0], ("memdrop", c.site))
    res = []
    for o in outs:
        o = o.copy(); o.mem.pop(root, None)
        res.append((o, UNIT))
    return res

@model("core::mem::forget", "core::mem::manually_drop::ManuallyDrop::new")
def m_forget(I, st, c):
    I.emit("forget", v=c.args[0], tid=c.tys[0], st=st)
    if c.path.endswith("::new"): return [(st, agg(MD, None, [c.args[0]]))]
    return [(st, UNIT)]

MD = "core::mem::manually_drop::ManuallyDrop"
@model(MD + "::into_inner", MD + "::take")
def m_mdinner(I, st, c):
    v = st.simp(content(I, st, c.args[0]) if lastseg(c.path) == "take" else c.args[0])
    I.emit("unforget", v=v, tid=c.tys[0], st=st)
    return [(st, v.a[2][0] if v.op == "agg" and v.a[0] == MD else fld(v, 0, "value"))]
@model(MD + "::drop")
def m_mddrop(I, st, c):
    return None

# ---------------------------------------------------------------- mutex
MUTEX_LOCK = ("lock_api::mutex::Mutex::lock", "parking_lot::Mutex::lock", "std::sync::poison::mutex::Mutex::lock", "std::sync::mutex::Mutex::lock")
def lock_id(I, st, refv):
    t = st.simp(refv)
    if t.op == "ref":
        return (t.a[0], tuple(e[:3] if e[0] == "f" else e for e in t.a[1]))
    return (("P", t), ())

@model("lock_api::mutex::Mutex::new", "std::sync::poison::mutex::Mutex::new", "lock_api::rwlock::RwLock::new", "core::cell::RefCell::new")
def m_mutex_new(I, st, c):
    return [(st, agg("mutex", None, [c.args[0]]))]

def do_lock(I, st, c, wrap=False):
    refv = st.simp(c.args[0])
    tgt = I.target_of(st, refv)
    if tgt[0] != "loc": return None
    lid = lock_id(I, st, refv)
    mt = selfty(I, c)
    inner = mt["args"][-1] if mt.get("args") else None
    I.emit("lock", lid=lid, held=st.held, st=st, ty=mt.get("s"), inner=inner, call=c)
    s = st.copy()
    root, proj = tgt[1], tgt[2]
    shared = root[0] in ("P",)
    n = len([1 for x in s.facts.d]) 
    g = uid(I, c, "lock")
    mxproj = proj + (("mx",),)
    if shared:
        # another thread may have changed the protected data since the last release
        cnt = s.mem.get(("G", "nlock", lid))
        cur = I.load_loc(s, root, mxproj)
        if inner is not None:
            ti = I.p.tyinfo(inner)
        first = cnt is None
        nv = mk("acq", lid[0], lid[1], g if not first else 0, ty=ti if inner is not None else None)
        LOCKED_TY[nv] = inner
        s.mem[("G", "nlock", lid)] = k(1)
        I.store_loc(s, root, mxproj, nv)
    s.held = s.held + (lid,)
    I.emit("acquired", lid=lid, st=s, call=c, content=I.load_loc(s, root, mxproj), inner=inner)
    guard = agg("guard", None, [mk("ref", root, mxproj), mk("lid", lid), I.load_loc(s, root, mxproj)])
    return [(s, ok(guard) if wrap else guard)]

LOCKED_TY = {}
@model(*MUTEX_LOCK)
def m_lock(I, st, c):
    return do_lock(I, st, c, wrap="std::sync" in c.path)

@model("lock_api::mutex::Mutex::try_lock")
def m_trylock(I, st, c):
    busy = mk("contended", uid(I, c, "try"), ty="bool")
    s0 = st.assume(busy, False); s1 = st.assume(busy, True)
    r = do_lock(I, s0, c)
    return [(s, some(g)) for s, g in r] + [(s1, NONE)] if r else None

@model("lock_api::mutex::Mutex::into_inner")
def m_into_inner(I, st, c):
    return [(st, IP.protected(st.simp(c.args[0])))]

@model("lock_api::mutex::Mutex::get_mut", "core::cell::RefCell::get_mut", "core::cell::RefCell::borrow_mut", "core::cell::RefCell::borrow")
def m_get_mut(I, st, c):
    tgt = I.target_of(st, c.args[0])
    if tgt[0] != "loc": return None
    r = mk("ref", tgt[1], tgt[2] + (("mx",),))
    if "borrow" in lastseg(c.path): return [(st, agg("guard", None, [r, mk("lid", None), UNIT]))]
    return [(st, r)]

def release(I, st, guard):
    if guard.op != "agg" or guard.a[0] != "guard": return st
    lid = guard.a[2][1].a[0]
    if lid is None: return st
    s = st.copy()
    h = list(s.held)
    for i in range(len(h) - 1, -1, -1):
        if h[i] == lid:
            del h[i]; break
    s.held = tuple(h)
    ref_ = guard.a[2][0]
    now = I.load(s, ref_)
    d = delta(guard.a[2][2], now)
    if d is not EMPTY:
        key = ("G", "delta", lid)
        s.mem[key] = cat(s.mem.get(key, EMPTY), d)
    I.emit("unlock", lid=lid, st=s, content=now, acquired=guard.a[2][2], delta=d)
    return s

def delta(old, new):
    """What a critical section appended to the sequence(s) it protects."""
    if old is new: return EMPTY
    if new.op == "gamma": return gamma(new.a[0], delta(old, new.a[1]), delta(old, new.a[2]))
    if new.op == "agg":
        src = old if new.a[1] is None or old.op == "agg" else down(old, new.a[1], None)
        ds = []
        for i, x in enumerate(new.a[2]):
            if x.op == "f" and x.a[0].op in ("as", "acq", "f") : continue
            o = None
            for p in (parts(x)[:1] if x.op == "cat" or is_seqlike(x) else ()):
                if p.op == "f" and p.a[0].op == "as" and p.a[0].a[0] is old and p.a[0].a[1] == new.a[1]: o = p
                if p.op == "f" and p.a[0] is old: o = p
            if o is None and old.op == "agg" and old.a[1] == new.a[1] and i < len(old.a[2]): o = old.a[2][i]
            if o is None: return mk("overwrite", new, ty="seq")
            d = delta(o, x)
            if d is not EMPTY: ds.append(d)
        if not ds: return EMPTY
        return ds[0] if len(ds) == 1 else mk("deltas", tuple(ds), ty="seq")
    if new.op == "cat" and new.a and parts(old) == new.a[:len(parts(old))]:
        return cat(*new.a[len(parts(old)):])
    return mk("overwrite", new, ty="seq")

def drop_model(I, st, tgt, v, tt, site):
    if tt["k"] != "adt": return None
    a = tt["adt"]
    if "MutexGuard" in a:
        return [release(I, st, v)]
    if a.endswith("BufWriter"):
        if getattr(I, "drop_hook", None) is not None:
            r = I.drop_hook(I, st, tgt, v, site)
            if r is not None: return r
        I.emit("drop-bufwriter", v=v, st=st, site=site, tgt=tgt)
        return [st]
    if v.op == "agg" and v.a[0] == "spec.JsonSer" and tt.get("args"):
        w = tt["args"][0]
        return I.drop(st, I.textend(tgt, ("f", 0, None, None)), w, (site, "jsonser")) if I.needs_drop(w) else [st]
    if a in ("alloc::sync::Arc", "alloc::rcs::arc::Arc", "alloc::rc::Rc"):
        I.emit("drop-arc", v=v, st=st, tt=tt)
        return [st]
    if a == "alloc::boxed::Box":
        inner = tt["args"][0]
        if not I.needs_drop(inner): return [st]
        return I.drop(st, I.target_of(st, v), inner, (site, "box"))
    return None

# ---------------------------------------------------------------- sequences
def elem_tyinfo(I, tid):
    if tid == -2: return ("int", False, 32)     # characters
    if tid == -3: return "seq"                  # texts
    t = strip(I, tid)[1]
    e = None
    if t["k"] in ("slice", "array"): e = t["to"]
    elif t["k"] == "str": return ("int", False, 8)
    elif t["k"] == "adt" and t.get("args"): e = t["args"][0]
    elif t["k"] == "adt" and t["adt"] in IP.SEQ_ADTS: return ("int", False, 8)
    if e is not None and t["k"] == "adt" and t["adt"] == "smallvec::SmallVec":
        at = I.p.types[e]
        if at["k"] == "array": e = at["to"]
    return I.p.tyinfo(e) if e is not None else None

def isbyte(I, tid): return I.p.elem_is_byte(tid) or elem_tyinfo(I, tid) == ("int", False, 8)

@model("[T]::len", "alloc::vec::Vec::len", "str::len", "alloc::string::String::len", "smallvec::SmallVec::len", "std::ffi::os_str::OsStr::len", "[T; N]::len")
def m_len(I, st, c): return [(st, length(content(I, st, c.args[0], c.tys[0])))]

@model("[T]::is_empty", "alloc::vec::Vec::is_empty", "str::is_empty", "alloc::string::String::is_empty", "smallvec::SmallVec::is_empty", "std::ffi::os_str::OsStr::is_empty")
def m_isempty(I, st, c): return [(st, eq(length(content(I, st, c.args[0], c.tys[0])), k(0)))]

@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity",
       "smallvec::SmallVec::new", "smallvec::SmallVec::with_capacity", "std::path::PathBuf::new", "std::ffi::os_str::OsString::new")
def m_vecnew(I, st, c): return [(st, EMPTY)]

@model("alloc::vec::from_elem", "alloc::vec::spec_from_elem")
def m_fromelem(I, st, c): return [(st, rep(c.args[0], c.args[1], c.dty is not None and isbyte(I, c.dty)))]

def modify(I, st, c, f):
    s = st.copy()
    v = content(I, s, c.args[0], c.tys[0])
    I.store(s, c.args[0], f(s, v))
    return [(s, UNIT)]

@model("[T]::iter", "[T]::iter_mut", "[T; N]::iter")
def m_iter(I, st, c):
    import iters
    r = c.args[0]
    tid, t = strip(I, c.tys[0])
    I.note_ty(st, r, tid)
    L = length(st.simp(I.load(st, r)))
    return [(st, iters.A("slice", r, k(0), L, k(tid)))]

@model("[T]::chunks", "[T]::chunks_exact", "[T]::chunks_mut", "[T]::chunks_exact_mut")
def m_chunks(I, st, c):
    import iters
    r = c.args[0]
    if lastseg(c.path).startswith("chunks_exact"):
        L = length(content(I, st, r, c.tys[0]))
        tgt = I.target_of(st, seqref(I, st, r, c.tys[0])); cut = sub(L, rem(L, c.args[1]))
        r = I.tref(I.textend(tgt, ("sl", k(0), cut)))
        REST[r] = I.tref(I.textend(tgt, ("sl", cut, L)))
    return [(st, iters.A("chunks", r, k(0), c.args[1]))]

CHARPRED = ("is_whitespace", "is_alphanumeric", "is_alphabetic", "is_numeric", "is_control", "is_uppercase", "is_lowercase", "is_ascii", "is_ascii_digit", "is_ascii_control", "is_ascii_alphabetic",
            "is_ascii_alphanumeric", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_hexdigit", "is_ascii_graphic", "is_ascii_whitespace", "is_ascii_punctuation")
@model(*["char::" + n for n in CHARPRED])
def m_charpred(I, st, c):
    x = st.simp(content(I, st, c.args[0], c.tys[0]))
    n = lastseg(c.path)
    if not is_intish(x): return None
    return [(st, mk("charpred", n, x, ty="bool"))]

REST = {}
@model("core::slice::iter::ChunksExact::remainder", "core::slice::iter::ChunksExactMut::into_remainder", "ChunksExact::remainder", "ChunksExactMut::into_remainder")
def m_remainder(I, st, c):
    v = st.simp(content(I, st, c.args[0], c.tys[0]))
    if v.op != "agg" or v.a[0] != "it.chunks" or v.a[2][0] not in REST: return None
    return [(st, REST[v.a[2][0]])]

@model("str::bytes")
def m_bytes(I, st, c):
    import iters
    v = content(I, st, c.args[0], c.tys[0])
    return [(st, iters.A("vec", v, k(0), length(v), k(c.tys[0])))]

@model("alloc::vec::Vec::drain", "smallvec::SmallVec::drain")
def m_drain(I, st, c):
    import iters
    s = st.copy()
    v = content(I, s, c.args[0], c.tys[0])
    rr = range_of(I, s, c.args[1], length(v))
    if rr is None: return None
    a, b = rr
    d = slice_(v, a, b, s.facts)
    I.store(s, c.args[0], splice(v, a, b, EMPTY, s.facts))
    return [(s, iters.A("vec", d, k(0), length(d), k(c.tys[0])))]

@model("alloc::vec::Vec::push", "smallvec::SmallVec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def m_push(I, st, c):
    b = isbyte(I, c.tys[0])
    return modify(I, st, c, lambda s, v: cat(v, unit(c.args[1], b)))

@model("alloc::string::String::push")
def m_pushc(I, st, c):
    x = c.args[1]
    u = bytes_(chr(x.a[0]).encode("utf-8")) if x.op == "k" else mk("utf8", x, ty="seq")
    return modify(I, st, c, lambda s, v: cat(v, u))

@model("alloc::string::String::push_str", "alloc::vec::Vec::extend_from_slice", "core::ops::arith::AddAssign::add_assign", "smallvec::SmallVec::extend_from_slice", "std::ffi::os_str::OsString::push")
def m_pushstr(I, st, c):
    if "fn" in c.callee: return None
    if c.path.endswith("add_assign"):
        t = selfty(I, c)
        if I.p.tyinfo(strip(I, c.tys[0])[0]) != "seq": return arith_assign(I, st, c, add)
    return modify(I, st, c, lambda s, v: cat(v, content(I, s, c.args[1], c.tys[1])))

def arith_assign(I, st, c, f):
    s = st.copy()
    x = I.load(s, c.args[0]); y = content(I, s, c.args[1], c.tys[1])
    ti = I.p.tyinfo(strip(I, c.tys[0])[0])
    if not (ti and ti[0] == "int"): return None
    if x.ty is None and x.op not in ("k", "lin", "agg", "gamma"): x.ty = ti
    I.store(s, c.args[0], f(x, y))
    return [(s, UNIT)]

@model("core::ops::arith::SubAssign::sub_assign")
def m_subassign(I, st, c):
    if "fn" in c.callee: return None
    return arith_assign(I, st, c, sub)

@model("core::ops::arith::Add::add")
def m_add(I, st, c):
    if "fn" in c.callee: return None
    x = content(I, st, c.args[0], c.tys[0]); y = content(I, st, c.args[1], c.tys[1])
    ti = I.p.tyinfo(strip(I, c.tys[0])[0])
    if ti == "seq": return [(st, cat(x, y))]
    if ti and ti[0] == "int": return [(st, add(x, y))]
    return None

@model("core::ops::arith::Sub::sub")
def m_sub(I, st, c):
    if "fn" in c.callee: return None
    x = content(I, st, c.args[0], c.tys[0]); y = content(I, st, c.args[1], c.tys[1])
    ti = I.p.tyinfo(strip(I, c.tys[0])[0])
    if ti and ti[0] == "int": return [(st, sub(x, y))]
    return None

@model("core::ops::arith::Mul::mul")
def m_mul(I, st, c):
    if "fn" in c.callee: return None
    x = content(I, st, c.args[0], c.tys[0]); y = content(I, st, c.args[1], c.tys[1])
    ti = I.p.tyinfo(strip(I, c.tys[0])[0])
    if ti and ti[0] == "int": return [(st, mul(x, y))]
    return None

@model("alloc::vec::Vec::append", "smallvec::SmallVec::append")
def m_append(I, st, c):
    s = st.copy()
    v = content(I, s, c.args[0], c.tys[0]); w = content(I, s, c.args[1], c.tys[1])
    I.store(s, c.args[0], cat(v, w)); I.store(s, c.args[1], EMPTY)
    return [(s, UNIT)]

@model("alloc::vec::Vec::clear", "alloc::string::String::clear", "smallvec::SmallVec::clear")
def m_clear(I, st, c): return modify(I, st, c, lambda s, v: EMPTY)

@model("alloc::vec::Vec::truncate", "alloc::string::String::truncate", "smallvec::SmallVec::truncate")
def m_truncate(I, st, c):
    n = c.args[1]
    def f(s, v):
        L = length(v)
        d = s.decide(lt(n, L))
        if d is False: return v
        if d is True or s.decide(le(n, L)) is True: return slice_(v, k(0), n, s.facts)
        return slice_(v, k(0), minmax("min", n, L), s.facts)
    return modify(I, st, c, f)

@model("alloc::vec::Vec::resize", "smallvec::SmallVec::resize")
def m_resize(I, st, c):
    b = isbyte(I, c.tys[0])
    n, x = c.args[1], c.args[2]
    def f(s, v):
        L = length(v)
        if s.decide(le(L, n)) is True or rng(sub(n, L), s.facts)[0] >= 0:
            return cat(v, rep(x, sub(n, L), b))
        if s.decide(le(n, L)) is True: return slice_(v, k(0), n, s.facts)
        return gamma(lt(n, L), slice_(v, k(0), n, s.facts), cat(v, rep(x, sub(n, L), b)))
    return modify(I, st, c, f)

@model("alloc::vec::Vec::insert", "smallvec::SmallVec::insert")
def m_vinsert(I, st, c):
    b = isbyte(I, c.tys[0])
    return modify(I, st, c, lambda s, v: splice(v, c.args[1], c.args[1], unit(c.args[2], b), s.facts))

@model("alloc::vec::Vec::remove", "smallvec::SmallVec::remove")
def m_vremove(I, st, c):
    s = st.copy()
    v = content(I, s, c.args[0], c.tys[0]); i = c.args[1]
    I.store(s, c.args[0], splice(v, i, add(i, k(1)), EMPTY, s.facts))
    return [(s, index(v, i, elem_tyinfo(I, c.tys[0]), s.facts))]

@model("alloc::vec::Vec::pop", "smallvec::SmallVec::pop", "alloc::collections::vec_deque::VecDeque::pop_back")
def m_pop(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    L = length(v)
    def nonempty(s):
        s2 = s.copy()
        I.store(s2, c.args[0], slice_(v, k(0), sub(L, k(1)), s2.facts))
        return (s2, some(index(v, sub(L, k(1)), elem_tyinfo(I, c.tys[0]), s2.facts)))
    out = []
    s = st.assume(eq(L, k(0)), True)
    if s is not None: out.append((s, NONE))
    s = st.assume(eq(L, k(0)), False)
    if s is not None: out.append(nonempty(s))
    return out

def elemref(I, st, r, i, tid):
    t = I.target_of(st, r)
    return I.tref(I.textend(t, ("ix", i, elem_tyinfo(I, tid))))

def seqref(I, st, v, tid):
    """the reference that directly designates the sequence"""
    t = I.p.types[tid]
    while t["k"] == "ref" and I.p.types[t["to"]]["k"] == "ref":
        v = st.simp(I.load(st, v)); t = I.p.types[t["to"]]
    return v

@model("[T]::last", "[T]::last_mut", "[T]::first", "[T]::first_mut")
def m_last(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    L = length(v)
    i = sub(L, k(1)) if "last" in c.path else k(0)
    return fork(I, st, eq(L, k(0)), NONE, lambda s: some(elemref(I, s, c.args[0], i, c.tys[0])))

@model("[T]::get", "[T]::get_mut", "str::get", "[T]::get_unchecked", "[T]::get_unchecked_mut", "str::get_unchecked", "str::get_unchecked_mut")
def m_get(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    i = c.args[1]
    unchecked = "unchecked" in c.path
    if i.op == "agg":
        r = range_of(I, st, i, length(v))
        if r is None: return None
        a, b = r
        okc = band(le(a, b), le(b, length(v)))
        t = I.target_of(st, c.args[0])
        if unchecked:
            I.emit("unchecked", cond=okc, st=st, call=c)
            return [(st, I.tref(I.textend(t, ("sl", a, b))))]
        return fork(I, st, okc, lambda s: some(I.tref(I.textend(t, ("sl", a, b)))), NONE)
    if not is_intish(i): return None
    if unchecked: I.emit("unchecked", cond=lt(i, length(v)), st=st, call=c)
    if unchecked: return [(st, elemref(I, st, c.args[0], i, c.tys[0]))]
    return fork(I, st, lt(i, length(v)), lambda s: some(elemref(I, s, c.args[0], i, c.tys[0])), NONE)

def range_of(I, st, r, L):
    """(from, to) of a range value"""
    if r.op != "agg": return None
    n = lastseg(r.a[0]); f = r.a[2]
    if n == "Range": return f[0], f[1]
    if n == "RangeTo": return k(0), f[0]
    if n == "RangeFrom": return f[0], L
    if n == "RangeFull": return k(0), L
    if n == "RangeInclusive": return f[0], add(f[1], k(1))
    if n == "RangeToInclusive": return k(0), add(f[0], k(1))
    return None

@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def m_index(I, st, c):
    if "fn" in c.callee: return None
    tid, t = strip(I, c.tys[0])
    if t["k"] == "adt" and t["adt"].endswith(("HashMap", "BTreeMap")):
        import maps
        return maps.index(I, st, c)
    r = seqref(I, st, c.args[0], c.tys[0])
    v = content(I, st, r, None)
    i = st.simp(c.args[1])
    tgt = I.target_of(st, r)
    if tgt[0] == "loc" and tgt[1][0] == "P" and tgt[1][1] not in DEREF_TY: I.note_ty(st, r, tid)
    v = I.load(st, r)
    if is_intish(i) or i.op in ("k",):
        return [(st, I.tref(I.textend(tgt, ("ix", i, elem_tyinfo(I, c.tys[0])))))]
    rr = range_of(I, st, i, length(v))
    if rr is None: return None
    a, b = rr
    L = length(v)
    s = st
    # a successful slicing operation establishes the bounds
    s2 = st.assume(le(a, b), True)
    if s2 is None:
        I.panic(st, "slice-index", "range"); return []
    s3 = s2.assume(le(b, L), True)
    if s3 is None:
        I.panic(st, "slice-index", "range"); return []
    I.emit("slicing", a=a, b=b, len=L, st=st)
    if a.op == "k" and a.a[0] == 0 and b is L: return [(s3, r)]
    return [(s3, I.tref(I.textend(tgt, ("sl", a, b))))]

@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def m_copy(I, st, c):
    s = st.copy()
    dst = content(I, s, c.args[0], c.tys[0])
    src = content(I, s, c.args[1], c.tys[1])
    cond = eq(length(dst), length(src))
    s2 = s.assume(cond, True)
    if s2 is None:
        I.panic(st, "copy_from_slice", "length mismatch")
        return []
    s2 = s2.copy()
    I.emit("copy", dst=length(dst), src=length(src), st=s2)
    I.store(s2, c.args[0], src)
    return [(s2, UNIT)]

@model("[T]::fill")
def m_fill(I, st, c):
    b = isbyte(I, c.tys[0])
    return modify(I, st, c, lambda s, v: rep(c.args[1], length(v), b))

@model("[T]::split_at", "[T]::split_at_mut", "str::split_at")
def m_splitat(I, st, c):
    v = content(I, st, c.args[0], c.tys[0]); n = c.args[1]
    L = length(v)
    s = st.assume(le(n, L), True)
    if s is None:
        I.panic(st, "split_at", ""); return []
    t = I.target_of(st, c.args[0])
    return [(s, agg("()", None, [I.tref(I.textend(t, ("sl", k(0), n))), I.tref(I.textend(t, ("sl", n, L)))]))]

@model("[T]::split_first", "[T]::split_first_mut")
def m_splitfirst(I, st, c):
    v = content(I, st, c.args[0], c.tys[0]); L = length(v)
    t = I.target_of(st, c.args[0])
    return fork(I, st, eq(L, k(0)), NONE, lambda s: some(agg("()", None, [elemref(I, s, c.args[0], k(0), c.tys[0]), I.tref(I.textend(t, ("sl", k(1), L)))])))

@model("[T]::split_at_checked", "[T]::split_at_mut_checked", "str::split_at_checked")
def m_splitatc(I, st, c):
    if c.path.startswith("str"): return None
    v = content(I, st, c.args[0], c.tys[0]); n = c.args[1]; L = length(v)
    t = I.target_of(st, c.args[0])
    return fork(I, st, le(n, L), lambda s: some(agg("()", None, [I.tref(I.textend(t, ("sl", k(0), n))), I.tref(I.textend(t, ("sl", n, L)))])), NONE)

@model("[T]::first_chunk", "[T]::last_chunk", "[T]::split_first_chunk", "[T]::split_last_chunk", "[T]::first_chunk_mut", "[T]::last_chunk_mut", "[T]::split_first_chunk_mut", "[T]::split_last_chunk_mut")
def m_firstchunk(I, st, c):
    """a reference to so many elements at the start or the end, and to the rest"""
    def arrlen(tid):
        t = I.p.types[tid]
        if t["k"] in ("ref", "ptr"): return arrlen(t["to"])
        if t["k"] == "array": return t.get("len")
        if t["k"] == "tuple":
            for e in t["elems"]:
                n = arrlen(e)
                if n is not None: return n
        if t["k"] == "adt" and t["adt"] == OPT: return arrlen(t["args"][0])
        return None
    n = arrlen(c.dty) if c.dty is not None else None
    if n is None: return None
    n = k(int(n))
    v = content(I, st, c.args[0], c.tys[0]); L = length(v)
    t = I.target_of(st, c.args[0])
    cut = lambda a, b: I.tref(I.textend(t, ("sl", a, b)))
    m = lastseg(c.path)
    last = "last" in m
    at = sub(L, n) if last else n
    def parts(s):
        head, tail = cut(k(0), at), cut(at, L)
        if not m.startswith("split"): return some(tail if last else head)
        return some(agg("()", None, [head, tail]))
    return fork(I, st, le(n, L), parts, NONE)

@model("[T]::strip_prefix", "[T]::strip_suffix")
def m_stripslice(I, st, c):
    if not isbyte(I, c.tys[0]): return None
    v = content(I, st, c.args[0], c.tys[0]); p = content(I, st, c.args[1], c.tys[1])
    L, n = length(v), length(p)
    t = I.target_of(st, c.args[0])
    pre = c.path.endswith("prefix")
    out = []
    s = st.assume(le(n, L), True)
    if s is not None:
        part = slice_(v, k(0), n, s.facts) if pre else slice_(v, sub(L, n), L, s.facts)
        rest = I.tref(I.textend(t, ("sl", n, L) if pre else ("sl", k(0), sub(L, n))))
        out += fork(I, s, eq(part, p), some(rest), NONE)
    s = st.assume(le(n, L), False)
    if s is not None: out.append((s, NONE))
    return out

@model("alloc::vec::Vec::extend_from_within")
def m_extwithin(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    r = range_of(I, st, st.simp(c.args[1]), length(v))
    if r is None: return None
    a, b = r
    s = st.assume(le(a, b), True)
    s = s.assume(le(b, length(v)), True) if s is not None else None
    if s is None:
        I.panic(st, "slice-index", "range"); return []
    return modify(I, s, c, lambda q, w: cat(w, slice_(w, a, b, q.facts)))

@model("[T; N]::map")
def m_arrmap(I, st, c):
    t = I.p.types[c.tys[0]]
    n = t.get("len")
    if n is None or int(n) > 16: return None
    b = I.p.types[c.dty] if c.dty is not None else {}
    byte = b.get("k") == "array" and I.p.types[b["to"]]["s"] in ("u8", "i8")
    v = st.simp(c.args[0])
    froot = ("T", uid(I, c, "f")); s0 = st.copy(); s0.mem[froot] = c.args[1]
    cur = [(s0, [])]
    for i in range(int(n)):
        nx = []
        for s, ys in cur:
            x = index(v, k(i), I.p.tyinfo(t["to"]), s.facts)
            for s2, y in I.call_value(s, ref(froot), [x], (c.site, "am%d" % i)): nx.append((s2, ys + [unit(y, byte)]))
        cur = nx
    return [(s, cat(*ys)) for s, ys in cur]

@model("core::array::from_fn")
def m_arrfrom(I, st, c):
    t = I.p.types[c.dty] if c.dty is not None else {}
    n = t.get("len") if t.get("k") == "array" else None
    if n is None or int(n) > 16: return None
    byte = I.p.types[t["to"]]["s"] in ("u8", "i8")
    froot = ("T", uid(I, c, "f")); s0 = st.copy(); s0.mem[froot] = c.args[0]
    cur = [(s0, [])]
    for i in range(int(n)):
        nx = []
        for s, ys in cur:
            for s2, y in I.call_value(s, ref(froot), [k(i)], (c.site, "af%d" % i)): nx.append((s2, ys + [unit(y, byte)]))
        cur = nx
    return [(s, cat(*ys)) for s, ys in cur]

@model("[T]::split_last", "[T]::split_last_mut")
def m_splitlast(I, st, c):
    v = content(I, st, c.args[0], c.tys[0]); L = length(v)
    t = I.target_of(st, c.args[0])
    return fork(I, st, eq(L, k(0)), NONE, lambda s: some(agg("()", None, [elemref(I, s, c.args[0], sub(L, k(1)), c.tys[0]), I.tref(I.textend(t, ("sl", k(0), sub(L, k(1)))))])))

@model("core::ops::range::RangeInclusive::new")
def m_rinew(I, st, c): return [(st, agg("core::ops::range::RangeInclusive", None, [c.args[0], c.args[1], FALSE]))]
@model("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def m_ribound(I, st, c):
    i = 0 if lastseg(c.path) == "start" else 1
    return [(st, I.tref(I.textend(I.target_of(st, c.args[0]), ("f", i, None, None))))]

@model("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains", "core::ops::range::RangeFrom::contains", "core::ops::range::RangeTo::contains", "core::ops::range::RangeToInclusive::contains")
def m_rangecontains(I, st, c):
    r = st.simp(content(I, st, c.args[0])); x = st.simp(content(I, st, c.args[1]))
    number = lambda y: is_intish(y) or (c.tys and c.tys[1] is not None and I.p.types[strip(I, c.tys[1])[0]]["k"] != "float" and comparable(I, strip(I, c.tys[1])[0]))
    if r.op != "agg" or not number(x): return None
    n = lastseg(r.a[0]); f = [content(I, st, y) if y.op == "ref" else y for y in r.a[2]]
    lo = f[0] if n in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = f[1] if n in ("Range", "RangeInclusive") else f[0] if n.startswith("RangeTo") else None
    if not all(y is None or number(y) for y in (lo, hi)): return None
    conds = []
    if lo is not None: conds.append((lt(x, lo), False))
    if hi is not None: conds.append((lt(hi, x), False) if n.endswith("Inclusive") else (lt(x, hi), True))
    out = []; cur = [st]
    for cd, want in conds:
        nx = []
        for s in cur:
            q = s.assume(cd, want)
            if q is not None: nx.append(q)
            q = s.assume(cd, not want)
            if q is not None: out.append((q, FALSE))
        cur = nx
    return out + [(s, TRUE) for s in cur]

@model("[T]::swap")
def m_sliceswap(I, st, c):
    s = st.copy()
    a = elemref(I, s, c.args[0], c.args[1], c.tys[0]); b = elemref(I, s, c.args[0], c.args[2], c.tys[0])
    x, y = I.load(s, a), I.load(s, b)
    I.store(s, a, y); I.store(s, b, x)
    return [(s, UNIT)]

@model("[T]::starts_with", "str::starts_with")
def m_startswith(I, st, c):
    if c.path.startswith("str") and I.p.types[c.tys[1]]["k"] != "ref":
        p = pattern(I, st, c, 1)
        return None if p is None else [(st, mk("strfn", "starts_with", content(I, st, c.args[0], c.tys[0]), p, ty="bool"))]
    v = content(I, st, c.args[0], c.tys[0]); p = content(I, st, c.args[1], c.tys[1])
    return [(st, mk("startswith", v, p, ty="bool"))]

@model("[T]::ends_with", "str::ends_with")
def m_endswith(I, st, c):
    t = I.p.types[c.tys[1]] if c.tys else {"k": "?"}
    if c.path.startswith("str") and t["k"] != "ref":
        p = pattern(I, st, c, 1)
        return None if p is None else [(st, mk("strfn", "ends_with", content(I, st, c.args[0], c.tys[0]), p, ty="bool"))]
    return [(st, mk("strfn", "ends_with", content(I, st, c.args[0], c.tys[0]), content(I, st, c.args[1], c.tys[1]), ty="bool"))]

STRFN_REF = ("trim", "trim_start", "trim_end")
STRFN = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")
@model(*["str::" + n for n in STRFN_REF + STRFN], *["alloc::str::" + n for n in STRFN])
def m_strfn(I, st, c):
    n = lastseg(c.path)
    v = mk("strfn", n, content(I, st, c.args[0], c.tys[0]), ty="seq")
    return [(st, ref(("C", v)) if n in STRFN_REF else v)]

def pattern(I, st, c, i):
    """a text pattern: what it matches, as a term (a text, or one of several characters)"""
    t = I.p.types[c.tys[i]]
    if t["k"] == "char": return mk("utf8", c.args[i], ty="seq") if c.args[i].op != "k" else bytes_(chr(c.args[i].a[0]).encode())
    s, t2 = strip(I, c.tys[i])
    if t2["k"] == "str" or t2.get("adt") == "alloc::string::String": return content(I, st, c.args[i], c.tys[i])
    if t2["k"] in ("array", "slice") and I.p.types[t2["to"]]["k"] == "char": return mk("oneof", content(I, st, c.args[i], c.tys[i]), ty="seq")
    if t["k"] == "fndef" or c.args[i].op == "fn":
        p = (t.get("callee") or {}).get("path", "")
        if p.startswith(("core::char", "char::")): return mk("charclass", lastseg(p), ty="seq")
    return None

@model("str::replace", "alloc::str::replace", "str::replacen", "alloc::str::replacen")
def m_replace(I, st, c):
    p = pattern(I, st, c, 1)
    if p is None: return None
    vs = [content(I, st, c.args[0], c.tys[0]), p, content(I, st, c.args[2], c.tys[2])] + list(c.args[3:])
    return [(st, mk("strfn", lastseg(c.path), *vs, ty="seq"))]

@model("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches", "str::trim_left_matches", "str::trim_right_matches")
def m_trimm(I, st, c):
    p = pattern(I, st, c, 1)
    if p is None: return None
    return [(st, ref(("C", mk("strfn", lastseg(c.path), content(I, st, c.args[0], c.tys[0]), p, ty="seq"))))]

@model("str::strip_prefix", "str::strip_suffix", "str::split_once", "str::rsplit_once")
def m_strip(I, st, c):
    p = pattern(I, st, c, 1)
    if p is None: return None
    v = content(I, st, c.args[0], c.tys[0]); n = lastseg(c.path)
    has = mk("strfn", {"strip_prefix": "starts_with", "strip_suffix": "ends_with"}.get(n, "contains"), v, p, ty="bool")
    w = lambda m: ref(("C", mk("strfn", m, v, p, ty="seq")))
    return fork(I, st, has, some(w(n)) if n.startswith("strip") else some(agg("()", None, [w(n + " 0"), w(n + " 1")])), NONE)

@model("str::repeat", "alloc::str::repeat")
def m_repeat(I, st, c): return [(st, mk("strfn", "repeat", content(I, st, c.args[0], c.tys[0]), c.args[1], ty="seq"))]

@model("str::split", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_terminator", "str::lines", "str::split_whitespace", "str::split_ascii_whitespace", "str::split_inclusive",
       "str::matches", "str::rmatches", "str::match_indices", "str::rmatch_indices")
def m_split(I, st, c):
    n = lastseg(c.path)
    xs = list(c.args[1:-1]) if n.endswith("splitn") else []
    if n not in ("lines", "split_whitespace", "split_ascii_whitespace"):
        p = pattern(I, st, c, len(c.args) - 1)
        if p is None: return None
        xs.append(p)
    v = mk("strsplit", n, content(I, st, c.args[0], c.tys[0]), *xs, ty="seq")
    return [(st, agg("it.vec", None, [v, k(0), length(v), k(-3)]))]

@model("[T]::concat", "alloc::slice::concat", "[T]::join", "alloc::slice::join")
def m_concat(I, st, c):
    import iters
    v = content(I, st, c.args[0], c.tys[0])
    sep = content(I, st, c.args[1], c.tys[1]) if len(c.args) > 1 else EMPTY
    if not is_seqlike(sep): sep = unit(sep)
    ps = parts(v)
    if all(p.op == "unit" for p in ps):
        xs = [content(I, st, p.a[0]) for p in ps]
        return [(st, cat(*[y for i, x in enumerate(xs) for y in ((sep, x) if i else (x,))]))]
    bv = iters.bindvar(cat(v, sep))
    x = content(I, st, index(v, bv, "seq", st.facts))
    return [(st, iters.collect_of(cat(gamma(eq(bv, k(0)), EMPTY, sep), x), k(0), length(v), bv, 1))]

# pointers
@model("alloc::vec::Vec::as_ptr", "[T]::as_ptr", "str::as_ptr", "alloc::vec::Vec::as_mut_ptr", "[T]::as_mut_ptr", "[T; N]::as_ptr")
def m_asptr(I, st, c):
    t = strip(I, c.tys[0])[1]
    et = t.get("to")
    if et is None and t.get("args"): et = t["args"][0]
    return [(st, mk("ptr", c.args[0], et))]

def layout_bytes(I, v, tid):
    """in-memory bytes of a value of a type, or None"""
    t = I.p.types[tid]
    big = bool(I.p.d.get("big_endian_cfg"))
    if t["k"] == "int":
        n = t["bits"] // 8
        if big: return lebytes(n, v.a[1]) if v.op == "swap" else (unit(v, True) if n == 1 else mk("be", n, v))
        return lebytes(n, v)
    if t["k"] == "array":
        if v.op in ("cat", "unit", "bytes", "le", "be"):
            n = t.get("len")
            if n is None: return None
            out = []
            for i in range(int(n)):
                b = layout_bytes(I, index(v, k(i), I.p.tyinfo(t["to"])), t["to"])
                if b is None or b.op == "padded": return b
                out.append(b)
            return cat(*out)
        if I.p.types[t["to"]]["s"] == "u8": return v
        n = t.get("len")
        if n is None or int(n) > 16: return None
        out = []
        for i in range(int(n)):
            b = layout_bytes(I, index(v, k(i), I.p.tyinfo(t["to"])), t["to"])
            if b is None or b.op == "padded": return b
            out.append(b)
        return cat(*out)
    if t["k"] == "adt" and not t.get("enum") and "variants" in t and t.get("offsets") is not None and t.get("size") is not None:
        fs = t["variants"][0]["f"]
        order = sorted(range(len(fs)), key=lambda i: t["offsets"][i])
        pos = 0; out = []
        for i in order:
            if t["offsets"][i] != pos: return mk("padded", t["s"])
            b = layout_bytes(I, fld(v, i, fs[i][0], I.p.tyinfo(fs[i][1])), fs[i][1])
            if b is None or b.op == "padded": return b
            out.append(b)
            sz = I.p.types[fs[i][1]].get("size")
            if sz is None: sz = I.p.types[fs[i][1]].get("bits", 0) // 8
            pos += sz
        if pos != t["size"]: return mk("padded", t["s"])
        return cat(*out)
    if t["k"] == "tuple" and t.get("offsets") is not None:
        es = t["elems"]; pos = 0; out = []
        for i in sorted(range(len(es)), key=lambda i: t["offsets"][i]):
            if t["offsets"][i] != pos: return mk("padded", t["s"])
            b = layout_bytes(I, fld(v, i, str(i), I.p.tyinfo(es[i])), es[i])
            if b is None or b.op == "padded": return b
            out.append(b); pos += tsize(I, es[i]) or 0
        return cat(*out) if pos == t["size"] else mk("padded", t["s"])
    return None

RAW_SITES = []
def raw_base(p):
    """what a pointer was made from, and the type it pointed to before any cast"""
    src = None
    while p.op == "ptrcast": src = p.a[1]; p = p.a[0]
    return p, src

def tsize(I, tid):
    t = I.p.types[tid]
    return t.get("size") or (t.get("bits", 0) // 8) or {"bool": 1, "char": 4}.get(t["s"])

def raw_access(I, st, p, n, etid, wr, align=True, path=""):
    """report a use of memory through a raw pointer to n values of a type"""
    b, src = raw_base(st.simp(p))
    info = dict(ptr=p, n=n, et=I.p.types[etid]["s"], etid=etid, st=st, wr=wr, align=align, path=path, srcty=I.p.types[src] if src is not None else None, srctid=src, kind="unknown")
    if b.op == "ptr":
        info.update(seq=content(I, st, I.load(st, b.a[0])), kind="elements")
        if src is None and b.a[1] is not None: info.update(srcty=I.p.types[b.a[1]], srctid=b.a[1])
    elif b.op in ("ref", "sym", "f", "deref", "mu", "as"): info.update(kind="object")
    I.emit("raw", **info)
    return b, src

def raw_target(I, st, p, etid):
    """the place a raw pointer to one value of a type designates, or None"""
    b, src = raw_base(st.simp(p))
    if b.op == "ptr":
        if src is None or src == etid: return I.textend(I.target_of(st, b.a[0]), ("ix", k(0), I.p.tyinfo(etid)))
        sz = tsize(I, etid)
        lb = layout_bytes(I, sym("spec.any", I.p.tyinfo(etid)), etid)
        if I.p.types[src]["s"] == "u8" and sz and lb is not None and lb.op != "padded":
            return I.textend(I.textend(I.target_of(st, b.a[0]), ("sl", k(0), k(sz))), ("frombytes", etid))
        return None
    if b.op in ("ref", "sym", "f", "deref", "mu", "as") and (src is None or src == etid): return I.target_of(st, b)
    return None

def raw_bytes(I, st, p, n):
    """n bytes at a pointer to bytes, or None"""
    b, src = raw_base(st.simp(p))
    if b.op == "ptr" and (src is None or I.p.types[src]["s"] == "u8"): return I.textend(I.target_of(st, b.a[0]), ("sl", k(0), n))
    if b.op in ("ref", "sym", "f", "deref", "mu", "as") and src is not None and n.op == "k" and n.a[0] == tsize(I, src): return I.textend(I.target_of(st, b), ("rawobj", src))
    return None

@model("core::ptr::read", "core::ptr::read_unaligned", "core::ptr::read_volatile", "[*const T]::read", "[*mut T]::read", "[*const T]::read_unaligned", "[*mut T]::read_unaligned")
def m_ptrread(I, st, c):
    et = c.callee["targs"][0]
    raw_access(I, st, c.args[0], k(1), et, False, "unaligned" not in c.path, c.path)
    t = raw_target(I, st, c.args[0], et)
    return None if t is None else [(st, I.tload(st, t))]

@model("core::ptr::write", "core::ptr::write_unaligned", "[*mut T]::write", "[*mut T]::write_unaligned")
def m_ptrwrite(I, st, c):
    et = c.callee["targs"][0]
    raw_access(I, st, c.args[0], k(1), et, True, "unaligned" not in c.path, c.path)
    t = raw_target(I, st, c.args[0], et)
    if t is None: return None
    s = st.copy(); I.tstore(s, t, c.args[1])
    return [(s, UNIT)]

@model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "[*const T]::copy_to_nonoverlapping", "[*const T]::copy_to", "[*mut T]::copy_from_nonoverlapping", "[*mut T]::copy_from")
def m_ptrcopy(I, st, c):
    et = c.callee["targs"][0]
    src, dst, n = c.args
    if "copy_from" in c.path: src, dst = dst, src
    raw_access(I, st, src, n, et, False, True, c.path)
    raw_access(I, st, dst, n, et, True, True, c.path)
    if I.p.types[et]["s"] != "u8": return None
    a, b = raw_bytes(I, st, src, n), raw_bytes(I, st, dst, n)
    if a is None or b is None: return None
    v = I.tload(st, a)
    s = st.copy(); I.tstore(s, b, v)
    return [(s, UNIT)]

@model("alloc::vec::Vec::set_len")
def m_setlen(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    I.emit("setlen", seq=v, n=c.args[1], st=st, call=c)
    t = I.target_of(st, c.args[0])
    s = st.copy()
    if st.decide(le(c.args[1], length(v))) is True: I.tstore(s, t, slice_(v, k(0), c.args[1], st.facts))
    else: I.tstore(s, t, cat(v, mk("undef", "unwritten", sub(c.args[1], length(v)), ty="seq")))
    return [(s, UNIT)]

@model("alloc::vec::Vec::reserve", "alloc::vec::Vec::reserve_exact", "alloc::vec::Vec::shrink_to_fit", "alloc::string::String::reserve", "smallvec::SmallVec::reserve", "std::collections::hash::map::HashMap::reserve")
def m_reserve(I, st, c): return [(st, UNIT)]

@model("alloc::vec::Vec::capacity", "alloc::string::String::capacity")
def m_capacity(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    r = mk("capacity", v, ty=("int", False, 64))
    s = st.assume(le(length(v), r), True)
    return [(s, r)] if s is not None else []

@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def m_rawparts(I, st, c):
    p0 = st.simp(c.args[0]); n = c.args[1]
    etid = c.callee["targs"][0]; et = I.p.types[etid]["s"]
    mut = c.path.endswith("_mut")
    p, src = raw_access(I, st, p0, n, etid, mut, True, c.path)
    if p.op == "ptr":
        seq = content(I, st, I.load(st, p.a[0]))
        if src is None or src == etid:
            return [(st, I.tref(I.textend(I.target_of(st, p.a[0]), ("sl", k(0), n))))] if mut else [(st, ref(("C", slice_(seq, k(0), n, st.facts))))]
        src_t = I.p.types[src]
        sz = tsize(I, src)
        if et == "u8" and sz and not mut:
            total = scale(length(seq), sz)
            b = None
            if seq.op == "map":
                lb = layout_bytes(I, seq.a[1], src)
                if lb is not None: b = mk("flatmap", seq.a[0], lb, *seq.a[2:], ty="seq")
            elif seq.op == "cat" and all(x.op == "unit" for x in seq.a) or seq.op == "unit":
                lbs = [layout_bytes(I, x.a[0], src) for x in parts(seq)]
                if all(x is not None for x in lbs): b = cat(*lbs)
            if b is None:
                e = sym("rawelt.%s" % src_t["s"], I.p.tyinfo(src))
                lb = layout_bytes(I, e, src)
                b = mk("rawelems", seq, e, lb, ty="seq") if lb is not None and lb.op != "padded" else mk("rawelems", seq, src_t["s"], ty="seq")
            if n is total: return [(st, ref(("C", mk("sized", b, n, ty="seq") if b.op in ("flatmap", "rawelems") else b)))]
            return [(st, ref(("C", mk("rawcut", b, n, ty="seq"))))]
        return None
    if p.op in ("ref", "sym", "f", "deref", "mu", "as"):
        # address of one object
        v = st.simp(I.load(st, p))
        if src is not None and et == "u8" and n.op == "k" and n.a[0] == tsize(I, src):
            if mut:    # writes through the byte view define the object
                return [(st, I.tref(I.textend(I.target_of(st, p), ("rawobj", src))))]
            lb = layout_bytes(I, v, src)
            if lb is not None: return [(st, ref(("C", lb)))]
        return [(st, mk("rawview", v, n, ty="ref"))]
    return None

# ---------------------------------------------------------------- comparison
def cmp_args(I, st, c):
    x = content(I, st, c.args[0], c.tys[0]); y = content(I, st, c.args[1], c.tys[1])
    return x, y

def comparable(I, tid):
    ti = I.p.tyinfo(tid); t = I.p.types[tid]
    return ti == "seq" or (ti is not None and ti[0] == "int") or t["k"] in ("bool", "char", "int") or (t["k"] == "adt" and t["adt"] in ("alloc::borrow::Cow",))

def ws_impl(I, st, c, trait, method, sidx=0):
    """workspace implementation behind reference layers (&A as PartialEq)"""
    tid, t = strip(I, c.tys[sidx])
    imp = (t.get("impls") or {}).get(trait)
    if imp and method in imp: return I.p.fns[imp[method]], tid
    return None, tid

def as_ref_chain(I, st, v, tid):
    """reference directly to the innermost value"""
    t = I.p.types[tid]
    if t["k"] != "ref":
        return None
    while I.p.types[t["to"]]["k"] == "ref":
        v = st.simp(I.load(st, v)); t = I.p.types[t["to"]]
    return v

@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def m_eq(I, st, c):
    ne = c.path.endswith("::ne")
    if c.tys is None or c.tys[0] is None: return None
    tid, t = strip(I, c.tys[0])
    if "fn" in c.callee and t.get("ws") and not by_value(I, tid, "core::cmp::PartialEq"): return None
    fn, _ = ws_impl(I, st, c, "core::cmp::PartialEq", "eq")
    if t["k"] in ("adt", "tuple") and not comparable(I, tid) and by_value(I, tid, "core::cmp::PartialEq") and tid == strip(I, c.tys[1])[0]:
        x, y = cmp_args(I, st, c)
        r = eq(values_of(I, st, x), values_of(I, st, y))
        return [(st, not_(r) if ne else r)]
    if fn is not None:
        a = as_ref_chain(I, st, c.args[0], c.tys[0]); b = as_ref_chain(I, st, c.args[1], c.tys[1])
        r = I.call_fn(fn, [a, b], st, c.site)
        if r is None: return None
        return [(s, not_(v) if ne else v) for s, v in r]
    x, y = cmp_args(I, st, c)
    r = structural_eq(I, st, x, y, tid)
    return [(st, not_(r) if ne else r)]

def structural_eq(I, st, x, y, tid):
    return eq(x, y)

def order_of(x, y):
    return gamma(lt(x, y), LESS, gamma(eq(x, y), EQUAL, GREATER))

@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def m_cmp(I, st, c):
    if c.tys is None or c.tys[0] is None: return None
    tid, t = strip(I, c.tys[0])
    part = c.path.endswith("partial_cmp")
    if "fn" in c.callee and t.get("ws"): return None
    fn, _ = ws_impl(I, st, c, "core::cmp::PartialOrd" if part else "core::cmp::Ord", lastseg(c.path))
    if fn is not None:
        a = as_ref_chain(I, st, c.args[0], c.tys[0]); b = as_ref_chain(I, st, c.args[1], c.tys[1])
        return I.call_fn(fn, [a, b], st, c.site)
    if not comparable(I, tid):
        a = as_ref_chain(I, st, c.args[0], c.tys[0]); b = as_ref_chain(I, st, c.args[1], c.tys[1])
        if a is None or b is None: return None
        o = cmp_struct(I, st, st.simp(I.load(st, a)), st.simp(I.load(st, b)), tid, c)
        if o is None: return None
        if part and t["k"] == "float": return [(st, gamma(unordered(*[st.simp(I.load(st, z)) for z in (a, b)]), NONE, some(o)))]
        return [(st, some(o) if part else o)]
    x, y = cmp_args(I, st, c)
    o = order_of(x, y)
    return [(st, some(o) if part else o)]

def fle(x, y): return mk("fle", x, y, ty="bool")
def unordered(x, y): return band(not_(fle(x, y)), not_(fle(y, x)))
def cmp_struct(I, st, x, y, tid, c):
    """ordering of two values of a compound type"""
    t = I.p.types[tid]
    if t["k"] in ("ref", "ptr"):
        return cmp_struct(I, st, content(I, st, x), content(I, st, y), strip(I, tid)[0], c)
    if t["k"] == "float": return gamma(fle(x, y), gamma(fle(y, x), EQUAL, LESS), GREATER)
    if t["k"] == "adt" and t["adt"] == "core::cmp::Reverse":
        return cmp_struct(I, st, fld(y, 0, "0"), fld(x, 0, "0"), t["args"][0], c)
    if t["k"] == "tuple":
        r = EQUAL
        for i in reversed(range(len(t["args"] if "args" in t else t["elems"]))):
            o = cmp_struct(I, st, fld(x, i, str(i)), fld(y, i, str(i)), (t.get("args") or t.get("elems"))[i], c)
            if o is None: return None
            r = gamma(isv(o, 1), r, o)
        return r
    imp = (t.get("impls") or {}).get("core::cmp::Ord")
    if imp and "cmp" in imp:
        ra, rb = ("T", uid(I, c, "ca")), ("T", uid(I, c, "cb"))
        s = st.copy(); s.mem[ra] = x; s.mem[rb] = y
        return purecall_fn(I, s, I.p.fns[imp["cmp"]], [ref(ra), ref(rb)], c.site)
    if comparable(I, tid): return order_of(content(I, st, x, tid), content(I, st, y, tid))
    return None

@model(*["f64::" + n for n in "round ceil floor trunc fract abs sqrt round_ties_even min max clamp signum mul_add powi is_nan is_finite is_infinite is_sign_negative is_sign_positive".split()])
def m_f64(I, st, c):
    if "fn" in c.callee: return None
    n = lastseg(c.path)
    return [(st, mk("fm", n, *[content(I, st, a, t) for a, t in zip(c.args, c.tys)], ty="bool" if n.startswith("is_") else "float"))]

@model("f64::total_cmp")
def m_totalcmp(I, st, c):
    x, y = content(I, st, c.args[0]), content(I, st, c.args[1])
    return [(st, gamma(fle(x, y), gamma(fle(y, x), EQUAL, LESS), GREATER))]

def one_value(outs, st):
    """the value of an effect-free computation, from its outcomes"""
    if not outs: return None
    r = None
    for s, v in reversed(outs):
        v = s.simp(v)
        c = TRUE
        for f, b in s.facts.d.items():
            if st.facts.d.get(f) is not b: c = band(c, f if b else not_(f))
        r = v if r is None else gamma(c, v, r)
        for root, x in s.mem.items():
            if root[0] in ("P", "G") and st.mem.get(root) is not x: return None
    return r

def purecall_fn(I, st, fn, args, site): return one_value(I.call_fn(fn, args, st, site), st)
def purecall(I, st, f, args, site):
    froot = ("T", "purefn"); s = st.copy(); s.mem[froot] = f
    return one_value(I.call_value(s, ref(froot), args, site), s)

@model("[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "[T]::sort", "[T]::sort_unstable")
def m_sort(I, st, c):
    """sorting: the sequence and the order of two arbitrary elements"""
    r = seqref(I, st, c.args[0], c.tys[0]); seq = st.simp(I.load(st, r))
    et = strip(I, c.tys[0])[1]
    eid = et.get("elem") if "elem" in et else (et.get("args") or [None])[0]
    ei = I.p.tyinfo(eid) if eid is not None else None
    depth = len(I.stack)
    xs = [mk("bindvar", 1000 + 2 * depth + i, ty=ei) for i in (0, 1)]
    roots = [("O", ("sort", depth, i)) for i in (0, 1)]
    s = st.copy()
    for q, x in zip(roots, xs): s.mem[q] = x
    m = lastseg(c.path)
    np = len(I.panics)
    if m.endswith("_key"):
        vs = [purecall(I, s, c.args[1], [ref(q)], (c.site, "key", i)) for i, q in enumerate(roots)]
        if None in vs: return None
        f = c.callee
        kt = next((a for a in (c.targs or []) if a is not None), None) if hasattr(c, "targs") else None
        o = cmp_any(I, s, vs[0], vs[1], c)
    elif m.endswith("_by"): o = purecall(I, s, c.args[1], [ref(q) for q in roots], (c.site, "cmp"))
    else: o = cmp_struct(I, s, xs[0], xs[1], eid, c) if eid is not None else None
    if o is None: return None
    del I.panics[np:]
    st = st.copy()
    I.store(st, r, mk("sorted", seq, o, xs[0], xs[1], ty="seq"))
    return [(st, UNIT)]

def cmp_any(I, st, x, y, c):
    """ordering of two values whose type is only known from the values"""
    x, y = st.simp(x), st.simp(y)
    if x.op == "gamma" and y.op == "gamma" or is_intish(x) or x.ty and x.ty[0] == "int": return order_of(x, y)
    if x.op == "ref" or x.ty == "ref": return cmp_any(I, st, content(I, st, x), content(I, st, y), c)
    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0]:
        if x.a[0] == "core::cmp::Reverse": return cmp_any(I, st, y.a[2][0], x.a[2][0], c)
        adt = next((t for t in I.p.types if t.get("adt") == x.a[0] and "impls" in t), None)
        imp = ((adt or {}).get("impls") or {}).get("core::cmp::Ord")
        if imp and "cmp" in imp:
            ra, rb = ("T", uid(I, c, "ca")), ("T", uid(I, c, "cb"))
            s = st.copy(); s.mem[ra] = x; s.mem[rb] = y
            return purecall_fn(I, s, I.p.fns[imp["cmp"]], [ref(ra), ref(rb)], c.site)
        if x.a[0] == "()":
            r = EQUAL
            for a, b in reversed(list(zip(x.a[2], y.a[2]))):
                o = cmp_any(I, st, a, b, c)
                if o is None: return None
                r = gamma(isv(o, 1), r, o)
            return r
        return None
    t = x.ty
    if t == "float": return gamma(fle(x, y), gamma(fle(y, x), EQUAL, LESS), GREATER)
    if t == "seq" or is_seqlike(x): return order_of(x, y)
    if t and t[0] == "adt":
        adt = next((q for q in I.p.types if q.get("adt") == t[1] and "impls" in q), None)
        imp = ((adt or {}).get("impls") or {}).get("core::cmp::Ord")
        if imp and "cmp" in imp:
            ra, rb = ("T", uid(I, c, "ca")), ("T", uid(I, c, "cb"))
            s = st.copy(); s.mem[ra] = x; s.mem[rb] = y
            return purecall_fn(I, s, I.p.fns[imp["cmp"]], [ref(ra), ref(rb)], c.site)
    return None

def bound(I, base=2000):
    return mk("bindvar", base + 2 * len(I.stack), ty=None)

def eq_elem(I, st, x, y, eid):
    """equality of two elements, if that is by value"""
    if eid is None: return None
    t = I.p.types[eid]
    if t["k"] in ("float",): return None
    if comparable(I, eid): return eq(content(I, st, x, eid), content(I, st, y, eid))
    if by_value(I, eid, "core::cmp::PartialEq"): return eq(values_of(I, st, x), values_of(I, st, y))
    return None

def elem_id(I, tid):
    et = strip(I, tid)[1]
    e = et.get("to") if et["k"] in ("slice", "array") else (et.get("args") or [None])[0]
    if e is not None and et.get("adt") == "smallvec::SmallVec": e = I.p.types[e].get("to")
    return e

def binders(I, c, n, base):
    eid = elem_id(I, c.tys[0]); ei = I.p.tyinfo(eid) if eid is not None else None
    d = len(I.stack)
    return eid, [mk("bindvar", base + 2 * d + i, ty=ei) for i in range(n)]

@model("alloc::vec::Vec::retain", "smallvec::SmallVec::retain")
def m_retain(I, st, c):
    r = seqref(I, st, c.args[0], c.tys[0]); seq = st.simp(I.load(st, r))
    _, (x,) = binders(I, c, 1, 3000)
    s = st.copy(); q = ("O", ("retain", len(I.stack))); s.mem[q] = x
    np = len(I.panics)
    p = purecall(I, s, c.args[1], [ref(q)], (c.site, "keep"))
    del I.panics[np:]
    if p is None: return None
    st = st.copy(); I.store(st, r, mk("filtered", seq, p, x, ty="seq"))
    return [(st, UNIT)]

@model("alloc::vec::Vec::dedup", "alloc::vec::Vec::dedup_by_key", "smallvec::SmallVec::dedup")
def m_dedup(I, st, c):
    r = seqref(I, st, c.args[0], c.tys[0]); seq = st.simp(I.load(st, r))
    eid, (x, y) = binders(I, c, 2, 4000)
    if c.path.endswith("_key"):
        s = st.copy(); qs = [("O", ("dedup", len(I.stack), i)) for i in (0, 1)]
        for q, z in zip(qs, (x, y)): s.mem[q] = z
        np = len(I.panics)
        vs = [purecall(I, s, c.args[1], [ref(q)], (c.site, "key", i)) for i, q in enumerate(qs)]
        del I.panics[np:]
        if None in vs: return None
        e = eq(values_of(I, s, vs[0]), values_of(I, s, vs[1]))
    else: e = eq_elem(I, st, x, y, eid)
    if e is None: return None
    st = st.copy(); I.store(st, r, mk("deduped", seq, e, x, y, ty="seq"))
    return [(st, UNIT)]

@model("[T]::contains")
def m_seqcontains(I, st, c):
    seq = content(I, st, c.args[0], c.tys[0])
    eid, (x,) = binders(I, c, 1, 5000)
    if eid is None: return None
    e = eq_elem(I, st, x, I.load(st, c.args[1]), eid)
    if e is None: return None
    return [(st, not_(eq(length(mk("filtered", seq, e, x, ty="seq")), k(0))))]

@model("alloc::vec::Vec::split_off")
def m_splitoff(I, st, c):
    s = st.copy()
    v = content(I, s, c.args[0], c.tys[0]); i = c.args[1]
    I.store(s, c.args[0], slice_(v, k(0), i, s.facts))
    return [(s, slice_(v, i, length(v), s.facts))]

@model("alloc::vec::Vec::swap_remove", "smallvec::SmallVec::swap_remove")
def m_swapremove(I, st, c):
    s = st.copy(); b = isbyte(I, c.tys[0])
    v = content(I, s, c.args[0], c.tys[0]); i = c.args[1]; L = length(v); et = elem_tyinfo(I, c.tys[0])
    last = index(v, sub(L, k(1)), et, s.facts); it = index(v, i, et, s.facts)
    moved = cat(slice_(v, k(0), i, s.facts), unit(last, b), slice_(v, add(i, k(1)), sub(L, k(1)), s.facts))
    I.store(s, c.args[0], gamma(eq(i, sub(L, k(1))), slice_(v, k(0), i, s.facts), moved))
    return [(s, it)]

@model("smallvec::SmallVec::inline_size")
def m_inlinesize(I, st, c):
    t = strip(I, c.tys[0])[1]
    a = I.p.types[t["args"][0]] if t.get("args") else {}
    n = a.get("len")
    if not isinstance(n, int):
        m = re.search(r"; (\d+)\]$", a.get("s", ""))
        if not m: return None
        n = int(m.group(1))
    return [(st, k(n))]

@model("[T]::reverse")
def m_seqreverse(I, st, c):
    r = seqref(I, st, c.args[0], c.tys[0]); seq = st.simp(I.load(st, r))
    st = st.copy(); I.store(st, r, mk("reversed", seq, ty="seq"))
    return [(st, UNIT)]

@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def m_ordop(I, st, c):
    if c.tys is None or c.tys[0] is None: return None
    tid, t = strip(I, c.tys[0])
    op = lastseg(c.path)
    if t["k"] == "param" or comparable(I, tid):
        x, y = cmp_args(I, st, c)
        r = {"lt": lambda: lt(x, y), "le": lambda: le(x, y), "gt": lambda: lt(y, x), "ge": lambda: le(y, x)}[op]()
        return [(st, r)]
    fn, _ = ws_impl(I, st, c, "core::cmp::PartialOrd", "partial_cmp")
    if fn is not None:
        a = as_ref_chain(I, st, c.args[0], c.tys[0]); b = as_ref_chain(I, st, c.args[1], c.tys[1])
        r = I.call_fn(fn, [a, b], st, c.site)
        if r is None: return None
        out = []
        for s, v in r:
            issome = isv(v, 1)
            o = fld(down(v, 1), 0, "0")
            res = {"lt": lambda: isv(o, 0), "le": lambda: not_(isv(o, 2)), "gt": lambda: isv(o, 2), "ge": lambda: not_(isv(o, 0))}[op]()
            out.append((s, band(issome, res)))
        return out
    return None

@model("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max")
def m_minmax(I, st, c):
    x, y = c.args[0], c.args[1]
    op = lastseg(c.path)
    tid = c.tys[0]
    if tid is not None:
        t = I.p.types[tid]
        imp = (t.get("impls") or {})
        if t.get("ws") and "core::cmp::Ord" in imp and "cmp" in imp["core::cmp::Ord"]:
            fn = I.p.fns[imp["core::cmp::Ord"]["cmp"]]
            ra, rb = ("T", uid(I, c, "a")), ("T", uid(I, c, "b"))
            s = st.copy(); s.mem[ra] = x; s.mem[rb] = y
            r = I.call_fn(fn, [ref(ra), ref(rb)], s, c.site)
            if r is None: return None
            out = []
            for s2, o in r:
                g = isv(o, 2)   # x > y
                out.append((s2, gamma(g, y, x) if op == "min" else gamma(g, x, y)))
            return out
        ti = I.p.tyinfo(tid)
        if ti and ti[0] == "int":
            for v in (x, y):
                if v.ty is None and v.op not in ("k", "lin", "gamma"): v.ty = ti
        if t["k"] == "ref" or not comparable(I, tid): return None
    return [(st, minmax(op, x, y))]

@model("core::cmp::Ord::clamp")
def m_clamp(I, st, c):
    t = I.p.types[c.tys[0]] if c.tys and c.tys[0] is not None else {}
    if t.get("k") not in ("int", "char"): return None
    x, lo, hi = (st.simp(y) for y in c.args)
    s = st.assume(le(lo, hi), True)
    if s is None:
        I.panic(st, "clamp", "min > max"); return []
    return [(s, minmax("min", minmax("max", x, lo), hi))]

@model("core::cmp::Reverse", "core::cmp::Ordering::reverse")
def m_reverse(I, st, c):
    if not c.path.endswith("reverse"): return None
    o = c.args[0]
    return [(st, gamma(isv(o, 0), GREATER, gamma(isv(o, 1), EQUAL, LESS)))]

@model("str::eq_ignore_ascii_case")
def m_eqic(I, st, c):
    x, y = cmp_args(I, st, c)
    return [(st, mk("eqic", x, y, ty="bool"))]

# ---------------------------------------------------------------- time
NS = 10 ** 9
def dur(I, st, c, i=0):
    v = content(I, st, c.args[i], c.tys[i])
    return v

@model("core::time::Duration::from_nanos", "core::time::Duration::from_nanos_u128")
def m_dfn(I, st, c): return [(st, c.args[0])]
@model("core::time::Duration::from_micros")
def m_dfu(I, st, c): return [(st, scale(c.args[0], 1000))]
@model("core::time::Duration::from_millis")
def m_dfm(I, st, c): return [(st, scale(c.args[0], 10**6))]
@model("core::time::Duration::from_secs")
def m_dfs(I, st, c): return [(st, scale(c.args[0], NS))]
@model("core::time::Duration::new")
def m_dnew(I, st, c): return [(st, add(scale(c.args[0], NS), c.args[1]))]
@model("core::time::Duration::as_nanos")
def m_dan(I, st, c): return [(st, dur(I, st, c))]
@model("core::time::Duration::as_micros")
def m_dau(I, st, c): return [(st, div(dur(I, st, c), k(1000)))]
@model("core::time::Duration::as_millis")
def m_dam(I, st, c): return [(st, div(dur(I, st, c), k(10**6)))]
@model("core::time::Duration::as_secs")
def m_das(I, st, c): return [(st, div(dur(I, st, c), k(NS)))]
@model("core::time::Duration::subsec_nanos")
def m_dsn(I, st, c): return [(st, rem(dur(I, st, c), k(NS)))]
@model("core::time::Duration::subsec_micros")
def m_dsu(I, st, c): return [(st, div(rem(dur(I, st, c), k(NS)), k(1000)))]
@model("core::time::Duration::subsec_millis")
def m_dsm(I, st, c): return [(st, div(rem(dur(I, st, c), k(NS)), k(10**6)))]
@model("core::time::Duration::from_mins", "core::time::Duration::from_hours", "core::time::Duration::from_days", "core::time::Duration::from_weeks")
def m_dfl(I, st, c): return [(st, scale(c.args[0], NS * {"from_mins": 60, "from_hours": 3600, "from_days": 86400, "from_weeks": 604800}[lastseg(c.path)]))]
@model("core::time::Duration::abs_diff")
def m_dad(I, st, c):
    x, y = dur(I, st, c), dur(I, st, c, 1)
    return [(st, sub(minmax("max", x, y), minmax("min", x, y)))]
@model("core::time::Duration::from_secs_f64", "core::time::Duration::from_secs_f32")
def m_dff(I, st, c): return [(st, mk("f64secs", content(I, st, c.args[0], c.tys[0]), ty=("int", False, 128)))]
@model("core::time::Duration::mul_f64")
def m_dmf(I, st, c): return [(st, mk("f64secs", mk("fmul", content(I, st, c.args[1], c.tys[1]), mk("secsf64", dur(I, st, c), ty="float"), ty="float"), ty=("int", False, 128)))]
@model("core::time::Duration::div_f64")
def m_ddf(I, st, c): return [(st, mk("f64secs", mk("fdiv", mk("secsf64", dur(I, st, c), ty="float"), content(I, st, c.args[1], c.tys[1]), ty="float"), ty=("int", False, 128)))]
@model("core::time::Duration::as_secs_f32")
def m_dsf32(I, st, c): return [(st, mk("f2f", mk("secsf64", dur(I, st, c), ty="float"), 32, ty="float"))]
@model("core::time::Duration::is_zero")
def m_dz(I, st, c): return [(st, eq(dur(I, st, c), k(0)))]
@model("core::time::Duration::as_secs_f64")
def m_dsf(I, st, c): return [(st, mk("secsf64", dur(I, st, c), ty="float"))]
@model("core::time::Duration::checked_sub", "core::time::Duration::checked_add", "core::time::Duration::saturating_sub", "core::time::Duration::saturating_add",
       "std::time::SystemTime::checked_add", "std::time::SystemTime::checked_sub", "std::time::Instant::checked_add", "std::time::Instant::checked_sub")
def m_dchk(I, st, c):
    x, y = dur(I, st, c), dur(I, st, c, 1)
    n = lastseg(c.path)
    if n == "checked_add": return [(st, some(add(x, y)))]
    if n == "saturating_add": return [(st, add(x, y))]
    if n == "checked_sub": return fork(I, st, lt(x, y), NONE, lambda s: some(sub(x, y)))
    return [(st, minmax("max", sub(x, y), k(0)))]
@model("std::time::SystemTime::duration_since")
def m_dsince(I, st, c):
    x, y = dur(I, st, c), dur(I, st, c, 1)
    return fork(I, st, lt(x, y), lambda s: err(mk("systime-err", sub(y, x))), lambda s: ok(sub(x, y)))
@model("std::time::Instant::duration_since", "std::time::Instant::saturating_duration_since")
def m_idsince(I, st, c):
    x, y = dur(I, st, c), dur(I, st, c, 1)
    return [(st, minmax("max", sub(x, y), k(0)))]
@model("std::time::SystemTime::now", "std::time::Instant::now")
def m_now(I, st, c):
    I.emit("clock", call=c, st=st)
    return [(st, mk("now", c.path, uid(I, c, "now"), ty=("int", False, 128)))]
@model("std::time::Instant::elapsed")
def m_elapsed(I, st, c):
    I.emit("clock", call=c, st=st)
    return [(st, sub(mk("now", "std::time::Instant::now", uid(I, c, "now"), ty=("int", False, 128)), dur(I, st, c)))]

# ---------------------------------------------------------------- formatting
def fmtkind(p): return lastseg(p).replace("new_", "")
for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer"):
    def _mk(kind):
        @model("core::fmt::rt::Argument::new_" + kind)
        def m_arg(I, st, c):
            tid, t = strip(I, c.tys[0])
            v = content(I, st, c.args[0], c.tys[0])
            return [(st, agg("fmtarg", None, [mk("fk_", kind), v, k(tid)]))]
    _mk(_k)

@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def m_fmtstr(I, st, c): return [(st, agg("fmtargs", None, [content(I, st, c.args[0], c.tys[0])]))]

@model("core::fmt::Arguments::new_const")
def m_fmtconst(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    ps = [content(I, st, p.a[0]) for p in parts(v) if p.op == "unit"]
    return [(st, agg("fmtargs", None, [cat(*ps)]))]

@model("core::fmt::Arguments::new")
def m_fmtnew(I, st, c):
    tpl = content(I, st, c.args[0], c.tys[0])
    args = content(I, st, c.args[1], c.tys[1])
    if tpl.op != "bytes": return None
    b = tpl.a[0]; i = 0; out = []; ai = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(bytes_(b[i:i + n])); i += n
        elif n == 0x80:
            L = b[i] | b[i + 1] << 8; i += 2
            out.append(bytes_(b[i:i + L])); i += L
        else:
            spec = []
            for bit, w, nm in ((1, 4, "flags"), (2, 2, "width"), (4, 2, "prec"), (8, 2, "idx")):
                if n & bit:
                    v = int.from_bytes(b[i:i + w], "little"); i += w
                    if nm == "idx": ai = v
                    else:
                        if nm == "width" and n & 16 or nm == "prec" and n & 32:
                            a = index(args, k(v))
                            spec.append((nm + "*", fld(a, 1, "1") if a.op == "agg" else a))
                        else: spec.append((nm, v))
            a = index(args, k(ai)); ai += 1
            if a.op != "agg": out.append(mk("fmt", "?", tuple(spec), a, "?", ty="seq")); continue
            kind = a.a[2][0].a[0] if a.a[2][0].op == "fk_" else "?"
            tid = a.a[2][2].a[0]
            r = fmt_value(I, st, c, a.a[2][1], tid, kind, tuple(spec), ai)
            out.append(r)
    return [(st, agg("fmtargs", None, [cat(*out)]))]

def shown_as(I, c, v, tid, fn, spec):
    """text of any value of a type, computed once; None if it is not one known function of the value"""
    memo = I.__dict__.setdefault("shown_memo", {}); key = (tid, fn["id"], tuple(spec)); x = sym("spec.shown.%d" % tid, I.p.tyinfo(tid))
    if key not in memo:
        memo[key] = None
        root, fr = ("O", "spec-shown", tid), ("T", "spec-shownf", tid)
        s = IP.State(); s.mem[root] = x; s.mem[fr] = agg("formatter", None, [EMPTY, mk("spec_", tuple(spec))])
        np = len(I.panics)
        try: r = I.call_fn(fn, [ref(root), ref(fr)], s, ("shown", tid, c.site))
        except Undecided: r = None
        if len(I.panics) > np or not r: return None
        s2 = I.join([q for q, _ in r], ("disp", uid(I, c, "dj"))) if len(r) > 1 else r[0][0]
        o = s2.mem.get(fr)
        if o is not None and o.op == "agg" and not any(y.op in ("mu", "phi", "ref", "call") for y in subterms(o.a[2][0])): memo[key] = o.a[2][0]
    t = memo[key]
    return None if t is None else subst(t, {x: v})

def fmt_value(I, st, c, v, tid, kind, spec, n=0):
    t = I.p.types[tid]
    trait = {"display": "core::fmt::Display", "debug": "core::fmt::Debug"}.get(kind)
    if t.get("ws") and trait:
        imp = (t.get("impls") or {}).get(trait)
        if imp and "fmt" in imp and trait == "core::fmt::Display" and not any(x.op == "ref" for x in subterms(v)):
            x = shown_as(I, c, v, tid, I.p.fns[imp["fmt"]], spec)
            if x is not None: return st.simp(x)
        if imp and "fmt" in imp:
            # run the Display implementation on a formatter collecting text
            root = ("T", uid(I, c, "fmtv%d" % n)); fr = ("T", uid(I, c, "fmtr%d" % n))
            s = st.copy(); s.mem[root] = v; s.mem[fr] = agg("formatter", None, [EMPTY, mk("spec_", tuple(spec))])
            try:
                r = I.call_fn(I.p.fns[imp["fmt"]], [ref(root), ref(fr)], s, ("disp", n, c.site))
            except Undecided:
                r = None
            if r:
                s2 = I.join([x for x, _ in r], ("disp", uid(I, c, "dj"))) if len(r) > 1 else r[0][0]
                o = s2.mem.get(fr)
                if o is not None and o.op == "agg": return o.a[2][0]
    return display(I, st, c, v, tid, kind, spec)[0][1]

def formatter_append(I, st, c, text):
    s = st.copy()
    f = st.simp(I.load(s, c.args[0]))
    if f.op == "agg" and f.a[0] == "formatter":
        I.store(s, c.args[0], agg("formatter", None, [cat(f.a[2][0], text)] + list(f.a[2][1:])))
        return [(s, ok(UNIT))]
    return None

@model("core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def m_fws(I, st, c):
    t = selfty(I, c)
    if I.p.tyinfo(strip(I, c.tys[0])[0]) == "seq":
        modify(I, st, c, lambda s, v: v)
        s = st.copy(); I.store(s, c.args[0], cat(I.load(s, c.args[0]), content(I, s, c.args[1], c.tys[1])))
        return [(s, ok(UNIT))]
    return formatter_append(I, st, c, content(I, st, c.args[1], c.tys[1]))

@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt")
def m_fwf(I, st, c):
    a = c.args[1]
    if a.op != "agg": return None
    if I.p.tyinfo(strip(I, c.tys[0])[0]) == "seq":
        s = st.copy(); I.store(s, c.args[0], cat(I.load(s, c.args[0]), a.a[2][0]))
        return [(s, ok(UNIT))]
    return formatter_append(I, st, c, a.a[2][0])

@model("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def m_fmtfwd(I, st, c):
    """formatting with the formatter one was given"""
    if c.tys is None or c.tys[0] is None: return None
    tid, t = strip(I, c.tys[0])
    if "fn" in c.callee and t.get("ws"): return None
    f = st.simp(I.load(st, c.args[1]))
    if not (f.op == "agg" and f.a[0] == "formatter" and len(f.a[2]) > 1): return None
    kind = "display" if "Display" in c.path else "debug"
    return formatter_append_at(I, st, c.args[1], fmt_value(I, st, c, content(I, st, c.args[0], c.tys[0]), tid, kind, f.a[2][1].a[0]))

def formatter_append_at(I, st, fr, text):
    s = st.copy(); f = s.simp(I.load(s, fr))
    I.store(s, fr, agg("formatter", None, [cat(f.a[2][0], text)] + list(f.a[2][1:])))
    return [(s, ok(UNIT))]

@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def m_format(I, st, c):
    a = c.args[0]
    return [(st, a.a[2][0])] if a.op == "agg" else None

@model("std::io::stdio::_print", "std::io::stdio::_eprint")
def m_print(I, st, c):
    a = c.args[0]
    text = a.a[2][0] if a.op == "agg" else mk("text", a)
    s = st.copy()
    root = ("G", "stdout" if c.path.endswith("_print") and "_eprint" not in c.path else "stderr")
    s.mem[root] = cat(s.mem.get(root, EMPTY), text)
    I.emit("print", text=text, st=s, call=c, stream=root[1])
    return [(s, UNIT)]

# ---------------------------------------------------------------- panics
PANICS = {"core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::option::unwrap_failed",
          "core::option::expect_failed", "core::result::unwrap_failed", "std::panicking::begin_panic", "std::rt::begin_panic",
          "core::panicking::panic_display", "core::panicking::panic_explicit", "core::panicking::unreachable_display", "std::process::exit", "std::process::abort",
          "core::panicking::panic_const", "core::intrinsics::abort", "core::panicking::panic_str_2015", "core::panicking::unreachable_default_msg"}
def m_panic(I, st, c):
    if c.path.endswith("unreachable_default_msg"): return [(st, agg("fmtargs", None, [bytes_(b"internal error: entered unreachable code")]))]
    msg = ""
    if c.args:
        a = c.args[0]
        if c.path.endswith("unwrap_failed") and len(c.args) > 1: a = c.args[0]
        if a.op == "agg" and a.a[0] == "fmtargs": a = a.a[2][0]
        msg = content(I, st, a)
        msg = msg.a[0].decode("utf-8", "replace") if msg.op == "bytes" else show(msg)
    I.panic(st, c.path, msg)
    return []
for _p in PANICS: MODELS[_p] = m_panic

# ---------------------------------------------------------------- I/O
def io_result(I, c, okv):
    """Result of a fallible operation: either Ok(okv) or an error."""
    return mk("ioerr", uid(I, c, "ioe"))

def io_fork(I, st, c, fok, what=""):
    u = uid(I, c, "io")
    cond = mk("iofail", u, ty="bool")
    if not hasattr(I, "io_sites"): I.io_sites = {}
    I.io_sites.setdefault(cond, "%s (%s:%s)" % ("::".join(c.path.split("::")[-2:]), I.stack[-1].fn["file"] if I.stack else "?", I.line))
    out = []
    s = st.assume(cond, False)
    if s is not None:
        r = fok(s.copy())
        out.append(r)
    s = st.assume(cond, True)
    if s is not None and not getattr(I, "io_ok", False):
        s = s.copy()
        key = ("G", "failed")
        s.mem[key] = cat(s.mem.get(key, EMPTY), unit(bytes_(("%s:%s %s" % (I.stack[-1].fn["file"] if I.stack else "?", I.line, c.path)).encode())))
        out.append((s, err(mk("ioerr", u))))
    return out

def writer_target(I, st, v, tid):
    """reference to the sink itself below reference layers"""
    return v

@model("core::io::write::Write::write_all", "std::io::Write::write_all")
def m_write_all(I, st, c):
    if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
    return write_all(I, st, c, c.args[0], c.tys[0], content(I, st, c.args[1], c.tys[1]), c.args[1], c.tys[1])

def sink_type(I, st, v, tid):
    """follow &mut layers / dyn provenance; -> (reference to sink, type)"""
    t = I.p.types[tid]
    while t["k"] in ("ref",) or (t["k"] == "adt" and t["adt"] == "alloc::boxed::Box"):
        nt = t["to"] if t["k"] == "ref" else t["args"][0]
        n = I.p.types[nt]
        if n["k"] == "dyn":
            d = DYN.get(st.simp(v))
            if d is None: return v, None
            t2 = I.p.types[d[1]]
            if t2["k"] == "ref":
                v = st.simp(I.load(st, v)); tid = d[1]; t = t2; continue
            return v, d[1]
        if n["k"] == "ref" or (n["k"] == "adt" and n["adt"] == "alloc::boxed::Box"):
            v = st.simp(I.load(st, v)); t = n; tid = nt; continue
        return v, nt
    return v, tid

@model("std::io::stdio::stdout", "std::io::stdio::stderr", "std::io::stdout", "std::io::stderr")
def m_stdout(I, st, c): return [(st, agg("std.Out", None, [bytes_(lastseg(c.path).encode())]))]
for _o in ("Stdout", "Stderr"):
    @model("std::io::stdio::%s::lock" % _o, "std::io::%s::lock" % _o)
    def m_lockout(I, st, c):
        v = content(I, st, c.args[0])
        return [(st, v)] if v.op == "agg" and v.a[0] == "std.Out" else None

def stdstream(I, st, r):
    """place of the text written to the standard stream below references, or None"""
    for _ in range(4):
        v = st.simp(I.load(st, r))
        if v.op == "agg" and v.a[0] == "std.Out": return ("G", v.a[2][0].a[0].decode())
        if v.op != "ref": return None
        r = v

def write_all(I, st, c, v, tid, data, dataref, dataty):
    r, sid = sink_type(I, st, v, tid)
    std = stdstream(I, st, r) if r.op == "ref" else None
    if std is not None:
        def fstd(s):
            s.mem[std] = cat(s.mem.get(std, EMPTY), data)
            I.emit("print", text=data, st=s, call=c, stream=std[1])
            return (s, ok(UNIT))
        return io_fork(I, st, c, fstd)
    if sid is not None:
        t = I.p.types[sid]
        if I.write_contract is not None:
            s = I.write_contract(I, st, r, sid, data, c)
            if s is not None: return io_fork(I, st, c, lambda q: (I.write_contract(I, q, r, sid, data, c), ok(UNIT)))
        imp = (t.get("impls") or {}).get("core::io::write::Write") or (t.get("impls") or {}).get("std::io::Write")
        if imp and "write_all" in imp:
            return I.call_fn(I.p.fns[imp["write_all"]], [r, dataref], st, ("wa", c.site))
        if imp and "write" in imp:
            # provided method: repeats write() until everything is written
            I.full_write = getattr(I, "full_write", 0) + 1
            try: outs = I.call_fn(I.p.fns[imp["write"]], [r, dataref], st, ("w", c.site))
            finally: I.full_write -= 1
            if outs is None: return None
            res = []
            for s, o in outs:
                I.emit("write-impl", ret=o, data=data, st=s, fn=I.p.fns[imp["write"]])
                if o.op == "agg" and o.a[1] == 0: res.append((s, ok(UNIT)))
                elif o.op == "agg": res.append((s, o))
                else: res += fork(I, s, isv(o, 0), ok(UNIT), lambda q: err(fld(down(o, 1), 0, "0")))
            return res
        if t["k"] == "adt" and I.p.tyinfo(sid) == "seq":
            s = st.copy()
            I.store(s, r, cat(I.load(s, r), data))
            return [(s, ok(UNIT))]
    def fok(s):
        cur = I.load(s, r)
        if cur.op == "agg": cur = mk("io", cur, ty="seq")
        cur.ty = "seq" if cur.ty is None or cur.ty[0] == "adt" else cur.ty
        I.store(s, r, cat(cur, data))
        I.emit("write", sink=r, data=data, st=s, ty=sid)
        return (s, ok(UNIT))
    return io_fork(I, st, c, fok)

@model("core::io::write::Write::write", "std::io::Write::write")
def m_write(I, st, c):
    if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
    data = content(I, st, c.args[1], c.tys[1])
    I.emit("raw-write", call=c, st=st, data=data)
    r, sid = sink_type(I, st, c.args[0], c.tys[0])
    t = I.p.types[sid] if sid is not None else None
    vec = t is not None and t["k"] == "adt" and I.p.tyinfo(sid) == "seq" and not t["adt"].endswith("BufWriter")
    n = length(data)
    if not vec and not getattr(I, "full_write", 0):
        # a writer may accept only part of the data
        n = minmax("min", mk("accepted", uid(I, c, "short"), ty=("int", False, 64)), n)
        data = slice_(data, k(0), n, st.facts)
    imp = t and ((t.get("impls") or {}).get("core::io::write::Write") or {}).get("write")
    if I.write_contract is not None and sid is not None:
        s = I.write_contract(I, st, r, sid, data, c)
        if s is not None: return io_fork(I, st, c, lambda q: (I.write_contract(I, q, r, sid, data, c), ok(n)))
    if imp is not None:
        return I.call_fn(I.p.fns[imp], [r, c.args[1]], st, ("w", c.site))
    outs = write_all(I, st, c, c.args[0], c.tys[0], data, c.args[1], c.tys[1])
    if outs is None: return None
    res = []
    for s, o in outs:
        if o.op == "agg" and o.a[1] == 0: res.append((s, ok(n)))
        else: res.append((s, o))
    return res

@model("core::io::write::Write::write_fmt", "std::io::Write::write_fmt")
def m_write_fmt(I, st, c):
    a = c.args[1]
    text = a.a[2][0] if a.op == "agg" else mk("text", a, ty="seq")
    rr = ref(("C", text))
    return write_all(I, st, c, c.args[0], c.tys[0], text, rr, None)

@model("core::io::write::Write::flush", "std::io::Write::flush")
def m_flush(I, st, c):
    if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
    r, sid = sink_type(I, st, c.args[0], c.tys[0])
    if sid is not None:
        t = I.p.types[sid]
        imp = (t.get("impls") or {}).get("core::io::write::Write")
        if imp and "flush" in imp: return I.call_fn(I.p.fns[imp["flush"]], [r], st, ("fl", c.site))
    if r.op == "ref" and stdstream(I, st, r) is not None: return io_fork(I, st, c, lambda s: (s, ok(UNIT)))
    I.emit("flush", sink=r, st=st, call=c, ty=sid)
    def fok(s):
        key = ("G", "flushed")
        s.mem[key] = cat(s.mem.get(key, EMPTY), unit(mk("flushed", r, I.load(s, r))))
        return (s, ok(UNIT))
    return io_fork(I, st, c, fok)

@model("alloc::io::buffered::bufwriter::BufWriter::new", "std::io::buffered::bufwriter::BufWriter::new")
def m_bufw(I, st, c):
    return [(st, mk("bufwriter", c.args[0], ty="seq"))]

@model("std::fs::File::create", "std::fs::File::open", "std::fs::File::create_new")
def m_fcreate(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    I.emit("file", op=lastseg(c.path), path=p, st=st, call=c)
    u = uid(I, c, "file")
    return io_fork(I, st, c, lambda s: (s, ok(mk("file", lastseg(c.path), p, u, ty="seq"))))

@model("std::fs::read")
def m_fread(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    I.emit("file", op="read", path=p, st=st, call=c)
    return io_fork(I, st, c, lambda s: (s, ok(mk("filedata", p, ty="seq"))))

@model("std::fs::read_to_string")
def m_freads(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    I.emit("file", op="read", path=p, st=st, call=c)
    return io_fork(I, st, c, lambda s: (s, ok(mk("filedata", p, ty="seq"))))

@model("std::fs::write")
def m_fwrite(I, st, c):
    p = content(I, st, c.args[0], c.tys[0]); d = content(I, st, c.args[1], c.tys[1])
    def fok(s):
        root = ("G", "files")
        s.mem[root] = cat(s.mem.get(root, EMPTY), unit(agg("filewrite", None, [p, d])))
        I.emit("file", op="write", path=p, data=d, st=s, call=c)
        return (s, ok(UNIT))
    return io_fork(I, st, c, fok)

@model("std::fs::create_dir_all", "std::fs::create_dir", "std::fs::remove_file", "std::fs::rename", "std::fs::copy")
def m_fmisc(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    I.emit("file", op=lastseg(c.path), path=p, st=st, call=c)
    return io_fork(I, st, c, lambda s: (s, ok(UNIT)))

@model("std::path::Path::with_extension", "std::path::PathBuf::with_extension")
def m_withext(I, st, c):
    return [(st, mk("withext", content(I, st, c.args[0], c.tys[0]), content(I, st, c.args[1], c.tys[1]), ty="seq"))]

@model("std::path::Path::join")
def m_pjoin(I, st, c):
    return [(st, mk("pathjoin", content(I, st, c.args[0], c.tys[0]), content(I, st, c.args[1], c.tys[1]), ty="seq"))]

@model("std::path::Path::display")
def m_pdisplay(I, st, c): return [(st, content(I, st, c.args[0], c.tys[0]))]

@model("std::path::Path::exists")
def m_pexists(I, st, c): return [(st, mk("exists", content(I, st, c.args[0], c.tys[0]), ty="bool"))]

@model("std::path::Path::extension")
def m_pext(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    e = mk("extension", p, ty="seq")
    return fork(I, st, mk("hasext", p, ty="bool"), some(ref(("C", e))), NONE)

@model("std::path::Path::file_name", "std::path::Path::file_stem")
def m_pfname(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    e = mk("filename" if c.path.endswith("name") else "filestem", p, ty="seq")
    return fork(I, st, mk("hasfilename", p, ty="bool"), some(ref(("C", e))), NONE)

@model("std::path::Path::parent")
def m_pparent(I, st, c):
    p = content(I, st, c.args[0], c.tys[0])
    return fork(I, st, mk("hasparent", p, ty="bool"), some(ref(("C", mk("parent", p, ty="seq")))), NONE)

# strings
@model("core::str::converts::from_utf8", "alloc::string::String::from_utf8")
def m_utf8(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    ownd = c.path.endswith("String::from_utf8")
    if v.op == "bytes":
        return [(st, ok(v if ownd else c.args[0]))]
    cond = mk("validutf8", v, ty="bool")
    return fork(I, st, cond, lambda s: ok(v if ownd else c.args[0]), lambda s: err(mk("utf8err", v)))

@model("core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut", "alloc::string::String::from_utf8_unchecked", "str::from_utf8_unchecked")
def m_utf8un(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    I.emit("text", seq=v, st=st, call=c)
    return [(st, c.args[0])]

@model("alloc::string::String::from_utf8_lossy")
def m_utf8lossy(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    if v.op == "bytes": return [(st, v)]
    cond = mk("validutf8", v, ty="bool")
    if st.decide(cond) is True: return [(st, v)]
    return [(st, gamma(cond, v, mk("lossy", v, ty="seq")))]

def one_of(cs, v):
    return mk("set", tuple(sorted(c.a[0] for c in cs))) if all(c.op == "k" for c in cs) else mk("set", tuple(cs))

def find_first(I, st, cs, hay):
    """position of the first occurrence of any of the bytes"""
    ks = tuple(sorted(c.a[0] for c in cs if c.op == "k"))
    if len(ks) != len(cs): ks = tuple(cs)
    pos = mk("find", hay, ks, ty=("int", False, 63))
    FIND[pos] = (hay, ks)
    c = mk("found", hay, ks, ty="bool")
    s1 = st.assume(c, True)
    out = []
    if s1 is not None:
        s1 = s1.assume(lt(pos, length(hay)), True)
        if s1 is not None: out.append((s1, some(pos)))
    s2 = st.assume(c, False)
    if s2 is not None: out.append((s2, NONE))
    return out
FIND = {}

@model("memchr::memchr::memchr")
def m_memchr(I, st, c): return find_first(I, st, c.args[:1], content(I, st, c.args[1], c.tys[1]))
@model("memchr::memchr::memchr2")
def m_memchr2(I, st, c): return find_first(I, st, c.args[:2], content(I, st, c.args[2], c.tys[2]))
@model("memchr::memchr::memchr3")
def m_memchr3(I, st, c): return find_first(I, st, c.args[:3], content(I, st, c.args[3], c.tys[3]))

@model("str::find", "str::rfind")
def m_strfind(I, st, c):
    p = c.args[1]
    hay = content(I, st, c.args[0], c.tys[0])
    if p.op == "k" and p.a[0] < 128 and c.path.endswith("::find"): return find_first(I, st, [p], hay)
    q = pattern(I, st, c, 1)
    if q is None: return None
    return fork(I, st, mk("strfn", "contains", hay, q, ty="bool"), some(mk("strfn", lastseg(c.path), hay, q, ty=("int", False, 63))), NONE)

@model("str::contains")
def m_strcontains(I, st, c):
    hay = content(I, st, c.args[0], c.tys[0])
    p = c.args[1]
    if p.op == "ref": p = content(I, st, p)
    elif p.op == "clo": p = mk("closure-pattern", p.a[0][2])
    return [(st, mk("contains", hay, p, ty="bool"))]

# Option/Result helpers not inlined
@model("core::option::Option::cloned", "core::option::Option::copied")
def m_optcloned(I, st, c):
    v = st.simp(c.args[0])
    if v.op == "agg":
        if v.a[1] == 0: return [(st, NONE)]
        return [(st, some(I.load(st, v.a[2][0])))]
    if v.op == "gamma" and v.a[1].op == "agg" and v.a[2].op == "agg":
        f = lambda w: NONE if w.a[1] == 0 else some(I.load(st, w.a[2][0]))
        return [(st, gamma(v.a[0], f(v.a[1]), f(v.a[2])))]
    NVAR[v] = 2
    return fork(I, st, isv(v, 1), lambda s: some(I.load(s, fld(down(v, 1, "Some"), 0, "0", "ref"))), NONE)

@model("core::option::Option::as_deref", "core::option::Option::as_deref_mut")
def m_asderef(I, st, c):
    v = st.simp(I.load(st, c.args[0]))
    t = I.target_of(st, c.args[0])
    inner = I.tref(I.textend(I.textend(t, ("v", 1, "Some")), ("f", 0, "0", None)))
    if v.op == "agg": return [(st, NONE if v.a[1] == 0 else some(inner))]
    NVAR[v] = 2
    return fork(I, st, isv(v, 1), some(inner), NONE)

@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def m_callfn(I, st, c):
    f = st.simp(c.args[0])
    args = c.args[1]
    if args.op == "agg": av = list(args.a[2])
    else:
        t = I.p.types[c.tys[1]]
        av = [fld(args, i, str(i)) for i in range(len(t.get("elems", [])))]
    if c.callee.get("kind") == "virtual" or (f.op not in ("ref", "clo", "fnv", "gamma") and "fn" in c.callee):
        if "fn" in c.callee and c.callee.get("kind") != "virtual": return None
    return I.call_value(st, f, av, c.site, c)

@model("core::cell::once::OnceCell::new")
def m_once(I, st, c): return [(st, NONE)]
@model("core::cell::once::OnceCell::get_or_init", "std::sync::once_lock::OnceLock::get_or_init")
def m_getinit(I, st, c):
    tgt = I.target_of(st, c.args[0])
    v = st.simp(I.tload(st, tgt))
    inner = I.textend(I.textend(tgt, ("v", 1, "Some")), ("f", 0, "0", None))
    if v.op == "agg" and v.a[1] == 1: return [(st, I.tref(inner))]
    out = []
    if v.op != "agg":
        NVAR[v] = 2
        s = st.assume(isv(v, 1), True)
        if s is not None: out.append((s, I.tref(inner)))
        st = st.assume(isv(v, 1), False)
        if st is None: return out
    for s, r in I.call_value(st, c.args[1], [], c.site, c):
        s = s.copy()
        I.tstore(s, tgt, some(r))
        out.append((s, I.tref(inner)))
    return out

@model("core::cell::once::OnceCell::get", "std::sync::once_lock::OnceLock::get")
def m_onceget(I, st, c):
    tgt = I.target_of(st, c.args[0])
    v = st.simp(I.tload(st, tgt))
    inner = I.textend(I.textend(tgt, ("v", 1, "Some")), ("f", 0, "0", None))
    if v.op == "agg": return [(st, some(I.tref(inner)) if v.a[1] == 1 else NONE)]
    NVAR[v] = 2
    return fork(I, st, isv(v, 1), some(I.tref(inner)), NONE)

@model("core::cell::Cell::new", "core::cell::Cell::into_inner")
def m_cellnew(I, st, c): return [(st, c.args[0])]
@model("core::cell::Cell::get", "core::cell::Cell::set", "core::cell::Cell::replace", "core::cell::Cell::take")
def m_cell(I, st, c):
    tgt = I.target_of(st, c.args[0])
    if tgt[0] != "loc": return None
    t = selfty(I, c)
    inner = t["args"][0] if t.get("args") else None
    v = I.load(st, c.args[0])
    if inner is not None and v.ty is None and v.op not in ("k", "lin", "agg", "gamma", "ref"): v.ty = I.p.tyinfo(inner)
    m = lastseg(c.path)
    if m == "get": return [(st, v)]
    new = c.args[1] if m != "take" else default_of(I, st, inner, c) if inner is not None else None
    if new is None: return None
    s = st.copy()
    I.store(s, c.args[0], new)
    return [(s, UNIT if m == "set" else v)]

@model("core::core_arch::x86::cpuid::__cpuid", "core::core_arch::x86::cpuid::__cpuid_count")
def m_cpuid(I, st, c): return [(st, mk("cpuid", *c.args))]
@model("log::max_level")
def m_maxlevel(I, st, c): return [(st, agg("log::LevelFilter", 0, []))]
@model("log::__private_api::log", "log::__private_api::loc", "log::__private_api::enabled")
def m_log(I, st, c): return [(st, UNIT if not c.path.endswith("enabled") else FALSE)]
@model("std::process::id")
def m_pid(I, st, c): return [(st, mk("pid", ty=("int", False, 32)))]
@model("std::thread::panicking", "std::panicking::panicking", "std::thread::functions::panicking")
def m_panicking(I, st, c): return [(st, sym("thread is unwinding", "bool"))]
@model("core::sync::atomic::fence")
def m_fence(I, st, c):
    I.emit("fence", call=c, st=st)
    return [(st, UNIT)]
@model("std::env::args", "std::env::args_os")
def m_args(I, st, c):
    I.env_args = getattr(I, "env_args", set()) | {lastseg(c.path)}
    v = mk("envargs", lastseg(c.path), ty="seq")
    if lastseg(c.path) == "args":
        st = st.assume(mk("allutf8", v, ty="bool"), True)       # panics otherwise
        if st is None: return []
    return [(st, agg("it.vec", None, [v, k(0), length(v), k(-3)]))]
@model("std::ffi::os_str::OsStr::to_string_lossy", "std::path::Path::to_string_lossy")
def m_oslossy(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    return [(st, v if v.op == "bytes" else mk("lossy", v, ty="seq"))]
@model("str::chars")
def m_chars(I, st, c):
    v = content(I, st, c.args[0], c.tys[0])
    ch = mk("chars", v, ty="seq")
    return [(st, agg("it.vec", None, [ch, k(0), length(ch), k(-2)]))]
@model("core::hash::Hash::hash")
def m_hash(I, st, c):
    if "fn" in c.callee: return None
    return [(st, UNIT)]

def close_loop(I, s, li):
    import iters
    return iters.close_loop(I, s, li)

@model("str::is_char_boundary")
def m_charboundary(I, st, c):
    v = content(I, st, c.args[0], c.tys[0]); i = c.args[1]; n = length(v)
    b = mk("idx", v, i, ty=("int", False, 8))
    inside = band(lt(i, n), bor(lt(b, k(0x80)), not_(lt(b, k(0xC0)))))
    return [(st, bor(eq(i, k(0)), bor(eq(i, n), inside)))]
