"""C30: raw views of memory in the workspace: size, alignment, padding, validity, lifetime."""
from spec import *
from rules_strings import bulk_arg
RAWPARTS = ("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
CRATES = ("measureme", "decodeme", "analyzeme", "summarize", "crox", "mmview", "mmedit", "flamegraph", "stack_collapse")
# operations of the system or the processor: what they do is not in the source
FOREIGN = ("std::os::fd::raw::FromRawFd", "perf_event_open_sys::", "memmap2::", "core::core_arch::", "core::arch::")
GENERATED = ("alloc::boxed::box_assume_init_into_vec_unsafe", "core::fmt::Arguments::new", "core::fmt::rt::UnsafeArg::new")
RAWOPS = RAWPARTS + tuple("core::ptr::" + x for x in ("read", "read_unaligned", "read_volatile", "write", "write_unaligned", "copy", "copy_nonoverlapping")) + \
    tuple("[%s T]::%s" % (a, x) for a in ("*const", "*mut") for x in ("read", "write", "read_unaligned", "write_unaligned", "copy_to", "copy_to_nonoverlapping", "copy_from", "copy_from_nonoverlapping", "add", "offset", "sub"))
JUDGED = RAWOPS + ("alloc::vec::Vec::set_len",)
REALLOC = ("push", "reserve", "clear", "truncate", "insert", "extend_from_slice", "append", "shrink_to_fit", "drain", "resize", "remove", "pop", "split_off", "extend", "retain", "dedup", "reserve_exact", "swap_remove")

def calls(P, f):
    for bi, b in enumerate(f["blocks"]):
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], int):
            c = P.types[t[1]]
            yield bi, t, c
def callee(c): return ((c.get("callee") or {}).get("res") or (c.get("callee") or {}).get("path") or c.get("path") or "")
def isunsafe(c): return c.get("k") == "fndef" and (c.get("s", "").startswith("unsafe ") or re.match(r"for<[^>]*> unsafe ", c.get("s", "")))
import re, os

def own(P): return [f for f in P.fns if f and f["crate"] == P.crate and "::tests::" not in f["path"] and "testing_common" not in f["path"]]

def uses(f):
    """who calls or mentions what: {function path: paths of its users}"""

def sizeof(P, t):
    if t.get("size") is not None: return t["size"]
    if t.get("bits"): return t["bits"] // 8
    return None
def alignof(t):
    return t.get("align") or (t.get("bits", 0) // 8) or None
def type_named(P, s):
    return next((t for t in P.types if t["s"] == s), None)
def anybits(P, t, d=0):
    """True if every bit pattern is a value of the type; None if not known"""
    kd = t["k"]
    if kd in ("int", "uint", "float") or t["s"] in ("u8",): return True
    if kd in ("bool", "char", "ref"): return False
    if d > 6: return None
    if kd == "array": return anybits(P, P.types[t["to"]], d + 1)
    if kd == "tuple":
        r = [anybits(P, P.types[x], d + 1) for x in t["elems"]]
        return False if False in r else None if None in r else True
    if kd == "adt":
        if t.get("enum"): return False
        if "variants" in t and t.get("ws"):
            r = [anybits(P, P.types[x[1]], d + 1) for v in t["variants"] for x in v["f"]]
            return False if False in r else None if None in r else True
    return None

def newtype(P, t):
    """a plain number under a name: callers choose its value"""
    if t.get("enum") or len(t.get("variants") or ()) != 1 or len(t["variants"][0]["f"]) != 1: return False
    x = P.types[t["variants"][0]["f"][0][1]]
    return x["k"] in ("int", "uint", "char", "bool") or x["k"] == "adt" and newtype(P, x)

def stateful(P, f):
    """parameters whose values other code of the crate constrains"""
    out = set()
    for i in range(f["argc"]):
        ty, *nm = f["locals"][i + 1]
        t = P.types[ty]
        while t["k"] in ("ref", "ptr"): t = P.types[t["to"]]
        if t["k"] == "adt" and t.get("ws") and not newtype(P, t): out.add(i)
    return out

def entries(P, sites):
    """the nearest public functions through which each function holding a site is reached"""
    users = {}
    for f in own(P):
        for bi, t, c in calls(P, f): users.setdefault(callee(c), set()).add(f["path"])
    by = {f["path"]: f for f in own(P)}
    res = {}
    for p in sites:
        todo, seen, out = [p], {p}, []
        while todo:
            q = todo.pop()
            f = by.get(q)
            if f is None: continue
            if f["closure"]:
                r = f.get("root")
                if r and r not in seen: seen.add(r); todo.append(r)
                continue
            if f["pub"] and not f.get("unsafe_fn"): out.append(f); continue
            for u in users.get(q, ()):
                if u not in seen: seen.add(u); todo.append(u)
        res[p] = out
    return res

def iterates(P, *fs):
    return any(callee(c).startswith("core::iter::traits") for f in fs for _, _, c in calls(P, f))

def generic_args(P, f, inner, args):
    """arguments of the caller's choice: iterators over any ids that may claim any length"""
    out = []; ids = sym("spec.ids", "seq"); special = False
    for i, a in enumerate(args):
        t = P.types[f["locals"][i + 1][0]]
        if t["k"] == "param" and iterates(P, f, *[x for x in own(P) if x["path"] == inner]):
            out.append(bulk_arg(P, f, ids)); special = True
        else: out.append(a)
    return out, ids, special

@rule("C30")
def c30_views(cx):
    n_sites = 0
    for crate in CRATES:
        for big in (False, True):
            if big and crate != "measureme": continue
            try: P = cx.prog(crate, big=big)
            except Missing: continue
            n_sites += views(cx, P, crate, " (big-endian target)" if big else "")
    cx.ok("raw views of memory", "%d call sites of unsafe functions in the workspace judged" % n_sites, "workspace")

def views(cx, P, crate, tg):
    sites = {}; n = 0
    for f in own(P):
        for bi, t, c in calls(P, f):
            p = callee(c)
            if not isunsafe(c): continue
            if any(x in p for x in GENERATED) or any(x in p for x in FOREIGN): continue
            n += 1
            if p in JUDGED or p.endswith(("get_unchecked", "get_unchecked_mut", "from_utf8_unchecked")): sites.setdefault(f["path"], set()).add(p)
            elif p.startswith("%s::" % crate): continue         # an unsafe function of the workspace: its own body is judged
            else: cx.undecided("unsafe call to %s%s" % (p, tg), "no rule for this operation", where(f))
        m = derefs(P, f)
        if m and mapped(P, f): cx.ok("%s%s" % (f["path"], tg), "%d uses of a pointer into memory mapped by the system, whose extent and alignment the source does not determine: not judged" % m, where(f)); m = 0
        if m: n += m; sites.setdefault(f["path"], set()).add("*")
        stale(cx, P, f, tg)
    by = {f["path"]: f for f in own(P)}
    for p, es in entries(P, sites).items():
        if not es: cx.undecided("raw view in %s%s" % (p, tg), "reached from no public function", where(by[p])); continue
        for f in es: judge(cx, P, f, p, tg)
    return n

def mapped(P, f):
    return any("memmap2::" in P.types[l[0]]["s"] for l in f["locals"])

def derefs(P, f):
    """how often the function reads or writes through a raw pointer it did not get by unpacking a Box"""
    boxed = set()
    for b in f["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and not s[1][1] and (s[2][0] == "cast" and s[2][1] in ("BoxDerefTransmute", "Transmute") or s[2][0] in ("ref", "rawptr")): boxed.add(s[1][0])
    n = 0
    def walk(x):
        nonlocal n
        if not isinstance(x, list): return
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            if x[1] and x[1][0] == ["*"] and x[0] < len(f["locals"]) and x[0] not in boxed and P.types[f["locals"][x[0]][0]]["k"] == "ptr": n += 1
            return
        for y in x: walk(y)
    for b in f["blocks"]:
        for s in b["s"]: walk(s)
        walk(b["t"])
    return n

def pointers(P, f):
    return any(callee(c).rsplit("::", 1)[-1] in ("as_mut_ptr", "spare_capacity_mut") for _, _, c in calls(P, f))

def judge(cx, P, f, inner, tg):
    by = {g["path"]: g for g in own(P)}
    I = cx.interp(P); I.io_ok = True
    evs = []
    I.observers.append(lambda kd, d: evs.append((kd, d, I.where(), I.stack[-1].fn["path"] if I.stack else "")) if kd in ("raw", "unchecked", "text", "setlen") else None)
    args, ids, special = generic_args(P, f, inner, symargs(P, f))
    claim = sym("spec.claimed-length", u(63))
    def claimed(I, st, c):
        v = st.simp(c.args[0])
        for _ in range(3):
            if v.op == "ref": v = st.simp(I.load(st, v))
        return [(st, claim)] if v.op == "agg" and v.a[0] == "it.vec" and v.a[2][0] is ids else None
    def hint(I, st, c):
        r = claimed(I, st, c)
        return r and [(st, agg("tuple", None, [claim, M.some(claim)]))]
    I.overrides["core::iter::traits::exact_size::ExactSizeIterator::len"] = claimed
    I.overrides["core::iter::traits::iterator::Iterator::size_hint"] = hint
    name = "raw view in %s, via %s%s" % (inner.rsplit("::", 1)[-1], f["path"].rsplit("::", 2)[-2] + "::" + f["path"].rsplit("::", 1)[-1], tg)
    outs = I.call_fn(f, args, State(), 0)
    if outs is None: cx.undecided(name, "not analysed", where(f)); return
    mine = [e for e in evs]
    if not mine: cx.undecided(name, "the view is not reached in the analysis", where(f)); return
    held = {a for i, a in enumerate(args) if i in stateful(P, f)}
    seen = set()
    for kd, d, wh, fp in mine:
        if fp in by and mapped(P, by[fp]): continue
        if kd == "raw":
            key = (wh, d["ptr"], d["n"], tuple(d["st"].facts.d.items()))
            if key in seen: continue
            seen.add(key)
            one(cx, P, I, f, name, d, wh, held, ids)
        elif kd == "text":
            bounded(cx, I, name + ": valid text", [mk("validutf8", d["seq"], ty="bool")], lambda e, vs: vs[0] in (True, 1), d["st"], wh, held, ids, P)
        elif kd == "setlen":
            if pointers(P, by[fp]) : cx.undecided(name + ": every element has been written", "it may have been written through a pointer", wh); continue
            bounded(cx, I, name + ": every element has been written", [sub(d["n"], length(d["seq"]))], lambda e, vs: vs[0] <= 0, d["st"], wh, held, ids, P)
        else:
            t = d["cond"]
            bounded(cx, I, name + ": element in bounds", [t], lambda e, vs: vs[0] in (True, 1), d["st"], wh, held, ids, P)

def involves(terms, held):
    for t in terms:
        for x in subterms(t):
            if x in held: return True
    return False

def free(t):
    return all(x.op not in ("eff", "mu", "undef", "phi") for x in subterms(t))

def fixture(r, ids, P):
    n = r.choice((0, 1, 2, 3, 7))
    v = tuple(("agg", "measureme::stringtable::StringId", None, r.choice((0, 1, 7, 100_000_000))) for _ in range(n))
    return {ids: v}

def bounded(cx, I, name, terms, test, st, wh, held, ids, P):
    if os.environ.get("MM_DEBUG"): print(name, [show(t)[:300] for t in terms], [(show(a)[:100],b) for a,b in st.facts.d.items()])
    facts = list(st.facts.d.items())
    if not involves(terms, held) and all(free(t) for t in terms):       # only the caller's choice matters
        facts = [(a, b) for a, b in facts if not involves([a], held) and free(a)]
    if involves(terms + [a for a, _ in facts], held):
        v = randint_check(terms, test, facts, I, ids, P, cx)
        if v.kind == "eq": cx.ok(name, v.why, wh)
        else: cx.undecided(name, "depends on the state of an object of the crate: " + str(v.why)[:200], wh)
        return
    cx.holds(name, terms, test, facts=facts, where=wh, interp=I, fixed=lambda r: fixture(r, ids, P), need=40, tries=600)

def randint_check(terms, test, facts, I, ids, P, cx):
    import randint
    return randint.check(terms, test, facts=facts, seed=cx.seed, interp=I, fixed=lambda r: fixture(r, ids, P), need=40, tries=600)

def one(cx, P, I, f, name, d, wh, held, ids):
    src, et, st = d["srcty"], P.types[d["etid"]], d["st"]
    es = sizeof(P, et)
    if src is None and d["kind"] == "object" and d["n"].op == "k" and d["n"].a[0] <= 1: return     # the object itself
    if src is None and d["kind"] == "elements": src = et
    ss = sizeof(P, src) if src is not None else None
    if d["kind"] == "unknown" or src is None or es is None or ss is None:
        cx.undecided(name, "the memory viewed is not known: %s as %s" % (show(d["ptr"])[:150], d["et"]), wh); return
    have = scale(length(d["seq"]), ss) if d["kind"] == "elements" else k(ss)
    bounded(cx, I, name + ": within its object", [d["n"], have], lambda e, vs: vs[0] * es <= vs[1], st, wh, held, ids, P)
    if d["align"]:
        a, b = alignof(et), alignof(src)
        if a and b: cx.require(name + ": aligned", a <= b, "a view of %s (alignment %d) over %s (alignment %d)" % (d["et"], a, src["s"], b), wh)
        else: cx.undecided(name + ": aligned", "alignment of %s or %s" % (d["et"], src["s"]), wh)
    if src is et: return
    sid, eid = [next(i for i, t in enumerate(P.types) if t is x) for x in (src, et)]
    for t, tid, rd in ((src, sid, True), (et, eid, d["wr"])):
        if not rd: continue
        lb = M.layout_bytes(I, sym("spec.any", I.p.tyinfo(tid)), tid)
        if lb is None: cx.undecided(name + ": no padding", "layout of %s" % t["s"], wh)
        else: cx.require(name + ": no padding", lb.op != "padded", "%s has padding bytes, which a view of it as %s reads" % (t["s"], (et if t is src else src)["s"]), wh)
    for t, on in ((et, True), (src, d["wr"])):
        if not on: continue
        r = anybits(P, t)
        if r is None: cx.undecided(name + ": any bytes are a valid value", "for %s" % t["s"], wh)
        else: cx.require(name + ": any bytes are a valid value", r, "bytes of %s may hold no valid %s" % ((src if t is et else et)["s"], t["s"]), wh)

# ---------------------------------------------------------------- views that outlive what they view
def base_of(defs, l, depth=0):
    """the local whose address or heap memory local l designates"""
    for d in defs.get(l, ()):
        if d[0] == "ref":
            pl = d[1]
            if not pl[1]: return pl[0], d[2]
            if pl[1] == [["*"]] and depth < 8:
                return base_of(defs, pl[0], depth + 1)
            if not any(e == ["*"] for e in pl[1]): return pl[0], d[2]
            return None
        if d[0] in ("copy", "cast", "asptr") and depth < 8:
            r = base_of(defs, d[1], depth + 1)
            return (r[0], "heap") if r and d[0] == "asptr" else r
    return None

def stale(cx, P, f, tg):
    blocks = f["blocks"]
    if not any(callee(c) in RAWPARTS or callee(c).endswith(("::as_ptr", "::as_mut_ptr")) for _, _, c in calls(P, f)): return
    defs = {}
    def opl(o): return o[1] if o[0] in ("mv", "cp") else None
    for b in blocks:
        for s in b["s"]:
            if s[0] != "=" or s[1][1]: continue
            l, r = s[1][0], s[2]
            if r[0] in ("ref",): defs.setdefault(l, []).append(("ref", r[2], "stack"))
            elif r[0] == "rawptr": defs.setdefault(l, []).append(("ref", r[-1] if isinstance(r[-1], list) else r[1], "stack"))
            elif r[0] == "use" and opl(r[1]) and not opl(r[1])[1]: defs.setdefault(l, []).append(("copy", opl(r[1])[0]))
            elif r[0] == "cast" and opl(r[2]) and not opl(r[2])[1]: defs.setdefault(l, []).append(("cast", opl(r[2])[0]))
        t = b["t"]
        if t[0] == "call" and not t[3][1] and isinstance(t[1], int):
            p = callee(P.types[t[1]])
            if p.endswith(("::as_ptr", "::as_mut_ptr")) and t[2] and opl(t[2][0]): defs.setdefault(t[3][0], []).append(("asptr", opl(t[2][0])[0]))
            elif p.endswith(("Deref::deref", "DerefMut::deref_mut", "::as_slice", "::as_mut_slice", "PtrTo", "::cast")) and t[2] and opl(t[2][0]): defs.setdefault(t[3][0], []).append(("copy", opl(t[2][0])[0]))
    moved = {}
    for b in blocks:
        for s in b["s"]:
            if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "mv" and not s[2][1][1][1]: moved.setdefault(s[2][1][1][0], set()).add(s[1][0])
    done = set()
    for bi, t, c in calls(P, f):
        cp0 = callee(c)
        if cp0 in RAWPARTS: whole = True
        elif cp0.endswith(("::as_ptr", "::as_mut_ptr")): whole = False
        else: continue
        if not t[2] or not opl(t[2][0]): continue
        base = base_of(defs, opl(t[2][0])[0])
        nm = "%s: the view does not outlive what it shows%s" % (f["path"], tg)
        if base is None or base[0] <= f["argc"] and base[0] > 0:
            if whole: cx.ok(nm, "memory of the caller", where(f))
            continue
        v, how = base
        if not whole: how = "heap" if P.types[f["locals"][v][0]]["k"] == "adt" else how
        owners = {v}; todo = [v]
        while todo and how == "heap":
            for w in moved.get(todo.pop(), ()):
                if w not in owners: owners.add(w); todo.append(w)
        taint = {t[3][0]}
        ch = True
        def isref(l): return P.types[f["locals"][l][0]]["k"] in ("ref", "ptr")
        while ch:
            ch = False
            for b in blocks:
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1] and s[1][0] not in taint and mentions(s[2], taint) and (isref(s[1][0]) or s[2][0] == "agg"): taint.add(s[1][0]); ch = True
                tt = b["t"]
                if tt[0] == "call" and not tt[3][1] and tt[3][0] not in taint and isref(tt[3][0]) and any(opl(o) and opl(o)[0] in taint for o in tt[2]): taint.add(tt[3][0]); ch = True
        bad = None
        todo = [(t[4], False, v)]; seen = set()
        while todo and bad is None:
            bi_, dead, own_ = todo.pop()
            if bi_ is None or (bi_, dead, own_) in seen: continue
            seen.add((bi_, dead, own_)); b = blocks[bi_]
            for s in b["s"]:
                if s[0] == "dead" and s[1] == v and how == "stack": dead = True
                if s[0] == "=" and how == "heap" and not s[1][1] and s[2][0] == "use" and s[2][1] == ["mv", [own_, []]]: own_ = s[1][0]
                if s[0] == "=" and dead and (mentions(s[2], taint) if whole else through(s, taint)): bad = s[-1]
            tt = b["t"]
            if tt[0] == "drop" and tt[1] == [own_, []]: dead = True
            if tt[0] == "call":
                cp = callee(P.types[tt[1]]) if isinstance(tt[1], int) else ""
                if dead and (whole or cp in RAWOPS) and any(opl(o) and opl(o)[0] in taint for o in tt[2]): bad = tt[6]
                for o in tt[2][:1]:
                    q = opl(o)
                    if q is None: continue
                    if cp == "core::mem::drop" and q == [own_, []]: dead = True
                    if how == "heap" and cp.rsplit("::", 1)[-1] in REALLOC and not q[1]:
                        r = base_of(defs, q[0])
                        if r and r[0] == own_: dead = True
            if tt[0] == "return" and dead and 0 in taint and whole: bad = f["line"]
            for n in succs(tt): todo.append((n, dead, own_))
        if not whole and bad is None: continue
        cx.require(nm, bad is None, "line %s uses memory that has been freed or reallocated by then" % bad, where(f), how="no use of the view follows the end of its object on any path")

def through(x, ls):
    """does a statement go through a pointer held in one of the locals"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): return x[0] in ls and x[1][:1] == [["*"]]
        return any(through(y, ls) for y in x)
    return False

def succs(t):
    if t[0] == "goto": return [t[1]]
    if t[0] == "switch": return [x[1] for x in t[2]] + [t[3]]
    if t[0] == "drop": return [t[2]]
    if t[0] == "call": return [t[4]] if t[4] is not None else []
    if t[0] == "assert": return [t[4]]
    if t[0] == "asm": return [t[4]] if t[4] is not None else []
    return []

def mentions(r, ls):
    """does an rvalue use one of the locals"""
    if isinstance(r, list):
        if len(r) == 2 and isinstance(r[0], int) and isinstance(r[1], list): return r[0] in ls
        return any(mentions(x, ls) for x in r)
    return False
