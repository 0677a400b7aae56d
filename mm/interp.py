"""Abstract interpreter over the extracted MIR.

Works on the whole program from an entry function: workspace functions and
closures are followed through their resolved callees, standard library calls
are given by models (models.py).  States are merged at control flow joins into
gated values, loop-carried values are widened to loop-head symbols, so every
function is analysed for all inputs and all iteration counts at once."""
import json, os, glob, sys
from terms import *
import terms

sys.setrecursionlimit(20000)

class Undecided(Exception):
    pass

INT_ADTS = {"core::time::Duration": ("int", False, 128), "std::time::SystemTime": ("int", True, 128),
            "std::time::Instant": ("int", False, 128)}
SEQ_ADTS = {"alloc::vec::Vec", "alloc::string::String", "std::path::PathBuf", "std::path::Path",
            "std::ffi::os_str::OsString", "std::ffi::os_str::OsStr", "smallvec::SmallVec"}

ENUM_SIZES = {}
def parse_asm(text):
    """["asm", template, inputs [(register, local)], outputs, target]"""
    import re
    m = re.search(r"\[return: bb(\d+)", text)
    ins = [(a, int(b)) for a, b in re.findall(r'in\("?(\w+)"?\) (?:move |copy )?_(\d+)', text)]
    outs = [(a, int(b)) for a, b in re.findall(r'out\("?(\w+)"?\) _(\d+)', text)]
    tm = re.match(r'asm!\("((?:[^"\\]|\\.)*)"', text)
    return ["asm", tm.group(1) if tm else text, ins, outs, int(m.group(1)) if m else None]

class Prog:
    def __init__(self, d):
        self.d = d
        self.types = d["types"]
        self.fns = d["fns"]
        self.crate = d["crate"]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f["path"], []).append(f)
        self._cfg = {}
        self.adts = {a["path"]: a for a in d["adts"]}
        for t in self.types:
            if t["k"] == "adt" and "variants" in t:
                if t["enum"]: ENUM_SIZES[t["adt"]] = len(t["variants"])
                if t["enum"] and not any(v["f"] for v in t["variants"]): terms.UNIT_ENUMS[t["adt"]] = len(t["variants"])
                for i, v in enumerate(t["variants"]):
                    terms.FIELD_NAMES[(t["adt"], i if t["enum"] else None)] = [f[0] for f in v["f"]]

    def upvars(self, path):
        """types of what the closure captures"""
        if not hasattr(self, "_upvars"): self._upvars = {t["path"]: t.get("upvars") for t in self.types if t["k"] == "closure"}
        return self._upvars.get(path)
    def tyinfo(self, tid):
        t = self.types[tid]
        kd = t["k"]
        if kd == "int": return ("int", t["signed"], t["bits"])
        if kd == "char": return ("int", False, 32)
        if kd == "bool": return "bool"
        if kd == "float": return "float"
        if kd in ("slice", "array", "str"): return "seq"
        if kd == "adt":
            a = t["adt"]
            if a in INT_ADTS: return INT_ADTS[a]
            if a in SEQ_ADTS: return "seq"
            return ("adt", a)
        if kd in ("ref", "ptr"): return "ref"
        return None

    def fn(self, path, concrete=None, pred=None):
        """The function with this canonical path (one instance)."""
        fs = self.by_path.get(path, [])
        if pred: fs = [f for f in fs if pred(f)]
        if not fs: return None
        return fs[0]

    def elem_is_byte(self, tid):
        t = self.types[tid]
        while t["k"] in ("ref", "ptr"): t = self.types[t["to"]]
        if t["k"] == "str": return True
        if t["k"] in ("slice", "array"): return self.types[t["to"]]["s"] in ("u8", "i8")
        if t["k"] == "adt" and t["adt"] in SEQ_ADTS:
            if not t["args"]: return True
            return self.types[t["args"][0]]["s"] in ("u8", "i8")
        return False

    # ---- control flow structure -----------------------------------------
    def cfg(self, fn):
        key = fn["id"]
        if key in self._cfg: return self._cfg[key]
        blocks = fn["blocks"]
        n = len(blocks)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(blocks):
            t = b["t"]
            if t[0] == "goto": succ[i] = [t[1]]
            elif t[0] == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
                succ[i] = list(dict.fromkeys(s))
            elif t[0] == "drop": succ[i] = [t[2]]
            elif t[0] == "call": succ[i] = [t[4]] if t[4] is not None else []
            elif t[0] == "assert": succ[i] = [t[4]]
            elif t[0] == "other" and t[1].startswith("asm!"):
                b["t"] = t = parse_asm(t[1])
            if t[0] == "asm": succ[i] = [t[4]] if t[4] is not None else []
        # reverse post-order from entry
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ[s]))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        # weak topological order (Bourdoncle via nested SCCs)
        def wto(nodes):
            nodes = set(nodes)
            idx = {}; low = {}; on = set(); st = []; out = []; cnt = [0]
            def strong(v0):
                work = [(v0, iter([s for s in succ[v0] if s in nodes]))]
                idx[v0] = low[v0] = cnt[0]; cnt[0] += 1; st.append(v0); on.add(v0)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                            work.append((w, iter([s for s in succ[w] if s in nodes])))
                            break
                        elif w in on: low[v] = min(low[v], idx[w])
                    else:
                        work.pop()
                        if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == idx[v]:
                            comp = []
                            while True:
                                w = st.pop(); on.discard(w); comp.append(w)
                                if w == v: break
                            out.append(comp)
            for v in sorted(nodes, key=lambda x: rpo[x]):
                if v not in idx: strong(v)
            out.reverse()
            res = []
            for comp in out:
                if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                    res.append(comp[0])
                else:
                    head = min(comp, key=lambda x: rpo[x])
                    res.append((head, wto([c for c in comp if c != head])))
            return res
        # liveness of locals
        nl = len(fn["locals"])
        borrowed = set()
        use = [set() for _ in range(n)]; kill = [set() for _ in range(n)]
        def pl_use(p, u, kl):
            if p[0] not in kl: u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in kl: u.add(e[1])
        def op_use(o, u, kl):
            if o[0] in ("cp", "mv"): pl_use(o[1], u, kl)
        def rv_use(r, u, kl):
            kd = r[0]
            if kd == "use": op_use(r[1], u, kl)
            elif kd == "repeat": op_use(r[1], u, kl)
            elif kd in ("ref", "rawptr"):
                p = r[2]
                pl_use(p, u, kl)
                if not any(e[0] == "*" for e in p[1]): borrowed.add(p[0])
            elif kd == "cast": op_use(r[2], u, kl)
            elif kd == "bin": op_use(r[2], u, kl); op_use(r[3], u, kl)
            elif kd == "un": op_use(r[2], u, kl)
            elif kd == "discr": pl_use(r[1], u, kl)
            elif kd == "agg":
                for o in r[2]: op_use(o, u, kl)
        for i in order:
            b = blocks[i]; u = use[i]; kl = kill[i]
            for s in b["s"]:
                if s[0] == "=":
                    rv_use(s[2], u, kl)
                    if s[1][1]: pl_use(s[1], u, kl)
                    else: kl.add(s[1][0])
                elif s[0] == "dead": kl.add(s[1])
            t = b["t"]
            if t[0] == "switch": op_use(t[1], u, kl)
            elif t[0] == "drop": pl_use(t[1], u, kl)
            elif t[0] == "assert": op_use(t[1], u, kl)
            elif t[0] == "call":
                for o in t[2]: op_use(o, u, kl)
                if t[3][1]: pl_use(t[3], u, kl)
            elif t[0] == "asm":
                for _, l in t[2]:
                    if l not in kl: u.add(l)
            elif t[0] == "return":
                if 0 not in kl: u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                o = set()
                for s in succ[i]: o |= live[s]
                if blocks[i]["t"][0] == "call" and not blocks[i]["t"][3][1]:
                    o.discard(blocks[i]["t"][3][0])
                l = use[i] | (o - kill[i])
                if l != live[i]: live[i] = l; ch = True
        returns = {i for i in order if blocks[i]["t"][0] == "return"}; ch = True
        while ch:
            new = {i for i in order if i not in returns and any(x in returns for x in succ[i])}
            returns |= new; ch = bool(new)
        r = {"succ": succ, "rpo": rpo, "wto": wto(order), "live": live, "borrowed": borrowed, "returns": returns}
        self._cfg[key] = r
        return r

# ======================================================================
NVAR = {}   # term -> number of variants of its enum type

class Facts:
    __slots__ = ("d", "_b", "memo")
    epoch = 0       # within one question about contradictions, what cannot be decided is remembered too
    def __init__(self, d=None):
        self.d = d or {}
        self._b = None
        self.memo = None
    def get(self, c): return self.d.get(c)
    @staticmethod
    def base(t):
        c, m = lin_parts(t)
        if not m: return None
        first = min(m, key=lambda x: x.id)
        s = 1
        if m[first] < 0:
            s = -1
            m = {x: -n for x, n in m.items()}
        return c, s, mklin(0, m)
    def _bounds(self):
        if self._b is None:
            b = {}
            for c, v in self.d.items():
                if c.op not in ("lt0", "eq0"): continue
                bb = Facts.base(c.a[0])
                if bb is None: continue
                cc, s, base = bb        # c.a[0] = cc + s*base
                lo, hi = b.get(base, (-INF, INF))
                if c.op == "lt0":
                    if v:   # cc + s*base <= -1
                        if s > 0: hi = min(hi, -1 - cc)
                        else: lo = max(lo, cc + 1)
                    else:   # cc + s*base >= 0
                        if s > 0: lo = max(lo, -cc)
                        else: hi = min(hi, cc)
                else:
                    if v:
                        lo = max(lo, -cc * s); hi = min(hi, -cc * s)
                b[base] = (lo, hi)
            for c, v in self.d.items():
                if c.op == "eq0" and not v:
                    bb = Facts.base(c.a[0])
                    if bb is None: continue
                    cc, s, base = bb
                    x = -cc * s
                    lo, hi = b.get(base, (-INF, INF))
                    r = rng(base)
                    lo = max(lo, r[0]); hi = min(hi, r[1])
                    if lo == x: b[base] = (lo + 1, hi)
                    elif hi == x: b[base] = (lo, hi - 1)
            self._b = b
        return self._b
    def bounds(self, t):
        bs = self._bounds()
        if not bs: return None
        bb = Facts.base(t)
        if bb is None: return None
        c, s, base = bb
        r = bs.get(base)
        if r is None: return None
        lo, hi = r
        return (c + lo, c + hi) if s > 0 else (c - hi, c - lo)
    def with_(self, c, v):
        d = dict(self.d)
        d[c] = v
        return Facts(d)

class State:
    __slots__ = ("mem", "facts", "held")
    def __init__(self, mem=None, facts=None, held=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts or Facts()
        self.held = held
    def copy(self):
        return State(dict(self.mem), self.facts, self.held)
    # ---- conditions
    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        v = self.facts.get(c)
        if v is not None: return v
        if not self.facts.epoch: return self.decide1(c)
        memo = self.facts.memo
        if memo is None or memo[0] != Facts.epoch: memo = self.facts.memo = (Facts.epoch, {})
        memo = memo[1]
        if c in memo: return memo[c]
        r = memo[c] = self.decide1(c)
        return r
    def decide1(self, c):
        o = c.op
        if o == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if o == "band":
            a, b = self.decide(c.a[0]), self.decide(c.a[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if o == "gamma":
            g = self.decide(c.a[0])
            if g is not None: return self.decide(c.a[1] if g else c.a[2])
            a, b = self.decide(c.a[1]), self.decide(c.a[2])
            return a if a is not None and a == b else None
        if o == "lt0":
            lo, hi = rng(c.a[0], self.facts)
            if hi < 0: return True
            if lo >= 0: return False
            r = self.refine(c)
            if r is not c: return self.decide(r)
        elif o == "eq0":
            lo, hi = rng(c.a[0], self.facts)
            if lo > 0 or hi < 0: return False
            if lo == hi == 0: return True
            r = self.refine(c)
            if r is not c: return self.decide(r)
        elif o == "is":
            x, v = c.a
            n = NVAR.get(x)
            others = 0
            for w in range(n or 0):
                if w == v: continue
                f = self.facts.get(mk("is", x, w))
                if f is True: return False
                if f is False: others += 1
            if n and others == n - 1: return True
        elif o == "lt" or o == "eq":
            if o == "eq":
                x, y = c.a
                # equal to another constant
                for p, q in ((x, y), (y, x)):
                    if q.op == "bytes":
                        for cc, v in self.facts.d.items():
                            if v and cc.op == "eq" and p in cc.a:
                                other = cc.a[0] if cc.a[1] is p else cc.a[1]
                                if other.op == "bytes" and other is not q: return False
        return None
    def refine(self, c):
        """Replace decided minima, maxima and gates in a linear condition."""
        _, m = lin_parts(c.a[0])
        for x, n in m.items():
            y = None
            if x.op in ("min", "max") and len(x.a) == 2:
                p, q = x.a
                d = self.facts.get(lt(p, q)) if lt(p, q).op != "not" else (None if self.facts.get(lt(p, q).a[0]) is None else not self.facts.get(lt(p, q).a[0]))
                if d is None:
                    e = lt(q, p)
                    f = self.facts.get(e) if e.op != "not" else (None if self.facts.get(e.a[0]) is None else not self.facts.get(e.a[0]))
                    if f is not None:   # q<p
                        y = (q if f else p) if x.op == "min" else (p if f else q)
                    else:
                        lo, hi = rng(sub(p, q), self.facts)
                        if hi <= 0: y = p if x.op == "min" else q
                        elif lo >= 0: y = q if x.op == "min" else p
                else:
                    y = (p if d else q) if x.op == "min" else (q if d else p)
            elif x.op == "gamma":
                d = self.facts.get(x.a[0])
                if d is not None: y = x.a[1] if d else x.a[2]
            if y is not None:
                t = add(c.a[0], scale(sub(y, x), n))
                return lt(t, k(0)) if c.op == "lt0" else eq(t, k(0))
        return c
    def minmax_facts(self, c, v):
        s = self
        if c.op not in ("lt0", "eq0"): return s
        _, m = lin_parts(c.a[0])
        for x, n in m.items():
            if x.op not in ("min", "max") or len(x.a) != 2: continue
            for y, other in (x.a, x.a[::-1]):
                t = add(c.a[0], scale(sub(y, x), n))
                cc = lt(t, k(0)) if c.op == "lt0" else eq(t, k(0))
                if cc.op == "b" and (cc is TRUE) != v:
                    # y is not the extreme value
                    s2 = s.assume(lt(other, y) if x.op == "min" else lt(y, other), True)
                    if s2 is None: return None
                    s = s2
        return s
    def simp(self, t):
        """Resolve gates decided by the facts (top level)."""
        while t.op == "gamma":
            d = self.decide(t.a[0])
            if d is None: break
            t = t.a[1] if d else t.a[2]
        return t
    def assume(self, c, v):
        """New state with condition c == v, or None if impossible."""
        d = self.decide(c)
        if d is not None:
            return self if d == v else None
        o = c.op
        if o == "not": return self.assume(c.a[0], not v)
        s = State(self.mem, self.facts.with_(c, v), self.held)
        if o in ("lt0", "eq0"): return s.minmax_facts(c, v)
        if o == "band":
            if v:
                s = s.assume(c.a[0], True)
                if s: s = s.assume(c.a[1], True)
            else:
                for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                    if s.decide(p) is True:
                        s = s.assume(q, False)
                        break
        elif o == "gamma":
            # gamma(g, p, q) == v where one arm is impossible
            if s.assume(c.a[1], v) is None:
                s = s.assume(c.a[0], False)
                if s: s = s.assume(c.a[2], v)
            elif s.assume(c.a[2], v) is None:
                s = s.assume(c.a[0], True)
                if s: s = s.assume(c.a[1], v)
        return s

class Frame:
    __slots__ = ("fn", "cp", "cfg", "depth")
    def __init__(self, fn, cp, cfg):
        self.fn = fn; self.cp = cp; self.cfg = cfg; self.depth = 0

def unbox(v):
    """the pointer inside the box whose first field v is"""
    if v.op == "gamma":
        x, y = unbox(v.a[1]), unbox(v.a[2])
        return None if x is None or y is None else gamma(v.a[0], x, y)
    if v.op in ("fld", "f") and v.a[0].op == "ref": return v.a[0]
    return None

class LoopInfo:
    pass

MAXPART = 16

def conj_facts(fs):
    t = TRUE
    for c, v in fs: t = band(t, c if v else not_(c))
    return t

def protected(v):
    """what a mutex or cell holds"""
    if v.op == "gamma": return gamma(v.a[0], protected(v.a[1]), protected(v.a[2]))
    return v.a[2][0] if v.op == "agg" else mk("f", v, "mutex-content")

class Interp:
    fact_limit = 5          # how many facts of each side of a join are kept as one conditional fact
    def __init__(self, prog, models=None, limit=60000):
        self.p = prog
        self.cpids = {}
        self.cpinfo = {0: None}
        self.loops = {}          # loop id -> LoopInfo
        self.panics = []         # (cp, path, msg, facts)
        self.calls = []          # unmodelled calls seen: (path, file, line)
        self.unmodelled = {}
        self.observers = []      # fn(kind, dict)
        self.steps = 0
        self.limit = limit
        self.stack = []
        self.overrides = {}
        self.write_contract = None
        self.sites = set()
        import models as M
        self.models = M
        self.fresh_ctr = {}
        self.bindrange = {}
        self.peel = 0
        self.ctx = ()            # which of several passes over the same code this is: part of the loops' names
        self.line = 0

    # ---- call paths
    def cp(self, parent, site):
        key = (parent, site)
        i = self.cpids.get(key)
        if i is None:
            i = len(self.cpids) + 1
            self.cpids[key] = i
            self.cpinfo[i] = (parent, site)
        return i

    def emit(self, _kind, **kw):
        for o in self.observers: o(_kind, kw)

    def where(self):
        if not self.stack: return "?"
        f = self.stack[-1]
        return "%s:%s (%s)" % (f.fn["file"], self.line, f.fn["path"])

    # ---- memory
    def initial(self, root):
        if root[0] == "P":
            t = root[1]
            if t.op == "mapkey": return t      # keys are stored below references
            return mk("deref", t, ty=getattr(t, "ty2", None) or DEREF_TY.get(t))
        if root[0] == "C": return root[1]
        if root[0] == "G": return EMPTY
        return mk("undef", *root)

    def base(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.initial(root)
        return v

    def load_loc(self, st, root, proj):
        v = self.base(st, root)
        return self.project(st, v, proj)

    def project(self, st, v, proj):
        for e in proj:
            v = st.simp(v)
            kd = e[0]
            if kd == "f": v = fld(v, e[1], e[2], e[3] if len(e) > 3 else None)
            elif kd == "v":
                v = down(v, e[1], e[2], v.ty)
            elif kd == "ix": v = index(v, e[1], e[2], st.facts)
            elif kd == "sl":
                b = e[2] if e[2] is not None else length(v)
                v = slice_(v, e[1], b, st.facts)
            elif kd == "mx":
                v = protected(v)
            elif kd == "mk":
                import maps
                v = maps.val(v, e[1], e[2] if len(e) > 2 else None)
            elif kd == "rawobj":
                v = mk("rawbytes", v, k(self.p.types[e[1]].get("size")), ty="seq")
            elif kd == "frombytes": v = self.from_bytes(v, e[1])
            elif kd == "as":   # reinterpretation of the bytes
                v = mk("raw", v, e[1])
            else: raise Undecided("projection " + kd)
        return v

    def update(self, st, v, proj, new):
        if v.op == "uninit":     # the wrappers around uninitialised memory hold nothing else
            while proj and proj[0][0] == "f": proj = proj[1:]
        if not proj: return new
        e = proj[0]; kd = e[0]
        v = st.simp(v)
        if kd == "f":
            if v.op == "gamma":
                return gamma(v.a[0], self.update(st, v.a[1], proj, new), self.update(st, v.a[2], proj, new))
            v = self.expand(v, e)
            if v.op == "agg" and e[1] < len(v.a[2]):
                fs = list(v.a[2])
                fs[e[1]] = self.update(st, fs[e[1]], proj[1:], new)
                return agg(v.a[0], v.a[1], fs)
            if v.op == "clo":
                fs = list(v.a[1])
                fs[e[1]] = self.update(st, fs[e[1]], proj[1:], new)
                return mk("clo", v.a[0], tuple(fs), *v.a[2:])
            return mk("upd", v, e[2] or e[1], self.update(st, fld(v, e[1], e[2], e[3]), proj[1:], new))
        if kd == "v":
            inner = down(v, e[1], e[2], v.ty)
            if inner.op != "agg" and len(proj) > 1 and proj[1][0] == "f":
                inner = self.expand(inner, proj[1], e[1])
            r = self.update(st, inner, proj[1:], new)
            if v.op == "gamma":
                return gamma(v.a[0], r if isv(v.a[1], e[1]) is TRUE else v.a[1], r if isv(v.a[2], e[1]) is TRUE else v.a[2])
            return r
        if kd == "ix":
            cur = index(v, e[1], e[2], st.facts)
            nv = self.update(st, cur, proj[1:], new)
            byte = e[2] == ("int", False, 8)
            return splice(v, e[1], add(e[1], k(1)), unit(nv, byte), st.facts)
        if kd == "sl":
            b = e[2] if e[2] is not None else length(v)
            cur = slice_(v, e[1], b, st.facts)
            nv = self.update(st, cur, proj[1:], new)
            return splice(v, e[1], b, nv, st.facts)
        if kd == "mx":
            cur = protected(v)
            return agg("mutex", None, [self.update(st, cur, proj[1:], new)])
        if kd == "mk":
            import maps
            cur = maps.val(v, e[1], e[2] if len(e) > 2 else None)
            return maps.insert(v, e[1], self.update(st, cur, proj[1:], new))
        if kd == "rawobj":
            cur = mk("rawbytes", v, k(self.p.types[e[1]].get("size")), ty="seq")
            return self.from_bytes(self.update(st, cur, proj[1:], new), e[1])
        if kd == "frombytes":
            import models
            b = models.layout_bytes(self, self.update(st, self.from_bytes(v, e[1]), proj[1:], new), e[1])
            if b is None or b.op == "padded": raise Undecided("update " + kd)
            return b
        raise Undecided("update " + kd)

    def from_bytes(self, seq, tid):
        """value of a type whose memory bytes are seq"""
        t = self.p.types[tid]
        big = bool(self.p.d.get("big_endian_cfg"))
        if t["k"] == "int":
            n = t["bits"] // 8
            v = fromle(n, seq, t["signed"])
            return v if not big else (v.a[0] if False else mk("swap", n, v, ty=self.p.tyinfo(tid)))
        if t["k"] == "adt" and not t.get("enum") and "variants" in t and t.get("offsets") is not None:
            fs = []
            for (n, ft), off in zip(t["variants"][0]["f"], t["offsets"]):
                sz = self.p.types[ft].get("size") or self.p.types[ft].get("bits", 0) // 8
                fs.append(self.from_bytes(slice_(seq, k(off), k(off + sz)), ft))
            return agg(t["adt"], None, fs)
        return mk("frombytes", seq, t["s"], ty=self.p.tyinfo(tid))

    def expand(self, v, e, variant=None):
        """Turn a symbolic struct value into an aggregate of its fields."""
        if v.op in ("agg", "clo"): return v
        pk = e[4] if len(e) > 4 else None
        if pk is None: return v
        t = self.p.types[pk]
        if t["k"] == "adt" and "variants" in t:
            if t["enum"]:
                if variant is None: return v
                fs = t["variants"][variant]["f"]
            else:
                fs = t["variants"][0]["f"]; variant = None
            return agg(t["adt"], variant, [fld(v, i, n, self.p.tyinfo(ft)) for i, (n, ft) in enumerate(fs)])
        if t["k"] == "tuple":
            return agg("()", None, [fld(v, i, str(i), self.p.tyinfo(ft)) for i, ft in enumerate(t["elems"])])
        return v

    def store_loc(self, st, root, proj, new):
        if proj:
            v = self.base(st, root)
            new = self.update(st, v, proj, new)
        st.mem[root] = new

    # targets: ("loc", root, proj) | ("g", cond, t1, t2)
    def target_of(self, st, v):
        v = st.simp(v)
        if v.op == "ref": return ("loc", v.a[0], v.a[1])
        if v.op == "gamma":
            return ("g", v.a[0], self.target_of(st, v.a[1]), self.target_of(st, v.a[2]))
        if v.op in ("ptrcast", "ptr"):
            import models
            etid = v.a[2] if v.op == "ptrcast" else v.a[1]
            if etid is not None:
                t = models.raw_target(self, st, v, etid)
                if t is not None:
                    models.raw_access(self, st, v, k(1), etid, False, True, "*")
                    return t
        return ("loc", ("P", v), ())

    def tload(self, st, t):
        if t[0] == "loc": return self.load_loc(st, t[1], t[2])
        return gamma(t[1], self.tload(st, t[2]), self.tload(st, t[3]))

    def tstore(self, st, t, new, cond=None):
        if t[0] == "loc":
            if cond is not None:
                old = self.load_loc(st, t[1], t[2])
                for c, pol in reversed(cond):
                    new = gamma(c, new, old) if pol else gamma(c, old, new)
            self.store_loc(st, t[1], t[2], new)
        else:
            self.tstore(st, t[2], new, (cond or []) + [(t[1], True)])
            self.tstore(st, t[3], new, (cond or []) + [(t[1], False)])

    def textend(self, t, pe):
        if t[0] == "loc":
            p = t[2]
            if p and p[-1][0] == "sl" and pe[0] == "sl":
                a, b = p[-1][1], p[-1][2]
                hi = add(a, pe[2]) if pe[2] is not None else b
                return ("loc", t[1], p[:-1] + (("sl", add(a, pe[1]), hi),))
            if p and p[-1][0] == "sl" and pe[0] == "ix":
                return ("loc", t[1], p[:-1] + (("ix", add(p[-1][1], pe[1])) + tuple(pe[2:]),))
            return ("loc", t[1], p + (pe,))
        return ("g", t[1], self.textend(t[2], pe), self.textend(t[3], pe))

    def tref(self, t):
        if t[0] == "loc":
            if t[1][0] == "P" and not t[2]: return t[1][1]
            return mk("ref", t[1], t[2])
        return gamma(t[1], self.tref(t[2]), self.tref(t[3]))

    def load(self, st, refv, tid=None):
        """Value behind a reference value."""
        return self.tload(st, self.target_of(st, refv))
    def store(self, st, refv, new):
        self.tstore(st, self.target_of(st, refv), new)

    def place(self, st, fr, p):
        """-> target, type id"""
        loc, proj = p
        t = ("loc", ("L", fr.cp, loc), ())
        ty = fr.fn["locals"][loc][0]
        for e in proj:
            kd = e[0]
            tt = self.p.types[ty]
            if kd == "*":
                v = self.tload(st, t)
                nt = None
                if tt["k"] in ("ref", "ptr"): nt = tt["to"]
                elif tt["k"] == "adt" and tt["adt"] == "alloc::boxed::Box": nt = tt["args"][0]
                if nt is not None: self.note_ty(st, v, nt)
                t = self.target_of(st, v)
                ty = nt if nt is not None else ty
            elif kd == "f":
                t = self.textend(t, ("f", e[1], e[2], self.p.tyinfo(e[3]), ty))
                ty = e[3]
            elif kd == "v":
                t = self.textend(t, ("v", e[1], e[2]))
            elif kd == "i":
                iv = self.base(st, ("L", fr.cp, e[1]))
                et = self.elem_ty(ty)
                t = self.textend(t, ("ix", iv, self.p.tyinfo(et) if et is not None else None))
                ty = et if et is not None else ty
            elif kd == "c":
                et = self.elem_ty(ty)
                iv = k(e[1])
                if e[3]: iv = sub(length(self.tload(st, t)), k(e[1]))
                t = self.textend(t, ("ix", iv, self.p.tyinfo(et) if et is not None else None))
                ty = et if et is not None else ty
            elif kd == "s":
                end = None
                if e[3]:
                    end = sub(length(self.tload(st, t)), k(e[2]))
                else: end = k(e[2])
                t = self.textend(t, ("sl", k(e[1]), end))
            else:
                raise Undecided("place projection " + str(e))
        return t, ty

    def elem_ty(self, ty):
        t = self.p.types[ty]
        if t["k"] in ("slice", "array"): return t["to"]
        if t["k"] == "adt" and t["args"]: return t["args"][0]
        return None

    def note_ty(self, st, v, tid):
        """Remember the pointee type of an opaque pointer."""
        v = st.simp(v)
        if v.op not in ("ref", "gamma"):
            if v not in DEREF_TY: DEREF_TY[v] = self.p.tyinfo(tid)

    # ---- operands, rvalues
    def constant(self, ty, val, name=None):
        kd = val[0]
        tt = self.p.types[ty]
        if kd == "int":
            if tt["k"] == "bool": return kb(val[1] not in ("0", 0))
            return k(int(val[1]))
        if kd == "str": return ref(("C", bytes_(val[1].encode("utf-8"))))
        if kd == "bytes": return bytes_(bytes(val[1]))
        if kd == "ref":
            inner = tt.get("to", ty)
            return ref(("C", self.constant(inner, val[1])))
        if kd == "arr":
            et = tt.get("to", ty)
            byte = self.p.types[et]["s"] in ("u8", "i8")
            return cat(*[unit(self.constant(et, v), byte) for v in val[1]])
        if kd == "adt" and tt.get("adt") in INT_ADTS:
            # a time: seconds and nanoseconds
            ns = []
            def walk(v): ns.append(int(v[1])) if v[0] == "int" else [walk(x) for x in v[2]] if v[0] == "adt" else ns.append(None)
            walk(val)
            if len(ns) == 2 and None not in ns: return k(ns[0] * 10**9 + ns[1])
        if kd == "adt" and name and tt.get("adt") in INT_ADTS and name.rsplit("::", 1)[-1] in ("UNIX_EPOCH", "ZERO"): return k(0)
        if kd == "adt":
            if tt["k"] == "adt" and "variants" in tt:
                if tt["adt"] in INT_ADTS: return mk("const", json.dumps(val), ty=INT_ADTS[tt["adt"]])
                vi = val[1]
                fs = tt["variants"][vi if tt["enum"] and vi >= 0 else 0]["f"]
                return agg(tt["adt"], vi if tt["enum"] else None, [self.constant(f[1], v) for f, v in zip(fs, val[2])])
            if tt["k"] == "tuple":
                return agg("()", None, [self.constant(e, v) for e, v in zip(tt["elems"], val[2])])
            if tt["k"] == "adt" and tt["adt"] in INT_ADTS:
                return mk("const", json.dumps(val), ty=INT_ADTS[tt["adt"]])
            return mk("const", tt["s"], json.dumps(val), ty=self.p.tyinfo(ty))
        if kd == "float": return mk("fk", int(val[1]), int(val[2]))
        if kd == "zst":
            if tt["k"] == "fndef": return mk("fnv", self.p.crate, ty)
            if tt["k"] == "tuple": return UNIT
            if tt["k"] == "closure": return mk("clo", (self.p.crate, tt.get("fn"), tt["path"]), ())
            if tt["k"] == "adt" and tt.get("variants") and not tt["enum"]: return agg(tt["adt"], None, [])
            if tt["k"] == "array": return EMPTY
            return mk("zst", tt["s"])
        if tt["k"] == "closure" and not tt.get("upvars", True): return mk("clo", (self.p.crate, tt.get("fn"), tt["path"]), ())
        return mk("const", name or "opaque", tt["s"], ty=self.p.tyinfo(ty))

    def operand(self, st, fr, o):
        if o[0] == "k": return self.constant(o[1], o[2], o[3] if len(o) > 3 else None)
        t, ty = self.place(st, fr, o[1])
        v = st.simp(self.tload(st, t))
        ti = self.p.tyinfo(ty)
        if ti is not None and v.ty is None and v.op not in ("k", "agg", "ref", "clo"): v.ty = ti
        return v

    def opty(self, fr, st, o):
        if o[0] == "k": return o[1]
        return self.place(st, fr, o[1])[1]

    def rvalue(self, st, fr, r, dty):
        kd = r[0]
        if kd == "use": return self.operand(st, fr, r[1])
        if kd == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            byte = self.p.elem_is_byte(dty)
            try: return rep(v, k(int(n)), byte)
            except (TypeError, ValueError): return rep(v, mk("constparam", str(n)), byte)
        if kd in ("ref", "rawptr"):
            t, ty = self.place(st, fr, r[2])
            return self.tref(t)
        if kd == "cast": return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if kd == "bin": return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4], st)
        if kd == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if v.ty == "bool" or v.op in ("b", "not", "band", "lt0", "eq0", "lt", "eq", "is"): return not_(v)
                dt = self.p.types[dty]
                if dt["k"] == "bool": return not_(v)
                bits = dt.get("bits", 64)
                if v.op == "k": return k((~v.a[0]) & ((1 << bits) - 1)) if not dt.get("signed") else k(~v.a[0])
                return xor(v, k((1 << bits) - 1))
            if r[1] == "Neg":
                if v.op == "fk" or v.ty == "float": return mk("fneg", v, ty="float")
                return scale(v, -1)
            if r[1] == "PtrMetadata": return length(self.load(st, v))
            return mk("un", r[1], v)
        if kd == "discr":
            t, ty = self.place(st, fr, r[1])
            v = st.simp(self.tload(st, t))
            return self.discr(v, ty)
        if kd == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "array":
                byte = self.p.elem_is_byte(dty)
                return cat(*[unit(v, byte) for v in vs])
            if a[0] == "tuple": return agg("()", None, vs)
            if a[0] == "adt":
                tt = self.p.types[a[1]]
                return self.mkadt(tt, a[2], vs, st)
            if a[0] == "closure":
                tt = self.p.types[a[1]]
                return mk("clo", (self.p.crate, tt.get("fn"), tt["path"]), tuple(vs))
            return agg(a[0], None, vs)
        return mk("other", str(r), fr.cp)

    def discr(self, v, ty):
        tt = self.p.types[ty]
        if tt["k"] == "adt" and "variants" in tt:
            ds = tt.get("discrs") or list(range(len(tt["variants"])))
            ds = [int(x) for x in ds]
            if not (v.op == "agg" and v.a[0] == "entry"): return self._discr(v, tuple(ds))
        if v.op == "agg" and v.a[0] == "entry": return gamma(isv(v, 0), k(0), k(1))      # an entry of a map
        return mk("discr", v, None, ty=INT_U64)

    def _discr(self, v, ds):
        if v.op == "agg" and v.a[1] is not None and v.a[1] < len(ds): return k(ds[v.a[1]])
        if v.op == "gamma": return gamma(v.a[0], self._discr(v.a[1], ds), self._discr(v.a[2], ds))
        NVAR[v] = len(ds)
        return mk("discr", v, ds, ty=INT_U64)

    def cast(self, st, fr, kind, v, fty, tty):
        F = self.p.types[fty]; Tt = self.p.types[tty]
        if kind in ("IntToInt",):
            ti = self.p.tyinfo(tty)
            if v.op == "b" or F["k"] == "bool": return gamma(v, k(1), k(0)) if v.op != "b" else k(1 if v is TRUE else 0)
            fi = self.p.tyinfo(fty)
            if fi and fi[0] == "int" and v.ty is None and v.op not in ("k", "lin", "gamma"): v.ty = fi
            if ti and ti[0] == "int":
                lo, hi = rng(v, st.facts); r = int_range(ti)
                if lo >= r[0] and hi <= r[1]: return v
                if v.op == "discr" : return v
                return cast_int(v, ti)
            return v
        if kind == "Unsize" or "Unsize" in kind:
            # remember what a trait object was made of
            src = F; dst = Tt
            d = dst
            while d["k"] in ("ref", "ptr"): d = self.p.types[d["to"]]
            if d["k"] == "adt" and d["adt"] == "alloc::boxed::Box": d = self.p.types[d["args"][0]]
            if d["k"] == "dyn":
                s = fty
                S = F
                while S["k"] in ("ref", "ptr"): s = S["to"]; S = self.p.types[s]
                if S["k"] == "adt" and S["adt"] == "alloc::boxed::Box": s = S["args"][0]
                DYN[v] = (self.p.crate, s)
            return v
        if kind == "BoxDerefTransmute":
            b = unbox(v)
            if b is not None: return b
        if kind in ("Transmute",):
            return mk("transmute", v, F["s"], Tt["s"], ty=self.p.tyinfo(tty)) if F["s"] != Tt["s"] else v
        if kind in ("PtrToPtr", "MutToConstPointer", "ArrayToPointer") or "Pointer" in kind and "Reify" not in kind and "Closure" not in kind:
            if kind == "PtrToPtr":
                a = F.get("to"); b = Tt.get("to")
                if a is not None and b is not None and self.p.types[a]["s"] != self.p.types[b]["s"]:
                    return mk("ptrcast", v, a, b)
            return v
        if kind == "IntToFloat": return mk("i2f", v, 32, ty="float") if Tt["s"] == "f32" else mk("i2f", v, ty="float")
        if kind == "FloatToInt": return mk("f2i", v, ty=self.p.tyinfo(tty))
        if kind == "FloatToFloat": return mk("f2f", v, 32, ty="float") if Tt["s"] == "f32" else mk("f2f", v, ty="float")
        return v if "Reify" in kind or "Closure" in kind or "Coercion" in kind else mk("cast", kind, v, Tt["s"], ty=self.p.tyinfo(tty))

    def binop(self, op, a, b, ty, st=None):
        tt = self.p.types[ty]
        ti = self.p.tyinfo(ty)
        if ti is not None and ti[0] == "int":
            for v in (a, b):
                if v.ty is None and v.op not in ("k", "lin", "gamma", "phi"): v.ty = ti
        isf = tt["k"] == "float"
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isf and op in ("Add", "Sub", "Mul", "Div", "Rem"):
            if op in ("Add", "Mul") and b.id < a.id: a, b = b, a
            return mk("f" + op.lower(), a, b, ty="float")
        if op == "Add": return add(a, b)
        if op == "Sub": return sub(a, b)
        if op == "Mul": return mul(a, b)
        if op == "Div": return div(a, b)
        if op == "Rem": return rem(a, b)
        bits = tt.get("bits", 64) if tt["k"] != "bool" else 1
        if op == "BitAnd": return band(a, b) if tt["k"] == "bool" else and_(a, b)
        if op == "BitOr": return bor(a, b) if tt["k"] == "bool" else or_(a, b)
        if op == "BitXor":
            return gamma(a, not_(b), b) if tt["k"] == "bool" else xor(a, b)
        if op == "Shl": return cast_int(shl(bits, a, b), ("int", True, bits)) if tt.get("signed") else shl(bits, a, b)
        if op == "Shr": return shr(bits, a, b)
        if op == "Eq": return eq(a, b)
        if op == "Ne": return not_(eq(a, b))
        if op == "Lt": return lt(a, b)
        if op == "Gt": return lt(b, a)
        if op == "Le": return le(a, b) if not isf else mk("fle", a, b, ty="bool")
        if op == "Ge": return le(b, a) if not isf else mk("fle", b, a, ty="bool")
        if op == "Cmp":
            return gamma(lt(a, b), agg("core::cmp::Ordering", 0, []), gamma(eq(a, b), agg("core::cmp::Ordering", 1, []), agg("core::cmp::Ordering", 2, [])))
        return mk("bin", op, a, b)

    # ---- joins
    def merge_vals(self, root, c, a, b):
        if a is b: return a
        return gamma(c, a, b)

    def join(self, states, jid):
        states = [s for s in states if s is not None]
        uniq = []
        for s in states:
            if not any(s is u for u in uniq): uniq.append(s)
        states = uniq
        if len(states) == 1: return states[0]
        first = states[0].facts.d
        gates = list(first.items()) + [(c, v) for s in states[1:] for c, v in s.facts.d.items() if c not in first and c.op in ("gamma", "band")]
        for c, v in gates:
            pols = []
            for s in states:
                x = s.facts.d.get(c)
                if x is None and c.op in ("gamma", "band"):
                    x = s.decide(c)
                if x is None: break
                pols.append(x)
            else:
                if len(set(pols)) == 2:
                    A = self.join([s for s, x in zip(states, pols) if x], jid)
                    B = self.join([s for s, x in zip(states, pols) if not x], jid)
                    return self.merge2(c, A, B)
        # no single condition tells them apart: one alternative against the rest
        if len(states) <= 12:
            common = {c for c, v in first.items() if all(s.facts.d.get(c) is v for s in states[1:])}
            for S in states:
                ex = [(c, v) for c, v in S.facts.d.items() if c not in common]
                if not ex or len(ex) > 8: continue
                rest = [s for s in states if s is not S]
                if all(any(s.decide(c) is (not v) for c, v in ex) or self.contradicts(s, ex) for s in rest):
                    return self.merge2(conj_facts(ex), S, self.join(rest, jid))
        # no gate: alternatives
        roots = {}
        for s in states:
            for r in s.mem: roots[r] = None
        mem = {}
        for r in roots:
            vs = []
            for s in states:
                v = s.mem.get(r)
                if v is None:
                    if r[0] == "L": vs = None; break
                    v = self.initial(r)
                vs.append(v)
            if vs is None: continue
            if all(v is vs[0] for v in vs): mem[r] = vs[0]
            else: mem[r] = phi(jid, vs)
        f = {c: v for c, v in first.items() if all(s.facts.d.get(c) is v for s in states[1:])}
        held = states[0].held
        if any(s.held != held for s in states): held = tuple(h for h in held if all(h in s.held for s in states))
        return State(mem, Facts(f), held)

    def contradicts(self, s, ex):
        """the facts ex cannot hold in s: propagates through conditional facts"""
        cond = [(c, v) for c, v in s.facts.d.items() if c.op in ("gamma", "band")]
        cond += [(c, v) for c, v in ex if c.op in ("gamma", "band")]
        if not cond: return False
        Interp.epochs += 1
        old = Facts.epoch; Facts.epoch = Interp.epochs
        try:
            for c, v in ex:
                s = s.assume(c, v)
                if s is None: return True
            return self.unsat(s, cond, 5)
        finally: Facts.epoch = old
    epochs = 0
    def unsat(self, s, cond, depth):
        """do the conditions contradict each other: propagation, then case distinction on a gate"""
        for _ in range(3):
            more = []
            for c, v in cond:
                d = self.reduce(s, c if v else not_(c))
                if d is FALSE: return True
                if d is TRUE: continue
                s2 = s.assume(d, True)
                if s2 is None: return True
                if s2 is not s: s = s2
                more.append((d, True))
            if not more: break
            cond = [(c, v) for c, v in more if c.op in ("gamma", "band", "not")]
        if not cond or not depth: return False
        gates = {}
        for c, v in cond:
            while c.op == "not": c = c.a[0]
            if c.op == "gamma":
                g = c.a[0]
                while g.op in ("not", "gamma", "band"): g = g.a[0]
                gates[g] = gates.get(g, 0) + 1
            elif c.op == "band":
                g = c.a[0]
                while g.op in ("not", "gamma", "band"): g = g.a[0]
                gates.setdefault(g, 0)
        if not gates: return False
        g = max(gates, key=lambda x: (gates[x], -x.id))
        for pol in (True, False):
            q = s.assume(g, pol)
            if q is None: continue
            if not self.unsat(q, [(c, v) for c, v in cond], depth - 1): return False
        return True
    def reduce(self, s, c, depth=0, memo=None):
        """condition with its decided parts replaced"""
        if depth > 12: return c
        if memo is None: memo = {}
        r = memo.get(c)
        if r is None: r = memo[c] = self.reduce1(s, c, depth, memo)
        return r
    def reduce1(self, s, c, depth, memo):
        if c.op not in ("gamma", "band", "not"):
            d = s.decide(c)
            return c if d is None else TRUE if d else FALSE
        if c.op == "not": return not_(self.reduce(s, c.a[0], depth + 1, memo))
        if c.op == "band": return band(self.reduce(s, c.a[0], depth + 1, memo), self.reduce(s, c.a[1], depth + 1, memo))
        if c.op == "gamma": return gamma(self.reduce(s, c.a[0], depth + 1, memo), self.reduce(s, c.a[1], depth + 1, memo), self.reduce(s, c.a[2], depth + 1, memo))

    def merge2(self, c, A, B):
        mem = {}
        for r, v in A.mem.items():
            w = B.mem.get(r)
            if w is None:
                if r[0] == "L": continue
                w = self.initial(r)
            mem[r] = v if v is w else gamma(c, v, w)
        for r, w in B.mem.items():
            if r in A.mem or r[0] == "L": continue
            v = self.initial(r)
            mem[r] = v if v is w else gamma(c, v, w)
        f = {x: v for x, v in A.facts.d.items() if B.facts.d.get(x) is v}
        # what each side knew beyond the other becomes one conditional fact
        ea = [(x, v) for x, v in A.facts.d.items() if x is not c and x not in f]
        eb = [(x, v) for x, v in B.facts.d.items() if x is not c and x not in f]
        if (ea or eb) and len(ea) <= self.fact_limit and len(eb) <= self.fact_limit:
            g = gamma(c, conj_facts(ea), conj_facts(eb))
            if g is not TRUE and g is not FALSE:
                if g.op == "not": f[g.a[0]] = False
                else: f[g] = True
        held = A.held if A.held == B.held else tuple(h for h in A.held if h in B.held)
        return State(mem, Facts(f), held)

    def pkey(self, st, fr, bb):
        live = fr.cfg["live"][bb]
        ks = []
        for l in range(len(fr.fn["locals"])):
            if l not in live and l not in fr.cfg["borrowed"]: continue
            v = st.mem.get(("L", fr.cp, l))
            if v is None: continue
            if v.op == "b": ks.append((l, v.a[0]))
            elif v.op == "agg":
                if v.a[1] is not None:
                    ks.append((l, v.a[1]) + tuple(x.a[1] for x in v.a[2] if x.op == "agg" and x.a[1] is not None))
                elif v.a[0] == "()" and l not in fr.cfg["borrowed"]:
                    ks.append((l,) + tuple((i, x.a[1]) for i, x in enumerate(v.a[2]) if x.op == "agg" and x.a[1] is not None))
        return tuple(ks) + (st.held,)

    def partition(self, states, fr, bb):
        if len(states) <= 1: return states
        if fr.depth and len(states) <= 4: return states      # keep loop paths apart up to the back edge
        g = {}
        for s in states: g.setdefault(self.pkey(s, fr, bb), []).append(s)
        if len(g) > MAXPART:
            return [self.join(states, (fr.cp, bb))]
        return [self.join(ss, (fr.cp, bb)) if len(ss) > 1 else ss[0] for ss in g.values()]

    # ---- loops
    def fixpoint(self, loopid, init, step, skip=()):
        """step(state) -> (list of back-edge states, exits).  Returns the loop's description."""
        if self.ctx: loopid = (loopid, self.ctx)
        sticky = set()
        for it in range(14):
            head = init.copy()
            for (root, path) in sorted(sticky, key=str):
                cur = self.base(head, root)
                head.mem[root] = self.set_mu(cur, path, loopid, root, (), init)
            backs, exits = step(head)
            if not backs:
                back = None
                break
            back = self.join(backs, ("back", loopid))
            new = set(); self.fx = (init, back)
            roots = dict.fromkeys(list(init.mem) + [r for r in back.mem if r[0] in ("P", "G")])
            for r in roots:
                a = self.base(init, r) if r in init.mem or r[0] != "L" else None
                if r[0] == "P" and r not in init.mem and self.mentions_mu(r[1], loopid): continue
                b = back.mem.get(r)
                if b is None:
                    if r[0] == "L": continue
                    b = self.initial(r)
                self.diff(a, b, r, (), sticky, new)
            if not new: break
            sticky |= new
        else:
            raise Undecided("loop does not stabilise")
        li = LoopInfo()
        li.id = loopid; li.init = init; li.head = head; li.back = back; li.exits = exits; li.sticky = sticky
        li.backs = backs; li.out = None
        self.loops[loopid] = li
        self.emit("loop", loop=li)
        return li

    def window(self, st, v):
        """(root, projection, lo, hi) of a reference to part of a sequence, or None"""
        v = st.simp(v)
        if v.op == "gamma":
            x, y = self.window(st, v.a[1]), self.window(st, v.a[2])
            if x is None or y is None or x[0] != y[0] or x[1] != y[1]: return None
            return x[0], x[1], gamma(v.a[0], x[2], y[2]), gamma(v.a[0], x[3], y[3])
        if v.op == "ref":
            root, p = v.a
            if p and p[-1][0] == "sl" and p[-1][2] is not None: return root, p[:-1], p[-1][1], p[-1][2]
        elif v.ty == "ref" or v.op in ("sym", "f", "deref"): root, p = ("P", v), ()
        else: return None
        try: c = st.simp(self.load_loc(st, root, p))
        except Exception: return None
        if not is_seqlike(c): return None
        return root, p, k(0), length(c)

    def at(self, st, root, path):
        """the part of a root's value named by path (None if there is none)"""
        v = st.mem.get(root)
        if v is None: v = self.base(st, root)
        for i in path:
            if v is None: return None
            if i == "lo" or i == "hi":
                w = self.window(st, v)
                v = None if w is None else w[2 if i == "lo" else 3]
                continue
            if isinstance(i, tuple):
                es = elements(v)
                v = es[i[1]] if es and i[1] < len(es) else None
                continue
            if v.op != "agg" or i >= len(v.a[2]): return None
            v = v.a[2][i]
        return v

    def mentions_mu(self, t, loopid):
        return any(x.op == "mu" and x.a[0] == loopid for x in subterms(t))

    def diff(self, a, b, root, path, sticky, new):
        if a is b: return
        if (root, path) in sticky: return
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
                self.diff(x, y, root, path + (i,), sticky, new)
            return
        if any((root, path[:i]) in sticky for i in range(len(path))): return
        ea, eb = elements(a), elements(b)
        if ea and eb and len(ea) == len(eb) <= 6 and all(x.op == "agg" and y.op == "agg" for x, y in zip(ea, eb)):
            for i, (x, y) in enumerate(zip(ea, eb)): self.diff(x, y, root, path + (("e", i),), sticky, new)
            return
        if a.op != "agg" and b.op != "agg" and not is_intish(a):
            wa, wb = self.window(self.fx[0], a), self.window(self.fx[1], b)
            if wa is not None and wb is not None and wa[:2] == wb[:2]:
                for w, n in ((2, "lo"), (3, "hi")):
                    if wa[w] is not wb[w] and (root, path + (n,)) not in sticky: new.add((root, path + (n,)))
                return
        new.add((root, path))

    def set_mu(self, cur, path, loopid, root, done, st=None):
        if path and path[0] in ("lo", "hi"):
            w = self.window(st, cur)
            if w is None: return cur
            w = list(w)
            w[2 if path[0] == "lo" else 3] = mk("mu", loopid, root, done + path, ty=("int", False, 64))
            return mk("ref", w[0], w[1] + (("sl", w[2], w[3]),))
        if path and isinstance(path[0], tuple):
            es = elements(cur)
            if not es or path[0][1] >= len(es): return cur
            es = list(es); es[path[0][1]] = self.set_mu(es[path[0][1]], path[1:], loopid, root, done + (path[0],), st)
            return cat(*[unit(x) for x in es])
        if path and cur.op == "agg" and path[0] < len(cur.a[2]):
            fs = list(cur.a[2])
            fs[path[0]] = self.set_mu(fs[path[0]], path[1:], loopid, root, done + (path[0],), st)
            return agg(cur.a[0], cur.a[1], fs)
        ty = cur.ty
        if ty is None and is_intish(cur): ty = ("int", rng(cur)[0] < 0, 64)
        if ty is None and is_seqlike(cur): ty = "seq"
        if ty is None and cur.op == "b": ty = "bool"
        return mk("mu", loopid, root, done, ty=ty)

    # ---- functions
    def call_fn(self, fn, args, st, site):
        """Analyse a call of fn; -> list of (state, return value)"""
        if sum(1 for f in self.stack if f.fn is fn) >= 2 or len(self.stack) > 60:
            return None
        parent = self.stack[-1].cp if self.stack else 0
        cp = self.cp(parent, (fn["id"], site))
        fr = Frame(fn, cp, self.p.cfg(fn))
        st = st.copy()
        if len(args) != fn["argc"]:
            raise Undecided("argument count of %s: %d vs %d" % (fn["path"], len(args), fn["argc"]))
        for i, a in enumerate(args):
            st.mem[("L", cp, i + 1)] = a
            if a.ty is None and a.op in ("f", "deref", "sym", "mu", "idx", "as", "call", "res"):
                ti = self.p.tyinfo(fn["locals"][i + 1][0])
                if ti: a.ty = ti
        self.stack.append(fr)
        saveline = self.line
        self.emit("enter", fn=fn, args=args, st=st)
        try:
            outs = self.run_body(fr, st)
        finally:
            self.stack.pop()
            self.line = saveline
        res = []
        for s in outs:
            rv = s.mem.get(("L", cp, 0), UNIT)
            rv = s.simp(rv)
            s = s.copy()
            for r in [r for r in s.mem if r[0] == "L" and r[1] == cp]: del s.mem[r]
            res.append((s, rv))
        self.emit("leave", fn=fn, args=args, outs=res)
        return res

    def run_body(self, fr, st0):
        inc = {}     # (src, dst) -> states
        outs = []    # return states
        cfg = fr.cfg
        blocks = fr.fn["blocks"]
        def set_edges(b, res):
            for s in cfg["succ"][b]: inc[(b, s)] = []
            for dst, s in res:
                inc.setdefault((b, dst), []).append(s)
        preds = {}
        for b in cfg["rpo"]:
            for s in cfg["succ"][b]: preds.setdefault(s, []).append(b)
        rets = {}
        def instates(b, exclude=()):
            ss = []
            if b == 0: ss.append(st0)
            for p in preds.get(b, []):
                if p in exclude: continue
                ss += inc.get((p, b), [])
            return ss
        def run_node(b, states):
            res = []; rets[b] = []
            ctx = self.ctx
            for i, s in enumerate(states):
                if len(states) > 1: self.ctx = ctx + ((fr.cp, b, i),)
                try: nx = self.block(fr, b, s)
                finally: self.ctx = ctx
                for dst, s2 in nx:
                    if dst == "ret": rets[b].append(s2)
                    else: res.append((dst, s2))
            set_edges(b, res)
        def nodes_of(comp):
            out = []
            for c in comp:
                if isinstance(c, tuple): out.append(c[0]); out += nodes_of(c[1])
                else: out.append(c)
            return out
        def run(comp):
            for c in comp:
                if isinstance(c, tuple):
                    head, body = c
                    members = set(nodes_of([c]))
                    init_states = [s for p in preds.get(head, []) if p not in members for s in inc.get((p, head), [])]
                    if head == 0: init_states.append(st0)
                    if not init_states:
                        for b in members:
                            set_edges(b, []); rets[b] = []
                        continue
                    init = self.join(init_states, (fr.cp, head))
                    out_edges = [(b, x) for b in members for x in cfg["succ"][b] if x not in members]
                    def once(h):
                        for b in members:
                            set_edges(b, []); rets[b] = []
                        run_node(head, [h])
                        fr.depth += 1
                        run(body)
                        fr.depth -= 1
                        return [s for p in preds[head] if p in members for s in inc.get((p, head), [])]
                    def collect():
                        return {e: list(inc.get(e, [])) for e in out_edges}, {b: list(rets.get(b, [])) for b in members}
                    def step(h):
                        backs = once(h)
                        ex, rt = collect()
                        if self.peel < 2 and 0 < len(backs) <= 4:
                            # states after which the loop certainly ends need not be merged into the head
                            self.peel += 1
                            keep = []; ctx = self.ctx
                            for i, b in enumerate(backs):
                                self.ctx = ctx + (("peel", fr.cp, head, i),)
                                try:
                                    again = once(b)
                                except Undecided:
                                    self.peel -= 1
                                    raise
                                finally: self.ctx = ctx
                                if again: keep.append(b); continue
                                ex2, rt2 = collect()
                                for e in out_edges: ex[e] += ex2[e]
                                for n in members: rt[n] += rt2[n]
                            self.peel -= 1
                            backs = keep
                        for e in out_edges: inc[e] = ex[e]
                        for b in members: rets[b] = rt[b]
                        return backs, None
                    done = self.unroll(fr, head, init, once, collect, out_edges, members)
                    if done is not None:
                        for e in out_edges: inc[e] = done[0][e]
                        for b in members: rets[b] = done[1][b]
                        continue
                    li = self.fixpoint((fr.cp, head), init, step)
                    li.fn = fr.fn
                    li.out = [s for e in out_edges for s in inc.get(e, [])] + [s for b in members for s in rets.get(b, [])]
                    for e in out_edges:
                        inc[e] = [self.models.close_loop(self, s, li) for s in inc.get(e, [])]
                else:
                    ss = instates(c)
                    if not ss:
                        set_edges(c, []); rets[c] = []
                        continue
                    run_node(c, self.partition(ss, fr, c))
        run(cfg["wto"])
        for b in cfg["rpo"]:
            outs += rets.get(b, [])
        # merge returns by shape of the return value
        g = {}
        for s in outs:
            v = s.simp(s.mem.get(("L", fr.cp, 0), UNIT))
            g.setdefault(self.shape(v) + (s.held,), []).append(s)
        if len(g) > MAXPART: return [self.join(outs, (fr.cp, "ret"))]
        return [self.join(ss, (fr.cp, "ret")) if len(ss) > 1 else ss[0] for ss in g.values()]

    def unroll(self, fr, head, init, once, collect, out_edges, members):
        """the outcomes of a loop that is known to go round so and so many times"""
        ex = {e: [] for e in out_edges}; rt = {b: [] for b in members}
        st = init; ctx = self.ctx
        for i in range(4):
            self.ctx = ctx + (("round", fr.cp, head, i),)
            try: backs = once(st)
            finally: self.ctx = ctx
            e2, r2 = collect()
            if backs and any(ss for e, ss in e2.items() if e[1] in fr.cfg["returns"]): return None
            for e in out_edges: ex[e] += e2[e]
            for b in members: rt[b] += r2[b]
            if not backs: return ex, rt
            st = self.join(backs, (fr.cp, head, "round", i))
        return None

    def shape(self, v):
        if v.op == "b": return (v.a[0],)
        if v.op == "agg":
            if v.a[1] is not None: return (v.a[0], v.a[1]) + tuple(self.shape(x)[:2] for x in v.a[2] if x.op == "agg" and x.a[1] is not None)
            if v.a[0] == "()": return ("()",) + tuple(self.shape(x)[:2] if x.op == "agg" and x.a[1] is not None else None for x in v.a[2])
        return ()

    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.limit: raise Undecided("analysis budget exceeded")
        st = st.copy()
        blk = fr.fn["blocks"][b]
        for s in blk["s"]:
            kd = s[0]
            if kd == "=":
                self.line = s[3]
                t, ty = self.place(st, fr, s[1])
                v = self.rvalue(st, fr, s[2], ty)
                self.tstore(st, t, v)
            elif kd == "sd":
                t, ty = self.place(st, fr, s[1])
                v = self.tload(st, t)
                tt = self.p.types[ty]
                if v.op == "agg": self.tstore(st, t, agg(tt.get("adt"), s[2], v.a[2]))
                else: self.tstore(st, t, agg(tt.get("adt"), s[2], []))
            elif kd == "dead":
                st.mem.pop(("L", fr.cp, s[1]), None)
        t = blk["t"]; kd = t[0]
        if kd == "goto": return [(t[1], st)]
        if kd == "return": return [("ret", st)]
        if kd == "switch":
            self.line = t[5] if len(t) > 5 else self.line
            return self.switch(st, fr, t)
        if kd == "drop":
            self.line = t[5] if len(t) > 5 else self.line
            tgt, ty = self.place(st, fr, t[1])
            outs = self.drop(st, tgt, ty, (b, "drop"))
            return [(t[2], s) for s in outs]
        if kd == "assert":
            c = self.operand(st, fr, t[1])
            s = st.assume(c, bool(t[2]))
            d = st.decide(c)
            if d is None or d != bool(t[2]):
                self.panic(st if d is not None else (st.assume(c, not t[2]) or st), "assert", str(t[3]))
            return [(t[4], s)] if s else []
        if kd == "call": return self.call(st, fr, b, t)
        if kd == "asm":
            st = st.copy()
            ins = [(r, st.simp(self.load_loc(st, ("L", fr.cp, l), ()))) for r, l in t[2]]
            ev = mk("asm", t[1], tuple(x for _, x in ins), self.cp(fr.cp, (b, "asm")))
            for r, l in t[3]:
                st.mem[("L", fr.cp, l)] = mk("asmout", r, ev, ty=self.p.tyinfo(fr.fn["locals"][l][0]))
            self.emit("asm", ev=ev, st=st)
            return [(t[4], st)] if t[4] is not None else []
        return []

    def panic(self, st, path, msg):
        self.panics.append((tuple(f.fn["path"] for f in self.stack), path, msg, st.facts, self.where()))
        self.emit("panic", path=path, msg=msg, st=st)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        out = []
        arms = [(int(a), bb) for a, bb in t[2]]
        if v.op == "k":
            for a, bb in arms:
                if a == v.a[0]: return [(bb, st)]
            return [(t[3], st)]
        isbool = v.ty == "bool" or v.op in ("b", "not", "band", "lt0", "eq0", "lt", "eq", "is", "fle") or self.p.types[t[4]]["k"] == "bool"
        if isbool:
            rest = st
            for a, bb in arms:
                if rest is None: break
                s = rest.assume(v, bool(a))
                if s is not None: out.append((bb, s))
                rest = rest.assume(v, not a)
            if rest is not None: out.append((t[3], rest))
            return out
        if v.op == "gamma":
            # split on the gate, then each side
            for pol, w in ((True, v.a[1]), (False, v.a[2])):
                s = st.assume(v.a[0], pol)
                if s is None: continue
                out += self.switch_val(s, st.simp(w), arms, t[3])
            return out
        return self.switch_val(st, v, arms, t[3])

    def switch_val(self, st, v, arms, other):
        out = []
        v = st.simp(v)
        if v.op == "gamma":
            for pol, w in ((True, v.a[1]), (False, v.a[2])):
                s = st.assume(v.a[0], pol)
                if s is not None: out += self.switch_val(s, w, arms, other)
            return out
        if v.op == "k":
            for a, bb in arms:
                if a == v.a[0]: return [(bb, st)]
            return [(other, st)]
        if v.op == "discr" and v.a[1] is not None:
            x, ds = v.a
            rest = st
            for a, bb in arms:
                if rest is None: break
                if a not in ds: continue
                c = isv(x, ds.index(a))
                s = rest.assume(c, True)
                if s is not None: out.append((bb, s))
                rest = rest.assume(c, False)
            if rest is not None: out.append((other, rest))
            return out
        rest = st
        for a, bb in arms:
            if rest is None: break
            c = eq(v, k(a))
            s = rest.assume(c, True)
            if s is not None: out.append((bb, s))
            rest = rest.assume(c, False)
        if rest is not None: out.append((other, rest))
        return out

    # ---- calls
    def call(self, st, fr, b, t):
        _, fty, args, dest, target, unwind, line = t[:7]
        macro = t[8] if len(t) > 8 else None
        self.line = line
        vals = [self.operand(st, fr, o) for o in args]
        tys = [self.opty(fr, st, o) for o in args]
        dt, dty = self.place(st, fr, dest)
        ft = self.p.types[fty]
        if ft["k"] == "fndef":
            fv = mk("fnv", self.p.crate, fty)
        else:
            fv = self.operand(st, fr, t[7])
        c = Call(); c.args = vals; c.tys = tys; c.dty = dty; c.site = b; c.fr = fr; c.line = line; c.macro = macro
        c.diverges = target is None
        outs = self.invoke(st, fv, c)
        res = []
        for s, v in outs:
            if target is None: continue
            ti = self.p.tyinfo(dty)
            if v.ty is None and ti is not None and v.op in ("call", "res", "f", "deref", "idx", "as", "phi"): v.ty = ti
            s = s.copy()
            d2, _ = self.place(s, fr, dest)
            self.tstore(s, d2, v)
            res.append((target, s))
        return res

    def invoke(self, st, fv, c):
        """Call function value fv. -> list of (state, value)"""
        fv = st.simp(fv)
        if fv.op == "gamma":
            out = []
            for pol, w in ((True, fv.a[1]), (False, fv.a[2])):
                s = st.assume(fv.a[0], pol)
                if s: out += self.invoke(s, w, c)
            return out
        if fv.op != "fnv":
            return self.models.opaque(self, st, "fn-pointer", c)
        cal = self.p.types[fv.a[1]]["callee"]
        c.callee = cal; c.path = cal["path"]; c.res = cal.get("res") or cal["path"]
        if cal.get("ctor"): return [(st, self.ctor(cal, c.args, st))]
        self.emit("call", call=c, st=st)
        ov = self.overrides.get(c.path) or self.overrides.get(c.res)
        if ov:
            r = ov(self, st, c)
            if r is not None: return r
        r = self.models.dispatch(self, st, c)
        if r is not None: return r
        if "fn" in cal:
            fn = self.p.fns[cal["fn"]]
            args = c.args
            if cal.get("kind") in ("closure", "closure_once"): pass
            if len(args) != fn["argc"] and args and args[-1].op == "agg" and args[-1].a[0] == "()":
                args = args[:-1] + list(args[-1].a[2])
            r = self.call_fn(fn, args, st, c.site)
            if r is not None: return r
        return self.models.opaque(self, st, c.res, c)

    def ctor(self, cal, args, st):
        dt = self.p.types[cal["ctor_ty"]]
        vi = None
        if dt.get("enum"):
            vn = cal["path"].rsplit("::", 1)[-1]
            vi = [v["n"] for v in dt["variants"]].index(vn)
        return self.mkadt(dt, vi, args, st)

    def mkadt(self, tt, vi, vs, st):
        if tt["adt"] == "alloc::borrow::Cow" and vs:
            # a Cow is represented by the sequence it denotes
            if vi == 0: return self.models.content(self, st, vs[0])
            return vs[0]
        return agg(tt["adt"], vi if tt.get("enum") else None, vs)

    def call_value(self, st, f, args, site, c=None):
        """Call a closure / fn item / fn reference value with untupled args."""
        f = st.simp(f)
        if f.op == "ref":
            inner = self.load(st, f)
            if inner.op in ("clo", "fnv", "ref", "gamma"):
                if inner.op == "clo": return self.call_closure(st, inner, f, args, site, c)
                return self.call_value(st, inner, args, site, c)
        if f.op == "gamma":
            out = []
            for pol, w in ((True, f.a[1]), (False, f.a[2])):
                s = st.assume(f.a[0], pol)
                if s: out += self.call_value(s, w, args, site, c)
            return out
        if f.op == "clo": return self.call_closure(st, f, None, args, site, c)
        if f.op == "fnv":
            cc = Call(); cc.args = list(args); cc.tys = [None] * len(args); cc.site = ("fnv", site); cc.fr = self.stack[-1] if self.stack else None
            cc.line = self.line; cc.macro = None; cc.diverges = False
            cc.dty = None
            cal = self.p.types[f.a[1]]["callee"]
            if cal.get("ctor"): return [(st, self.ctor(cal, args, st))]
            return self.invoke(st, f, cc)
        # unknown callback
        self.emit("callback", f=f, args=args, st=st)
        if getattr(self, "callback_hook", None) is not None:
            r = self.callback_hook(self, st, f, args)
            if r is not None: return r
        cid = self.cp(self.stack[-1].cp if self.stack else 0, ("cb", site))
        s = st.copy()
        for i, a in enumerate(args):
            if a.op == "ref":
                cur = self.load(s, a)
                nv = mk("cb", f, i, ty=cur.ty)
                if is_seqlike(cur): nv = mk("fixlen", nv, length(cur), ty="seq")
                self.store(s, a, nv)
        return [(s, mk("cbret", f, cid))]

    def call_closure(self, st, clo, cref, args, site, c=None):
        key, ups = clo.a[0], clo.a[1]
        if key[1] is None: return self.models.opaque_value(self, st, "closure", list(args), site)
        fn = self.p.fns[key[1]]
        selfty = self.p.types[fn["locals"][1][0]] if fn["argc"] else None
        st = st.copy()
        if selfty and selfty["k"] == "ref":
            if cref is None:
                root = ("O", self.cp(self.stack[-1].cp if self.stack else 0, ("clo", site)))
                st.mem[root] = clo
                cref = ref(root)
            a0 = cref
        else: a0 = clo
        av = [a0] + list(args)
        if len(av) != fn["argc"]:
            raise Undecided("closure arity")
        r = self.call_fn(fn, av, st, ("clo", site))
        if r is None: return self.models.opaque_value(self, st, "closure", list(args), site)
        return r

    # ---- drops
    def drop(self, st, tgt, ty, site):
        tt = self.p.types[ty]
        if tt["k"] in ("int", "bool", "char", "float", "ref", "ptr", "str", "never", "fndef", "fnptr", "param", "dyn"):
            return [st]
        v = st.simp(self.tload(st, tgt))
        r = self.models.drop_model(self, st, tgt, v, tt, site)
        if r is not None: return r
        if tt["k"] == "adt":
            states = [st]
            if "drop_fn" in tt:
                fn = self.p.fns[tt["drop_fn"]]
                states = []
                r = self.call_fn(fn, [self.tref(tgt)], st, ("dropfn", site))
                if r is None: states = [st]
                else: states = [s for s, _ in r]
            if tt.get("ws") and "variants" in tt:
                if tt["enum"]:
                    if v.op == "agg" and v.a[1] is not None:
                        vi = v.a[1]
                        for i, (n, fty) in enumerate(tt["variants"][vi]["f"]):
                            t2 = self.textend(self.textend(tgt, ("v", vi, tt["variants"][vi]["n"])), ("f", i, n, self.p.tyinfo(fty), ty))
                            states = [s2 for s in states for s2 in self.drop(s, t2, fty, (site, i))]
                else:
                    for i, (n, fty) in enumerate(tt["variants"][0]["f"]):
                        if not self.needs_drop(fty): continue
                        t2 = self.textend(tgt, ("f", i, n, self.p.tyinfo(fty), ty))
                        states = [s2 for s in states for s2 in self.drop(s, t2, fty, (site, i))]
            elif tt.get("enum") and v.op == "agg" and v.a[1] is not None and "variants" in tt:
                vi = v.a[1]
                for i, (n, fty) in enumerate(tt["variants"][vi]["f"]):
                    if not self.needs_drop(fty): continue
                    t2 = self.textend(self.textend(tgt, ("v", vi, tt["variants"][vi]["n"])), ("f", i, n, self.p.tyinfo(fty), ty))
                    states = [s2 for s in states for s2 in self.drop(s, t2, fty, (site, i))]
            return states
        if tt["k"] == "tuple":
            states = [st]
            for i, e in enumerate(tt["elems"]):
                if not self.needs_drop(e): continue
                t2 = self.textend(tgt, ("f", i, str(i), self.p.tyinfo(e), ty))
                states = [s2 for s in states for s2 in self.drop(s, t2, e, (site, i))]
            return states
        return [st]

    def needs_drop(self, tid, seen=()):
        if tid in seen: return False
        tt = self.p.types[tid]
        if tt["k"] in ("int", "bool", "char", "float", "ref", "ptr", "str", "never", "fndef", "fnptr", "param", "dyn"): return False
        if tt["k"] == "adt":
            if tt["adt"] in self.models.DROP_RELEVANT or "drop_fn" in tt: return True
            if "variants" in tt: return any(self.needs_drop(f[1], seen + (tid,)) for v in tt["variants"] for f in v["f"])
            return any(self.needs_drop(a, seen + (tid,)) for a in tt["args"])
        if tt["k"] == "tuple": return any(self.needs_drop(e, seen + (tid,)) for e in tt["elems"])
        return False

class Call:
    pass

DEREF_TY = {}
DYN = {}
