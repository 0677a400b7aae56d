"""Random interpretation of value-graph terms (Gulwani & Necula): decides
whether two abstract terms denote the same function of their free symbols by
interpreting the terms - not the program - over random assignments."""
import re
import fractions, hashlib, math, os, random, struct, traceback
from terms import *
import interp as IP

# what std calls white space
WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"

PANICKED = ("agg", "panicked", None)
class Reject(Exception): pass
class Diverges(Reject): pass          # the code panics or does not terminate on these values
def fmt_text(kind, sp, x, ty):
    """what std's formatting writes, or None"""
    fl = sp.get("flags", 0x60000020)
    fill, zero, alt, plus = chr(fl & 0x1fffff), fl >> 24 & 1, fl >> 23 & 1, fl >> 21 & 1
    align = fl >> 29 & 3
    w = sp.get("width", 0) if "width" in sp else 0
    prec = sp.get("prec")
    num = False
    if isinstance(x, bool):
        if kind not in ("display", "debug"): return None
        s = "true" if x else "false"
    elif isinstance(x, int):
        if ty == "char":
            if kind != "display": return None
            s = chr(x)
        elif ty in ("core::time::Duration", "Duration", "std::time::Duration"):
            if kind != "debug": return None
            s = duration_debug(x, prec, plus)
        elif ty in ("int", "param", "usize", "u64", "u32", "u16", "u8", "i64", "i32", "u128", "i128", "isize") or ty.startswith(("NonZero", "std::num::NonZero", "core::num::nonzero")):
            num = True
            if kind in ("display", "debug"): d, pre = str(abs(x)), ""
            elif kind in ("lower_hex", "upper_hex") and x >= 0:
                d, pre = "%x" % x, "0x"
                if kind == "upper_hex": d = d.upper()
            else: return None
            sign = "-" if x < 0 else "+" if plus else ""
            pre = pre if alt else ""
            if zero: d = d.rjust(w - len(sign) - len(pre), "0")
            s = sign + pre + d
        else: return None
    elif isinstance(x, float):
        if kind != "display" and not (kind == "debug" and prec is not None) or x != x: return None
        num = True
        if x in (float("inf"), float("-inf")): s = "inf" if x > 0 else "-inf"
        else:
            import decimal
            with decimal.localcontext(prec=400, rounding=decimal.ROUND_HALF_EVEN):
                if prec is not None: s = format(decimal.Decimal(x).quantize(decimal.Decimal(1).scaleb(-prec)), "f")
                else:
                    s = format(decimal.Decimal(repr(x)), "f")
                    if s.endswith(".0"): s = s[:-2]
        if plus and not s.startswith("-"): s = "+" + s
        if zero:
            sg = s[:1] if s[:1] in "+-" else ""
            s = sg + s[len(sg):].rjust(w - len(sg), "0")
    elif isinstance(x, (bytes, tuple)) and x[:1] != ("agg",):
        try: s = bytes(x).decode()
        except (TypeError, ValueError): return None
        if kind == "debug":
            if prec is not None or ty.startswith(("[", "alloc::vec", "&[", "Vec")): return None
            esc = {"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}
            return ("\"" + "".join(esc.get(c) or (c if c.isprintable() else "\\u{%x}" % ord(c)) for c in s) + "\"").encode()
        if kind != "display": return None
        if prec is not None: s = s[:prec]
    else: return None
    gap = w - len(s)
    if gap > 0:
        if align == 3: align = 1 if num else 0
        l = 0 if align == 0 else gap if align == 1 else gap // 2
        s = fill * l + s + fill * (gap - l)
    return s.encode()

def duration_debug(n, prec, plus=False):
    """Duration's Debug text (core::time)"""
    secs, nanos = divmod(n, 10 ** 9)
    if secs > 0: ip, fp, div, suf = secs, nanos, 10 ** 8, "s"
    elif nanos >= 10 ** 6: ip, fp, div, suf = nanos // 10 ** 6, nanos % 10 ** 6, 10 ** 5, "ms"
    elif nanos >= 1000: ip, fp, div, suf = nanos // 1000, nanos % 1000, 100, "µs"
    else: ip, fp, div, suf = nanos, 0, 1, "ns"
    buf = ["0"] * 9; pos = 0
    end = min(prec if prec is not None else 9, 9)
    while fp > 0 and pos < end:
        buf[pos] = str(fp // div); fp %= div; div //= 10; pos += 1
    if fp > 0 and fp >= div * 5:
        last_odd = (int(buf[pos - 1]) % 2 == 1) if pos > 0 else ip % 2 == 1
        if not (fp == div * 5 and not last_odd):
            i = pos; carry = True
            while carry and i > 0:
                i -= 1
                if buf[i] < "9": buf[i] = str(int(buf[i]) + 1); carry = False
                else: buf[i] = "0"
            if carry: ip += 1
    end = min(prec, 9) if prec is not None else pos
    s = ("+" if plus else "") + str(ip)
    if end > 0: s += "." + "".join(buf[:end]).ljust(prec or 0, "0")
    return s + suf

class NoProgress(Diverges): pass      # a loop that repeats its state for ever
class Limit(Reject): pass     # the evaluator gave up: says nothing about the code
class Unknown(Exception): pass

UNKNOWN_OPS = {"phi", "mu", "undef", "bottom", "eff", "more", "item", "adv", "other", "uninit", "padded", "raw", "overwrite",
               "deltas", "bin", "un", "cast", "elt", "cbret", "cb", "rawcut", "transmute", "frombytes", "qix", "upd", "call", "const", "conv",
               }
# operations whose value is a free input of the analysis (and conv, the value a generic argument converts to)
LEAF_OPS = {"sym", "capacity", "accepted", "bindvar", "iofail", "acq", "reading", "streams", "now", "cpuid", "conv", "param", "contended"}
# calls that are fully understood as uninterpreted pure functions
PURE_CALLS = ()

def unknown_in(t, allow=()):
    return sorted({x.op for x in subterms(t) if x.op in UNKNOWN_OPS and x.op not in allow})

def gamma_arms(v):
    return gamma_arms(v.a[1]) + gamma_arms(v.a[2]) if v.op == "gamma" else [v]
_MU = {}; _DEPS = {}
def has_mu(t):
    r = _MU.get(t)
    if r is None: r = _MU[t] = any(x.op == "mu" for x in subterms(t))
    return r

class Leaf:
    """Value of an opaque term: compared by identity of its key."""
    __slots__ = ("key", "ty")
    def __init__(self, key, ty=None): self.key = key; self.ty = ty
    def __eq__(self, o): return isinstance(o, Leaf) and self.key == o.key
    def __hash__(self): return hash(("leaf", self.key))
    def __repr__(self): return "<%s>" % (self.key,)

class Bad:
    def __init__(self, why, cls): self.why = why; self.cls = cls
    def exc(self): return self.cls(self.why)

class MapV:
    def __init__(self, base, over, bt=False): self.base = base; self.over = over; self.bt = bt
    def norm(self): return (self.base, frozenset((kk, vv) for kk, vv in self.over.items()))
    def __eq__(self, o): return isinstance(o, MapV) and self.norm() == o.norm()
    def __hash__(self): return hash(self.norm())
    def __repr__(self): return "map(%r,%r)" % (self.base, self.over)

def as_list(s):
    if isinstance(s, bytes): return tuple(s)
    if isinstance(s, tuple) and not (s and s[0] == "agg"): return s
    raise Reject()

def same(a, b):
    if isinstance(a, bytes) and isinstance(b, tuple) or isinstance(b, bytes) and isinstance(a, tuple):
        return tuple(a) == tuple(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    return type(a) == type(b) and a == b

BINDABLE = frozenset(("bindvar", "accvar", "mu", "elt", "deref"))
def loc_at(I, st, root, path):
    v = I.base(st, root)
    if not any(i in ("lo", "hi") for i in path):
        for i in path:
            if isinstance(i, tuple): v = index(v, k(i[1]))
            else: v = fld(v, i, None)
        return v
    return I.at(st, root, path)

class Env:
    def __init__(self, seed, consts=(), fixed=None, nvar=None, big=False, mapdefault=None, interp=None, allow=(), partial=False):
        self.partial = partial
        self.seed = seed
        self.I = interp
        self.unk = set()
        self.allow = allow
        self.loopmemo = {}
        self.steps = 0
        self.rnd = random.Random(repr(seed))
        self.consts = list(consts)
        self.memo = {}
        self.bind = {}; self.vc = 0; self.reads = {}
        self.fixed = fixed or {}
        self.nvar = nvar or {}
        self.big = big
        self.vals = {}
        self.lastkey = None
        self.needed = None
    # ---- pseudo-random functions
    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed, key)).encode(), digest_size=16).digest()
        return random.Random(int.from_bytes(d, "little"))
    def rand_int(self, r, ty):
        lo, hi = int_range(ty) if ty else (0, (1 << 64) - 1)
        m = r.randrange(8)
        if m < 3 and self.consts:
            v = r.choice(self.consts) + r.choice((-1, 0, 0, 1))
        elif m < 5: v = r.randrange(0, 6)
        elif m == 5: v = r.randrange(0, 1000)
        elif m == 6: v = r.randint(lo, hi)
        else: v = r.randint(lo, hi) >> r.randrange(0, 64)
        return min(max(v, lo), hi)
    def gen(self, key, ty, term=None):
        """pseudo-random value of a type, a function of key"""
        self.lastkey = key
        if key in self.vals: return self.vals[key]
        r = self.h(key)
        if ty == "bool": v = r.random() < 0.5
        elif ty and ty[0] == "int": v = self.rand_int(r, ty)
        elif ty == "float": v = r.choice((0.0, 1.0, 0.5, 0.01, r.uniform(-100, 100), r.uniform(0, 1e6)))
        elif ty == "seq":
            m = r.randrange(10)
            n = r.randrange(0, 5) if m < 5 else r.randrange(0, 40)
            if m >= 8:
                cs = [c for c in self.consts if 0 <= c <= 700000]
                if cs: n = max(0, r.choice(cs) + r.choice((-1, 0, 1, 7)))
            v = r.randbytes(n)
        elif ty and ty[0] == "adt" and UNIT_ENUMS.get(ty[1]): v = ("agg", ty[1], r.randrange(UNIT_ENUMS[ty[1]]))
        else: v = Leaf(key, ty)
        self.vals[key] = v
        return v

    # ---- steering: choose leaf values that put a comparison on its boundary
    def steer(self, t, target, depth=0):
        """Change one leaf so that the integer term t evaluates to target.
        Only used to pick interesting assignments; failing is harmless."""
        if depth > 12 or self.bind: return False
        op = t.op
        try:
            if op == "lin":
                c, m = lin_parts(t)
                ts = list(m.items()); self.rnd.shuffle(ts)
                cur = self.int(t)
                for x, n in ts:
                    d = target - cur
                    if d % n: continue
                    if self.steer(x, self.int(x) + d // n, depth + 1): return True
                return False
            if op == "trunc":
                cur = self.int(t.a[1]); m = (1 << t.a[0]) - 1
                if not 0 <= target <= m: return False
                return self.steer(t.a[1], (cur & ~m) | target, depth + 1)
            if op == "shr" and is_k(t.a[2]):
                n = kval(t.a[2]); cur = self.int(t.a[1])
                return self.steer(t.a[1], (target << n) | (cur & ((1 << n) - 1)), depth + 1)
            if op == "shl" and is_k(t.a[2]):
                n = kval(t.a[2])
                if target & ((1 << n) - 1): return False
                return self.steer(t.a[1], target >> n, depth + 1)
            if op == "and" and len(t.a) == 2 and any(map(is_k, t.a)):
                x, m = t.a if is_k(t.a[1]) else (t.a[1], t.a[0])
                m = kval(m); cur = self.int(x)
                if target & ~m: return False
                return self.steer(x, (cur & ~m) | target, depth + 1)
            if op == "or":
                xs = list(t.a); self.rnd.shuffle(xs)
                for x in xs:
                    rest = 0
                    for y in xs:
                        if y is not x: rest |= self.int(y)
                    if rest & ~target: continue
                    if self.steer(x, target & ~rest, depth + 1): return True
                return False
            if op == "gamma": return self.steer(t.a[1] if self.cond(t.a[0]) else t.a[2], target, depth + 1)
            if op == "fromle" or op == "idx" and t.a[0].ty == "seq":
                n = t.a[0] if op == "fromle" else 1
                if not 0 <= target < 1 << (8 * n): return False
                x, i = (t.a[1], 0) if op == "fromle" else (t.a[0], self.int(t.a[1]))
                return self.splice(x, i, target.to_bytes(n, "little")) and self.int(t) == target
            if op == "len":
                if not 0 <= target <= 700000: return False
                x = t.a[0]
                if x.op != "sym": return False
                key = self.leafkey(x)
                v = self.vals.get(key)
                if not isinstance(v, bytes): return False
                v = v[:target] + self.rnd.randbytes(max(0, target - len(v)))
            elif op in ("k", "b", "sum", "fold", "mul", "div", "rem", "min", "max", "xor", "sext", "fromle", "b2i"): return False
            else:
                r = int_range(t.ty) if t.ty and t.ty[0] == "int" else None
                if not r or not r[0] <= target <= r[1]: return False
                key = self.leafkey(t)
                if key is None or type(self.vals.get(key)) is not int: return False
                v = target
            old = self.vals[key]
            self.vals[key] = v; self.memo.clear(); self.loopmemo.clear()
            if self.int(t) == target: return True
            self.vals[key] = old; self.memo.clear(); self.loopmemo.clear()
            return False
        except (Reject, Limit, RecursionError, OverflowError): return False
    def splice(self, x, i, data):
        """put data at offset i of the byte sequence x, if x is (part of) a leaf"""
        while x.op == "slice":
            i += self.int(x.a[1]); x = x.a[0]
        key = self.leafkey(x)
        v = self.vals.get(key)
        if not isinstance(v, bytes): return False
        if len(v) < i + len(data): v = v + self.rnd.randbytes(i + len(data) - len(v))
        self.vals[key] = v[:i] + data + v[i + len(data):]
        self.memo.clear(); self.loopmemo.clear()
        return True
    def leafkey(self, x):
        """the key of the generated value that is the value of x, if any"""
        if x in self.fixed: return None
        self.lastkey = None
        v = self.ev1(x); key = self.lastkey
        return key if key is not None and self.vals.get(key) is v else None
    def steer_atom(self, c):
        if c.op == "eq0": return self.steer(c.a[0], self.rnd.choice((0, 0, 0, 1, -1)))
        if c.op == "lt0": return self.steer(c.a[0], self.rnd.choice((0, -1, -1, 1)))
        if c.op == "eq":
            try: self.satisfy(c, True)
            except (Reject, Limit, RecursionError, OverflowError): pass
        return False

    def satisfy(self, c, v, depth=0):
        """try to make condition c evaluate to v"""
        if depth > 8: return
        if c.op == "not": return self.satisfy(c.a[0], not v, depth + 1)
        if self.cond(c) is v: return
        if c.op == "band":
            if v:
                for x in c.a: self.satisfy(x, True, depth + 1)
            else: self.satisfy(self.rnd.choice(c.a), False, depth + 1)
        elif c.op == "gamma": self.satisfy(c.a[1] if self.cond(c.a[0]) else c.a[2], v, depth + 1)
        elif c.op == "eq0": self.steer(c.a[0], 0 if v else self.rnd.choice((1, -1, 5, 1000)))
        elif c.op == "eq" and v:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                try: w = self.ev(y)
                except (Reject, Limit): continue
                if isinstance(w, bytes) and x.op in ("slice", "sym") and self.splice(x, 0, w): return
        elif c.op == "lt0":
            n = self.rnd.choice((0, 0, 1, 7, 100, 5000, 70000))
            self.steer(c.a[0], -1 - n if v else n)

    def lookup(self, t):
        if t in self.fixed: return self.fixed[t]
        return self.gen(("t", t.id), t.ty, t)

    def ev(self, t):
        """value of t, remembered for the bindings its evaluation looked at"""
        es = self.memo.get(t)
        if es is not None:
            bind = self.bind
            for rs, v in es:
                for x, n in rs:
                    b = bind.get(x)
                    if (b[1] if b is not None else None) != n: break
                else:
                    if rs: self.reads.update(rs)
                    return v
        v, rs = self.tracked(self.ev1, t)
        if es is None or len(es) > 6: es = self.memo[t] = []
        es.insert(0, (rs, v))
        return v
    def tracked(self, f, *a):
        """-> result, what it depends on: ((variable, version of its binding or None), ..)"""
        old = self.reads; self.reads = r = {}; vc0 = self.vc
        try: v = f(*a)
        finally:
            rs = tuple((x, n) for x, n in r.items() if n is None or n <= vc0)
            self.reads = old
            if rs: old.update(rs)
        return v, rs
    def deps(self, t):
        """the bound variables the value of t may depend on, in a fixed order"""
        D = self.I.__dict__.setdefault("_deps", {}) if self.I is not None else _DEPS
        r = D.get(t)
        if r is None:
            out = set(); todo = [t]; seen = set()
            while todo:
                for x in subterms(todo.pop()):
                    if x.op in ("bindvar", "accvar"): out.add(x)
                    elif x.op == "mu":
                        out.add(x)
                        if self.I is not None and x.a[0] not in seen:
                            seen.add(x.a[0])
                            li = self.I.loops.get(x.a[0])
                            if li is not None: todo += self.loopterms(li)
                    elif x.op in ("rawelems", "sorted", "filtered", "deduped"): out.update(y for y in children(x) if y.op in ("bindvar", "elt"))
                    elif x.op == "elt": out.add(x)
            r = D[t] = tuple(sorted(out, key=lambda x: x.id))
        return r
    def loopterms(self, li):
        ts = []
        for st in [li.init, li.head] + list(li.backs or []) + list(li.out or []):
            ts += [x for x in st.facts.d]
            for root, path in li.sticky:
                v = self.I.base(st, root)
                ts.append(v)
                for y in gamma_arms(v):
                    if y.op == "ref":
                        try: ts.append(self.I.load(st, y))
                        except Exception: pass
        return ts
    def heads(self, li):
        """{head value: location} of what the loop carries"""
        r = li.__dict__.get("_heads")
        if r is None:
            r = {}
            for root, path in li.sticky:
                h = loc_at(self.I, li.head, root, path)
                if h.op == "mu": r[h] = (root, path)
            li._heads = r
        return r
    def closure(self, terms):
        """the loop-carried values the terms' values depend on"""
        need = set(); seen = set(); loops = set(); todo = list(terms)
        def value(st, v, d=0):
            todo.append(v)
            if d > 4: return
            for y in subterms(v):
                if y.op == "ref" and (id(st), y) not in seen:
                    seen.add((id(st), y))
                    try: w = self.I.load(st, y)
                    except Exception: continue
                    value(st, w, d + 1)
        while todo:
            t = todo.pop()
            if t in seen: continue
            seen.add(t)
            for x in subterms(t):
                if x.op != "mu" or x in need: continue
                need.add(x)
                li = self.I.loops.get(x.a[0])
                if li is None: continue
                if x.a[0] not in loops:
                    loops.add(x.a[0])
                    hf = li.head.facts.d
                    for st in list(li.backs or []) + list(li.out or []): todo += [c for c, v in st.facts.d.items() if hf.get(c) is not v]
                loc = self.heads(li).get(x)
                if loc is None: continue
                for st in [li.init] + list(li.backs or []):
                    try: value(st, loc_at(self.I, st, *loc))
                    except Exception: pass
        return need
    def push(self, d):
        """bind variables; returns what restores the present bindings"""
        old = self.bind
        self.vc += 1
        n = dict(old)
        for b, v in d.items(): n[b] = (v, self.vc)
        self.bind = n
        return old

    def int(self, t):
        v = self.ev(t)
        if isinstance(v, bool): return int(v)
        if not isinstance(v, int): raise Reject("int expected from %s" % t.op)
        return v
    def seq(self, t):
        v = self.ev(t)
        if isinstance(v, Leaf):
            if self.strip(v.key)[:1] == ("ref",): self.unk.add("deref")
            return self.gen(("seq", v.key), "seq")
        if isinstance(v, (bytes, tuple)): return v
        raise Reject("seq")
    def cond(self, t):
        v = self.ev(t)
        if isinstance(v, bool): return v
        if isinstance(v, Leaf): return self.gen(("bool", v.key), "bool")
        raise Reject("bool")

    def ev1(self, t):
        if t in self.fixed: return self.fixed[t]
        o = t.op; a = t.a
        if o in BINDABLE:
            b = self.bind.get(t)
            self.reads[t] = b[1] if b is not None else None
            if b is not None:
                v = b[0]
                if isinstance(v, Bad): raise v.exc()
                return v
        if o in UNKNOWN_OPS and o != "mu" and o not in self.allow: self.unk.add(o)
        f = getattr(self, "e_" + o.replace("-", "_"), None)
        if f is not None: return f(t, *a)
        # opaque leaf or uninterpreted function of its children
        if o not in LEAF_OPS and not o.startswith("spec") and o not in self.allow and ("fn", o) not in self.fixed: self.unk.add(o)
        ch = children(t)
        if not ch and ("fn", o) in self.fixed: return self.fixed["fn", o]()
        if not ch: return self.gen((o,) + tuple(str(x) for x in a), t.ty, t)
        vals = tuple(self.ev(c) for c in ch)
        g = self.fixed.get(("fn", o))
        if g is not None:
            key = ("fn", o, tuple(x for x in a if not isinstance(x, (T, tuple))), self.keyof(vals))
            if key not in self.vals: self.vals[key] = g(*vals)
            return self.vals[key]
        shape = tuple(x if not isinstance(x, (T, tuple)) else "_" for x in a)
        return self.gen((o, shape, self.keyof(vals)), t.ty, t)

    def keyof(self, v):
        if isinstance(v, Bad): return ("bad",)
        if isinstance(v, Leaf): return ("L", v.key)
        if isinstance(v, bytes): return tuple(v) if len(v) < 64 else hashlib.blake2b(v).hexdigest()
        if isinstance(v, tuple): return tuple(self.keyof(x) for x in v) if len(v) < 5000 else hash(v)
        if isinstance(v, MapV): return ("M", self.keyof(v.base) if v.base is not None else None, tuple(sorted((self.keyof(x), self.keyof(y)) for x, y in v.over.items())) if v.over else ())
        return v

    # ---- basic
    def e_k(self, t, n, *_): return n
    def e_b(self, t, n): return t is TRUE
    def e_bytes(self, t, b): return b
    def e_lin(self, t, c, m):
        s = c
        for x, n in m: s += n * self.int(x)
        return s
    def e_mul(self, t, x, y): return self.int(x) * self.int(y)
    def e_div(self, t, x, y):
        p, q = self.int(x), self.int(y)
        if q == 0: raise Reject("div")
        r = abs(p) // abs(q)
        return r if (p < 0) == (q < 0) else -r
    def e_rem(self, t, x, y):
        p, q = self.int(x), self.int(y)
        if q == 0: raise Reject("rem")
        r = abs(p) % abs(q)
        return -r if p < 0 else r
    def e_trunc(self, t, bits, x): return self.int(x) & ((1 << bits) - 1)
    def e_sext(self, t, bits, x):
        v = self.int(x) & ((1 << bits) - 1)
        return v - (1 << bits) if v >> (bits - 1) else v
    def e_wrap(self, t, bits, x):
        return self.e_sext(t, bits, x) if t.ty and t.ty[1] else self.e_trunc(t, bits, x)
    def e_and(self, t, *xs):
        v = -1
        for x in xs: v &= self.int(x)
        return v
    def e_or(self, t, *xs):
        v = 0
        for x in xs: v |= self.int(x)
        return v
    def e_xor(self, t, x, y): return self.int(x) ^ self.int(y)
    def e_shl(self, t, bits, x, n): return (self.int(x) << self.int(n)) & ((1 << bits) - 1)
    def e_shr(self, t, bits, x, n): return self.int(x) >> self.int(n)
    def e_not(self, t, x): return not self.cond(x)
    def e_band(self, t, x, y):
        try: v = self.cond(x)
        except Reject:
            # conjuncts have no order: one may only have a value where the other holds
            if not self.cond(y): return False
            raise
        return v and self.cond(y)
    def e_lt0(self, t, x): return self.int(x) < 0
    def e_eq0(self, t, x): return self.int(x) == 0
    def e_eq(self, t, x, y):
        r = self.eqv(self.ev(x), self.ev(y))
        if r is None: raise Limit("comparison of unlike values")
        return r
    def strip(self, key):
        while isinstance(key, tuple) and key and key[0] == "as": key = key[1]
        return key
    def eqv(self, a, b):
        """True, False, or None when the two values cannot be compared"""
        if isinstance(a, Leaf) and isinstance(b, Leaf): return self.strip(a.key) == self.strip(b.key)
        if isinstance(b, Leaf): a, b = b, a
        if isinstance(a, Leaf):
            if isinstance(b, tuple) and b and b[0] == "agg":
                if b[2] is not None and self.variant(a, self.nvariants(b[1])) != b[2]: return False
                names = FIELD_NAMES.get((b[1], b[2])) or FIELD_NAMES.get((b[1], None)) or [str(i) for i in range(len(b) - 3)]
                r = True
                for i, x in enumerate(b[3:]):
                    if i >= len(names): return None
                    got = None
                    for base in (a.key, ("as", self.strip(a.key), b[2])):
                        for nm in (str(names[i]), str(i)):
                            got = self.vals.get(("f", ("L", base), nm))
                            if got is not None: break
                        if got is not None: break
                    if got is None: r = None; continue
                    e = self.eqv(got, x)
                    if e is False: return False
                    if e is None: r = None
                return r
            if isinstance(b, (bytes, tuple)): return self.eqv(self.gen(("seq", a.key), "seq"), b)
            return None
        if isinstance(a, bytes) and isinstance(b, tuple): a = tuple(a)
        if isinstance(b, bytes) and isinstance(a, tuple): b = tuple(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            r = True
            for x, y in zip(a, b):
                e = self.eqv(x, y)
                if e is False: return False
                if e is None: r = None
            return r
        return same(a, b)
    def nvariants(self, name):
        return IP.ENUM_SIZES.get(name)
    def e_panicked(self, t, *_): return ("agg", "panicked", None)
    def e_lt(self, t, x, y):
        p, q = self.ev(x), self.ev(y)
        if isinstance(p, (int, float)) and isinstance(q, (int, float)): return p < q
        if isinstance(p, (bytes, tuple)) and isinstance(q, (bytes, tuple)):
            try: return tuple(p) < tuple(q)
            except TypeError: pass
        kp, kq = repr(self.keyof(p)), repr(self.keyof(q))
        return self.h("lt", kp).random() < self.h("lt", kq).random()
    def e_fle(self, t, x, y):
        p, q = self.ev(x), self.ev(y)
        if isinstance(p, (int, float)) and isinstance(q, (int, float)): return p <= q
        raise Reject("fle")
    def e_gamma(self, t, c, x, y): return self.ev(x) if self.cond(c) else self.ev(y)
    def e_min(self, t, *xs): return min(self.ev(x) for x in xs)
    def e_max(self, t, *xs): return max(self.ev(x) for x in xs)
    def e_agg(self, t, n, v, fs): return ("agg", n, v) + tuple(self.ev(x) for x in fs)
    def e_discr(self, t, x, ds):
        v = self.ev(x)
        i = self.variant(v, len(ds) if ds else 4)
        return ds[i] if ds and i < len(ds) else i
    def variant(self, v, n=None):
        if isinstance(v, tuple) and v and v[0] == "agg": return v[2]
        if isinstance(v, Leaf):
            kk = ("variant", self.strip(v.key))
            if kk not in self.vals:
                n = (IP.ENUM_SIZES.get(v.ty[1]) if v.ty and v.ty[0] == "adt" else None) or n or self.nvar.get(v.key) or 2
                self.vals[kk] = self.h(kk).randrange(n)
            return self.vals[kk]
        if isinstance(v, (bytes,)): return self.h("variant", v).randrange(n or 2)
        raise Reject("variant of %r" % (v,))
    def e_is(self, t, x, v):
        val = self.ev(x)
        n = IP.NVAR.get(x)
        return self.variant(val, n) == v
    def e_as(self, t, x, v, name):
        val = self.ev(x)
        if isinstance(val, tuple) and val and val[0] == "agg":
            if val[2] != v: raise Reject("variant")
            return val
        if self.variant(val, IP.NVAR.get(x)) != v: raise Reject("variant")
        if isinstance(val, Leaf): return Leaf(("as", val.key, v), t.ty)
        return val
    def e_f(self, t, x, name):
        val = self.ev(x)
        if isinstance(val, tuple) and val and val[0] == "agg":
            i = field_index(mk("agg", val[1], val[2], tuple(UNIT for _ in val[3:])), name)
            if i is None and isinstance(name, str) and name.isdigit(): i = int(name)
            if i is not None and 3 + i < len(val): return val[3 + i]
            raise Reject("field")
        return self.gen(("f", self.keyof(val), str(name)), t.ty, t)
    def e_deref(self, t, x):
        if x.op == "mu" and x not in self.bind and self.I is not None and x.a[0] in self.I.loops:
            self.reads[x] = None
            vals = self.run_loop(self.I.loops[x.a[0]])
            if t in vals:
                if isinstance(vals[t], Bad): raise vals[t].exc()
                return vals[t]
        v = self.ev(x)
        if isinstance(v, tuple) and v[:2] == ("agg", "&"): return v[3]     # a reference given explicitly
        if isinstance(v, Leaf) and v.key[0] == "ref": self.unk.add("deref")
        return self.gen(("deref", self.keyof(v)), t.ty, t)
    def e_ref(self, t, root, proj):
        if isinstance(root, tuple) and root[0] == "C":           # to a value without a place
            try:
                v = self.ev(root[1])
                for p in proj:
                    if p[0] != "sl" or not isinstance(v, (bytes, tuple)): raise Reject("projection")
                    lo, hi = self.int(p[1]), self.int(p[2])
                    if not 0 <= lo <= hi <= len(v): raise Reject("slice")
                    v = v[lo:hi]
                return ("agg", "&", None, v)
            except Reject: pass
        return Leaf(("ref", t.id))
    def e_fk(self, t, bits, sz): return fval(t)
    def e_fadd(self, t, x, y): return self.fl(x) + self.fl(y)
    def e_fsub(self, t, x, y): return self.fl(x) - self.fl(y)
    def e_fmul(self, t, x, y): return self.fl(x) * self.fl(y)
    def e_fdiv(self, t, x, y):
        p, q = self.fl(x), self.fl(y)
        if q == 0: return float("nan") if p == 0 or p != p else math.copysign(float("inf"), p)
        return p / q
    def e_fm(self, t, n, *xs):
        x = self.fl(xs[0]); ys = [self.fl(y) if n != "powi" else self.int(y) for y in xs[1:]]
        nan = x != x; inf = x in (float("inf"), float("-inf"))
        if n == "is_nan": return nan
        if n == "is_finite": return not nan and not inf
        if n == "is_infinite": return inf
        if n.startswith("is_sign"): return (math.copysign(1, x) < 0) == (n == "is_sign_negative")
        if n in ("min", "max"):
            y = ys[0]
            if nan: return y
            if y != y: return x
            return min(x, y) if n == "min" else max(x, y)
        if n == "clamp": return x if nan else min(max(x, ys[0]), ys[1])
        if n == "abs": return abs(x)
        if n == "signum": return x if nan else math.copysign(1.0, x)
        if n == "sqrt": return math.sqrt(x) if x >= 0 else float("nan")
        if n == "powi":
            try: return float(x ** ys[0])
            except (ZeroDivisionError, OverflowError): raise Reject("powi")
        if n == "mul_add": return x * ys[0] + ys[1] if x * ys[0] == fractions.Fraction(x) * fractions.Fraction(ys[0]) else self.no("mul_add")
        if nan or inf: return x if n != "fract" else float("nan")
        tr = float(math.trunc(x))
        if n == "trunc": return math.copysign(tr, x)
        if n == "fract": return x - tr
        if n == "floor": return math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))
        if n == "ceil": return math.copysign(float(math.ceil(x)), x) if math.ceil(x) == 0 else float(math.ceil(x))
        if n == "round_ties_even": return math.copysign(float(round(x)), x)
        if n == "round":
            d = abs(x - tr)
            return math.copysign(abs(tr) + (1.0 if d >= .5 else 0.0), x)
        return self.no(n)
    def no(self, what): raise Reject(what)
    def e_fneg(self, t, x): return -self.fl(x)
    def e_f2f(self, t, x, bits=64): return f32(self.fl(x)) if bits == 32 else self.fl(x)
    def e_i2f(self, t, x, bits=64): return f32(float(self.int(x))) if bits == 32 else float(self.int(x))
    def e_f2i(self, t, x):
        v = self.fl(x)
        if v != v: return 0
        lo, hi = int_range(t.ty) if t.ty and t.ty[0] == "int" else (0, 2**64 - 1)
        return int(min(max(v, lo), hi))
    def e_secsf64(self, t, x): return (lambda n: float(n // 10**9) + (n % 10**9) / 1e9)(self.int(x))
    def e_f64secs(self, t, x):
        v = self.fl(x)
        if not 0 <= v < 2.0 ** 64: raise Reject("a Duration from a negative or too large number")
        return round(fractions.Fraction(v) * 10**9)      # to the nearest nanosecond, ties to even
    def fl(self, t):
        v = self.ev(t)
        if isinstance(v, (int, float)): return float(v)
        raise Reject("float")
    # ---- sequences
    def catv(self, vs):
        vs = [v for v in vs if len(v)]
        if all(isinstance(v, bytes) for v in vs): return b"".join(vs)
        out = ()
        for v in vs: out += tuple(v)
        return out
    def e_cat(self, t, *xs): return self.catv([self.seq(x) for x in xs])
    def e_unit(self, t, x, kd):
        v = self.ev(x)
        if kd == "b":
            if isinstance(v, int): return bytes([v & 255])
            return (v,)
        return (v,)
    def e_rep(self, t, x, n, kd):
        c = self.int(n)
        if c < 0 or c > 700000: raise Reject("rep")
        v = self.ev(x)
        return bytes([v & 255]) * c if kd == "b" and isinstance(v, int) else (v,) * c
    def e_le(self, t, n, x): return (self.int(x) & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    def e_be(self, t, n, x): return (self.int(x) & ((1 << 8 * n) - 1)).to_bytes(n, "big")
    def e_swap(self, t, n, x):
        v = (self.int(x) & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        return int.from_bytes(v, "big", signed=bool(t.ty and t.ty[1]))
    def e_fromle(self, t, n, s):
        v = self.seq(s)
        if len(v) != n: raise Reject("fromle")
        return int.from_bytes(bytes(v), "little", signed=bool(t.ty and t.ty[1]))
    def e_len(self, t, s): return len(self.seq(s))
    def e_slice(self, t, s, x, y):
        v = self.seq(s); p, q = self.int(x), self.int(y)
        if not (0 <= p <= q <= len(v)): raise Reject("slice")
        return v[p:q]
    def e_idx(self, t, s, i):
        v = self.seq(s); p = self.int(i)
        if not 0 <= p < len(v): raise Reject("index")
        x = v[p]
        if isinstance(v, bytes) and t.ty is not None and t.ty != ("int", False, 8):
            return self.gen(("el", self.keyof(v), p, s.id), t.ty)
        if isinstance(v, bytes) and t.ty is None:
            return Leaf(("el", self.keyof(v), p))
        return x
    # ---- bound variables
    def rng_vals(self, a, b):
        x, y = self.int(a), self.int(b)
        if y - x > 1500: raise Reject("range")
        return range(x, y)
    def under(self, bv, i, body):
        old = self.push({bv: i})
        try: return self.ev(body)
        finally: self.bind = old
    def e_sum(self, t, body, a, b, bv):
        return sum(self.under(bv, i, body) for i in self.rng_vals(a, b))
    def e_bigmin(self, t, body, a, b, bv):
        vs = [self.under(bv, i, body) for i in self.rng_vals(a, b)]
        return min(vs) if vs else 1 << 200
    def e_bigmax(self, t, body, a, b, bv):
        vs = [self.under(bv, i, body) for i in self.rng_vals(a, b)]
        return max(vs) if vs else -(1 << 200)
    def e_exists_i(self, t, body, a, b, bv):
        return any(self.under(bv, i, body) for i in self.rng_vals(a, b))
    def e_map(self, t, r, e, kd):
        a, b, stp, bv = r.a
        ix = list(self.rng_vals(a, b))
        if stp.a[0] == -1: ix.reverse()
        vs = [self.under(bv, i, e) for i in ix]
        return bytes(v & 255 for v in vs) if kd == "b" else tuple(vs)
    def e_catmap(self, t, r, e):
        a, b, stp, bv = r.a
        ix = list(self.rng_vals(a, b))
        if stp.a[0] == -1: ix.reverse()
        return self.catv([self.under(bv, i, e) for i in ix])
    def e_flatmap(self, t, r, e, *_): return self.e_catmap(t, r, e)
    def text_of(self, i):
        """decoded text of the string with id i: any text, the same each time"""
        key = ("text", i)
        f = self.fixed.get("text")
        if f is not None and key not in self.vals:
            v = f(self, i)
            if v is not None: self.vals[key] = v
        if key not in self.vals:
            r = self.h(key)
            self.vals[key] = prose(r, r.randrange(6), "abcdeé\x1e\n <>")
        return self.vals[key]
    def e_text(self, t, x):
        v = self.ev(x)
        while isinstance(v, tuple) and v[:1] == ("agg",):
            if isinstance(v[3], int): return self.text_of(v[3])
            v = v[3]
        return self.gen(("text", self.keyof(v)), "seq", t)
    def e_validutf8(self, t, x):
        v = self.seq(x)
        try: bytes(v).decode(); return True
        except (UnicodeDecodeError, TypeError, ValueError): return False
    def e_allutf8(self, t, x):
        for v in self.seq(x):
            if not isinstance(v, (bytes, tuple)): return True
            try: bytes(v).decode()
            except UnicodeDecodeError: return False
        return True
    def e_lossy(self, t, x): return bytes(self.seq(x)).decode(errors="replace").encode()
    def e_chars(self, t, x):
        try: return tuple(map(ord, bytes(self.seq(x)).decode()))
        except UnicodeDecodeError: raise Reject("not text")
    def e_utf8(self, t, x):
        v = self.ev(x)
        if isinstance(v, (bytes, tuple)): return v
        try: return chr(v).encode()
        except (ValueError, TypeError): raise Reject("not a character")
    def e_asciiws(self, t, x): return self.int(x) in (9, 10, 12, 13, 32)
    def e_is_ascii(self, t, x): return self.int(x) < 128
    def e_is_ascii_control(self, t, x): v = self.int(x); return v < 32 or v == 127
    def e_is_ascii_digit(self, t, x): return 48 <= self.int(x) <= 57
    def e_is_ascii_graphic(self, t, x): return 33 <= self.int(x) <= 126
    def e_is_ascii_alphabetic(self, t, x): v = self.int(x) | 32; return 97 <= v <= 122
    def e_is_ascii_alphanumeric(self, t, x): return self.e_is_ascii_digit(t, x) or self.e_is_ascii_alphabetic(t, x)
    def e_sized(self, t, x, n):
        v = self.seq(x)
        if self.int(n) != len(v): raise Reject("raw view of another size")
        return v
    def e_rawelems(self, t, s, e, lb=None):
        if lb is None: self.unk.add("rawelems"); return self.gen(("rawelems", t.id), "seq", t)
        vs = self.seq(s)
        save = self.bind
        out = []
        try:
            for v in vs:
                self.bind = save; self.push({e: v})
                out.append(self.seq(lb))
        finally: self.bind = save
        return self.catv(out)
    def e_fold(self, t, i0, body, a, b, stp, bv, acc):
        v = self.ev(i0)
        ix = list(self.rng_vals(a, b))
        if stp.a[0] == -1: ix.reverse()
        for i in ix:
            old = self.push({acc: v})
            try: v = self.under(bv, i, body)
            finally: self.bind = old
        return v
    # ---- maps
    def mapv(self, t):
        v = self.ev(t)
        return v if isinstance(v, MapV) else MapV(v, {})
    def e_mapE(self, t, *kind): return MapV(None, {}, bool(kind))
    def hk(self, v):
        return v
    def e_mapins(self, t, m, key, v, *_):
        q = self.mapv(m)
        d = dict(q.over); d[self.norm(self.ev(key))] = self.norm(self.ev(v))
        return MapV(q.base, d, q.bt)
    def norm(self, v):
        if isinstance(v, tuple): return tuple(self.norm(x) for x in v)
        if isinstance(v, bytes): return tuple(v)
        return v
    DEL = "<deleted>"
    def e_mapdel(self, t, m, key):
        q = self.mapv(m)
        d = dict(q.over)
        kk = self.norm(self.ev(key))
        if q.base is None: d.pop(kk, None)
        else: d[kk] = self.DEL
        return MapV(q.base, d, q.bt)
    def e_maphas(self, t, m, key):
        q = self.mapv(m); kk = self.norm(self.ev(key))
        if kk in q.over: return q.over[kk] != self.DEL
        if q.base is None: return False
        return self.gen(("has", self.keyof(q.base), self.keyof(kk)), "bool")
    def e_mapval(self, t, m, key, *_):
        q = self.mapv(m); kk = self.norm(self.ev(key))
        if kk in q.over:
            if q.over[kk] == self.DEL: raise Reject("mapval")
            return q.over[kk]
        if q.base is None: raise Reject("mapval")
        return self.gen(("val", self.keyof(q.base), self.keyof(kk)), t.ty)
    def map_keys(self, m):
        q = self.mapv(m)
        if q.base is not None: raise Limit("the keys of an unknown map")
        ks = [x for x in q.over if q.over[x] != self.DEL]
        try: ks.sort(key=lambda x: (str(type(x)), x))
        except TypeError: ks.sort(key=repr)
        if not q.bt: self.h("order", len(ks)).shuffle(ks)
        return ks
    def e_maplen(self, t, m): return len(self.map_keys(m))
    def e_mapkey(self, t, m, i):
        ks = self.map_keys(m); i = self.int(i)
        if not 0 <= i < len(ks): raise Reject("mapkey")
        return ks[i]
    def e_sorted(self, t, s, o, x, y):
        import functools
        v = as_list(self.seq(s))
        def cmp(a, b):
            old = self.push({x: a, y: b})
            try: r = self.ev(o)
            finally: self.bind = old
            if not (isinstance(r, tuple) and r[:2] == ("agg", "core::cmp::Ordering")): raise Limit("order of two elements")
            return r[2] - 1
        return tuple(sorted(v, key=functools.cmp_to_key(cmp)))
    def truth(self, o, b):
        old = self.push(b)
        try: r = self.ev(o)
        finally: self.bind = old
        if not isinstance(r, (bool, int)): raise Limit("a condition on an element")
        return bool(r)
    def e_filtered(self, t, s, o, x):
        v = self.seq(s); r = [a for a in as_list(v) if self.truth(o, {x: a})]
        return bytes(r) if isinstance(v, bytes) else tuple(r)
    def e_deduped(self, t, s, o, x, y):
        v = self.seq(s); r = []
        for a in as_list(v):
            if not r or not self.truth(o, {x: a, y: r[-1]}): r.append(a)
        return bytes(r) if isinstance(v, bytes) else tuple(r)
    def e_reversed(self, t, s): return tuple(reversed(as_list(self.seq(s))))
    # ---- paths
    def path(self, t):
        p = bytes(self.seq(t))
        if p.endswith(b"/") or b"//" in p or p.split(b"/")[-1] in (b"", b".", b".."): raise Limit("an unusual path")
        return p
    @staticmethod
    def ext(p):
        n = p.rsplit(b"/", 1)[-1]
        i = n.rfind(b".")
        return n[i + 1:] if i > 0 else None
    def e_hasext(self, t, p): return self.ext(self.path(p)) is not None
    def e_extension(self, t, p):
        e = self.ext(self.path(p))
        if e is None: raise Reject("extension")
        return e
    def stem(self, p):
        e = self.ext(p)
        return p if e is None else p[:len(p) - len(e) - 1]
    def e_withext(self, t, p, x):
        p, x = self.stem(self.path(p)), bytes(self.seq(x))
        return p + b"." + x if x else p
    def e_hasparent(self, t, p): self.path(p); return True
    def e_hasfilename(self, t, p): self.path(p); return True
    def e_parent(self, t, p):
        p = self.path(p)
        return p.rsplit(b"/", 1)[0] if b"/" in p else b""
    def e_pathjoin(self, t, p, x):
        p, x = bytes(self.seq(p)), bytes(self.seq(x))
        return x if x.startswith(b"/") or not p else p + x if p.endswith(b"/") else p + b"/" + x
    def e_filename(self, t, p): return self.path(p).rsplit(b"/", 1)[-1]
    def e_filestem(self, t, p): return self.stem(self.path(p)).rsplit(b"/", 1)[-1]
    # ---- text search
    def text(self, x):
        try: return bytes(self.seq(x)).decode()
        except (TypeError, ValueError): raise Reject("not a text")
    def charclass(self, n):
        f = {"is_whitespace": lambda c: c in WS, "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_ascii_digit": lambda c: c in "0123456789", "is_numeric": str.isnumeric,
             "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160, "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127, "is_uppercase": str.isupper, "is_lowercase": str.islower,
             "is_ascii": str.isascii, "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
             "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z", "is_ascii_hexdigit": lambda c: c.isascii() and c in "0123456789abcdefABCDEF",
             "is_ascii_graphic": lambda c: "!" <= c <= "~",
             "is_ascii_whitespace": lambda c: c in "\t\n\x0c\r ", "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " "}.get(n)
        if f is None: raise Limit("charclass " + n)
        return f
    def e_charpred(self, t, n, x):
        try: c = chr(self.int(x))
        except (ValueError, OverflowError): raise Reject("not a character")
        return bool(self.charclass(n)(c))
    def pat(self, x):
        """-> predicate on characters, or a text"""
        if x.op == "oneof":
            cs = {chr(self.int(i) if not isinstance(i, int) else i) for i in self.seq(x.a[0])}
            return lambda ch: ch in cs
        if x.op == "charclass":
            return self.charclass(x.a[0])
        return self.text(x)
    def e_strfn(self, t, name, *a):
        x = self.text(a[0])
        if name in ("trim_left_matches", "trim_right_matches"): name = name.replace("left", "start").replace("right", "end")
        if name in ("starts_with", "ends_with", "contains", "trim_matches", "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "find", "rfind",
                    "split_once 0", "split_once 1", "rsplit_once 0", "rsplit_once 1", "replace", "replacen"):
            p = self.pat(a[1])
            if callable(p):
                at = [i for i, ch in enumerate(x) if p(ch)]; n = 1
            else:
                n = len(p); at = []
                i = x.find(p)
                while i >= 0: at.append(i); i = x.find(p, i + 1)
            if name == "contains": return bool(at)
            if name == "starts_with": return 0 in at
            if name == "ends_with": return len(x) - n in at and len(x) >= n
            if name in ("find", "rfind"):
                if not at: raise Reject("find")
                return len(x[:at[0 if name == "find" else -1]].encode())
            if name == "strip_prefix":
                if 0 not in at: raise Reject("prefix")
                r = x[n:]
            elif name == "strip_suffix":
                if len(x) - n not in at: raise Reject("suffix")
                r = x[:len(x) - n]
            elif "split_once" in name:
                if not at: raise Reject("split_once")
                i = at[-1] if name[0] == "r" else at[0]
                r = x[:i] if name.endswith("0") else x[i + n:]
            elif name.startswith("trim"):
                if n == 0: raise Limit("empty pattern")
                r = x; ok = p if callable(p) else (lambda s: s == p)
                if name != "trim_end_matches":
                    while len(r) >= n and ok(r[:n]): r = r[n:]
                if name != "trim_start_matches":
                    while len(r) >= n and ok(r[len(r) - n:]): r = r[:len(r) - n]
            else:
                if n == 0: raise Limit("empty pattern")
                to = self.text(a[2]); lim = self.int(a[3]) if name == "replacen" else -1
                if callable(p):
                    r = ""
                    for ch in x:
                        if p(ch) and lim != 0: r += to; lim -= 1
                        else: r += ch
                else: r = x.replace(p, to, lim)
            return r.encode()
        if name == "repeat":
            n = self.int(a[1])
            if n * len(x) > 1 << 16: raise Reject("long")
            return (x * n).encode()
        ws = "".join(chr(i) for i in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x2028, 0x2029, 0x3000))
        if name == "trim": r = x.strip(ws)
        elif name == "trim_start": r = x.lstrip(ws)
        elif name == "trim_end": r = x.rstrip(ws)
        elif name == "to_lowercase": r = x.lower()
        elif name == "to_uppercase": r = x.upper()
        elif name == "to_ascii_lowercase": r = "".join(c.lower() if c.isascii() else c for c in x)
        elif name == "to_ascii_uppercase": r = "".join(c.upper() if c.isascii() else c for c in x)
        else: raise Limit("strfn " + name)
        return r.encode()
    def e_strsplit(self, t, name, v, *a):
        x = self.text(v)
        if name == "lines":
            r = x.split("\n")
            if r and r[-1] == "": r.pop()
            r = [l[:-1] if l.endswith("\r") else l for l in r]
        elif name == "split_whitespace": r = [w for w in re.split("[" + WS + "]", x) if w]
        elif name == "split_ascii_whitespace": r = [p for p in re.split("[\t\n\x0c\r ]", x) if p]
        elif "match" in name or name == "split_inclusive":
            p = self.pat(a[-1])
            if callable(p): at = [(i, i + 1) for i, ch in enumerate(x) if p(ch)]
            elif p == "": raise Limit("empty pattern")
            else: at = [m.span() for m in re.finditer(re.escape(p), x)]
            if name.startswith("r") and len(p if isinstance(p, str) else "x") > 1: raise Limit(name)
            if name == "split_inclusive":
                r = []; b = 0
                for i, j in at: r.append(x[b:j]); b = j
                if b < len(x): r.append(x[b:])
            else:
                if name.startswith("r"): at = at[::-1]
                if name.endswith("indices"): return tuple(("agg", "()", None, len(x[:i].encode()), x[i:j].encode()) for i, j in at)
                r = [x[i:j] for i, j in at]
        else:
            p = self.pat(a[-1]); lim = self.int(a[0]) if name.endswith("splitn") else None
            if callable(p): p = [c for c in set(x) if p(c)]; rx = "[" + re.escape("".join(p)) + "]" if p else None
            elif p == "": raise Limit("empty pattern")
            else: rx = re.escape(p)
            if lim == 0: r = []
            elif rx is None: r = [x]
            elif name == "rsplitn":
                r = re.split(rx, x)[::-1]
                if len(r) > lim: raise Limit("rsplitn")
            else: r = re.split(rx, x, maxsplit=(lim - 1 if lim is not None else 0)) if lim != 1 else [x]
            if name == "rsplit": r = r[::-1]
            if name == "split_terminator" and r and r[-1] == "": r.pop()
        return tuple(p.encode() for p in r)
    def e_found(self, t, hay, ks):
        cs = {x if isinstance(x, int) else self.int(x) for x in ks}
        return any(x in cs for x in self.seq(hay))
    def e_find(self, t, hay, ks):
        cs = {x if isinstance(x, int) else self.int(x) for x in ks}
        for i, x in enumerate(self.seq(hay)):
            if x in cs: return i
        raise Reject("find")
    def e_startswith(self, t, h, p):
        h, p = self.seq(h), self.seq(p)
        return tuple(h[:len(p)]) == tuple(p)
    def e_contains(self, t, h, p):
        if p.op == "k":
            c = p.a[0]
            if not isinstance(c, int) or c < 128: return c in self.seq(h)
            if c < 256: raise Limit("a byte or a character")
            return chr(c) in self.text(h)
        hv, pv = self.seq(h), self.ev(p)
        if isinstance(pv, bytes) and isinstance(hv, bytes): return pv in hv
        return self.gen(("contains", self.keyof(hv), self.keyof(pv)), "bool")
    def e_fmt(self, t, kind, spec, v, ty="?", *_):
        x = self.ev(v)
        sp = {}
        for nm, w in spec:
            sp[nm.rstrip("*")] = self.int(w) if nm.endswith("*") else w
        r = fmt_text(kind, sp, x, ty)
        if r is not None: return r
        self.unk.add("fmt")
        return self.gen(("fmt", kind, repr(spec), self.keyof(x)), "seq") or b"?"
    def e_fixlen(self, t, x, n):
        m = self.int(n)
        if m < 0 or m > 1 << 21: raise Reject("length")
        return self.h("fixlen", x.id).randbytes(m)
    # specification operators: the page container
    def pages(self, d):
        """[(tag, payload)] or None if not a sequence of well-formed pages"""
        d = bytes(as_list(d)) if not isinstance(d, bytes) else d
        out = []; p = 0
        while p < len(d):
            if p + 5 > len(d): return None
            n = int.from_bytes(d[p + 1:p + 5], "little")
            if n == 0 or p + 5 + n > len(d): return None
            out.append((d[p], d[p + 5:p + 5 + n])); p += 5 + n
        return out
    def e_unframe(self, t, tag, d):
        tg = self.int(tag); ps = self.pages(self.seq(d))
        if ps is None or any(x != tg for x, _ in ps): return b"(malformed pages)"
        return b"".join(y for _, y in ps)
    def e_framed(self, t, tag, d):
        tg = self.int(tag); ps = self.pages(self.seq(d))
        return ps is not None and all(x == tg for x, _ in ps)
    def e_unpage(self, t, tag, d):
        tg = self.int(tag); ps = self.pages(self.seq(d))
        if ps is None: raise Reject("not a page container")
        return b"".join(y for x, y in ps if x == tg)
    def e_mu(self, t, lid, root, path):
        li = self.I.loops.get(lid) if self.I is not None else None
        if li is None:
            if "mu" not in self.allow: self.unk.add("mu")
            return self.gen(("mu", t.id), t.ty, t)
        vals = self.run_loop(li)
        if t not in vals and self.needed is not None:
            self.needed = None; self.loopmemo.clear()
            vals = self.run_loop(li)
        if isinstance(vals[t], Bad): raise vals[t].exc()
        return vals[t]
    def inside(self, lid, outer):
        """is the loop lid entered from within the loop outer?  (its entry depends on where outer is)"""
        key = (lid, outer)
        memo = self.I.__dict__.setdefault("inside_memo", {})
        r = memo.get(key)
        if r is not None: return r
        memo[key] = False
        li = self.I.loops.get(lid)
        if li is None: return False
        ids = set()
        ts = list(li.head.facts.d)
        for root, path in li.sticky:
            try: v = self.I.base(li.init, root)
            except Exception: continue
            ts.append(v)
        for t in ts:
            for x in subterms(t):
                if x.op == "mu": ids.add(x.a[0])
        memo[key] = r = outer in ids or any(i != lid and self.inside(i, outer) for i in ids)
        return r
    def run_loop(self, li):
        drop = [b for b in self.bind if (x := b.a[0] if b.op == "deref" else b).op == "mu" and x.a[0] != li.id and self.inside(x.a[0], li.id)]
        if drop:        # asked for from within a run of an inner loop: those places are not the ones this loop passes through
            save = self.bind
            self.bind = {b: v for b, v in self.bind.items() if b not in drop}
            try: return self.run_loop2(li)
            finally: self.bind = save
        return self.run_loop2(li)
    def run_loop2(self, li):
        es = self.loopmemo.get(li.id)
        if es is not None:
            bind = self.bind
            for rs, v in es:
                for x, n in rs:
                    b = bind.get(x)
                    if (b[1] if b is not None else None) != n: break
                else:
                    if rs: self.reads.update(rs)
                    return v
        save = self.bind
        try: v, rs = self.tracked(self.run_loop1, li)
        finally: self.bind = save
        if es is None or len(es) > 6: es = self.loopmemo[li.id] = []
        es.insert(0, (rs, v))
        return v
    def run_loop1(self, li):
        """Head values of the loop-carried locations when the loop is left,
        from its recurrence: initial values and the values and conditions of
        each way round the loop."""
        I = self.I
        at = lambda st, root, path: loc_at(I, st, root, path)
        mus = {loc: h for h, loc in self.heads(li).items() if self.needed is None or h in self.needed}
        rel = list(mus)
        save = self.bind
        def values(st):
            d = {}
            for m in rel:
                v = at(st, *m)
                d[mus[m]] = self.lazy(explicit(st, v))
                if mus[m].ty == "ref" or v.ty == "ref" or v.op == "ref" or any(x.op == "ref" for x in gamma_arms(v)):
                    dm = mk("deref", mus[m])
                    try: tgt = I.load(st, v)
                    except Exception: continue
                    d[dm] = self.lazy(tgt)
            return d
        def explicit(st, v, depth=0):
            """references held inside a value: what they lead to goes along"""
            if depth > 3 or v.op == "ref" or any(x.op == "ref" for x in gamma_arms(v)): return v
            m = {}
            for x in subterms(v):
                if x.op != "ref": continue
                if isinstance(x.a[0], tuple) and x.a[0][0] == "C": continue
                try: y = I.load(st, x)
                except Exception: continue
                if y.op == "ref": y = I.load(st, y) if depth > 2 else agg("&", None, [explicit(st, I.load(st, y), depth + 1)])
                else: y = explicit(st, y, depth + 1)
                m[x] = agg("&", None, [y])
            return subst(v, m) if m else v
        cur = values(li.init)
        hf = li.head.facts.d
        ways = []
        for b in li.backs or []:
            ways.append(([(c, v) for c, v in b.facts.d.items() if hf.get(c) is not v], b))
        stop = self.h("stop", li.id).choice((0, 0, 1, 1, 2, 3, 5)) if self.partial else -1
        for it in range(60):
            self.steps += 1
            if it == stop: break
            self.bind = save; self.push(cur)
            taken = [b for cs, b in ways if all(self.cond(c) is v for c, v in cs)]
            if not taken:
                if li.out is not None and not self.leaves(li, hf):
                    self.bind = save; self.reached(li); raise Diverges("the loop is not left")
                break
            nxt = values(taken[0])
            for b in taken[1:]:
                n2 = values(b)
                if any(not sameq(nxt[x], n2.get(x)) for x in nxt):
                    self.bind = save; raise Limit("loop paths overlap")
            self.bind = save
            rel_ = self.steering(li, ways, at, mus) if it else None
            if rel_ and all(x in nxt and x in cur and not isinstance(nxt[x], Bad) and sameq(nxt[x], cur[x]) for x in rel_) and not any(fresh(c) for cs, b in ways for c, v in cs):
                self.reached(li); raise NoProgress("a loop repeats its state")
            cur = nxt
        else:
            self.bind = save
            raise Limit("too many iterations")
        self.bind = save
        return cur
    def steering(self, li, ways, at, mus):
        """the loop-carried values that decide, now or later, which way the loop goes"""
        r = getattr(li, "steering", None)
        if r is not None: return r
        heads = set(self.heads(li))
        cs = [c for w, b in ways for c, v in w] + [c for s in li.out or [] for c, v in s.facts.d.items() if li.head.facts.d.get(c) is not v]
        if any(x.op == "ref" for c in cs for x in subterms(c)): r = heads
        else: r = heads & self.closure(cs)
        li.steering = frozenset(r)
        return li.steering
    def reached(self, li):
        """the values at hand lead to the loop"""
        if any(self.cond(c) is not v for c, v in li.init.facts.d.items()): raise Reject("the loop is not reached")
    def leaves(self, li, hf):
        rej = None
        for s in li.out:
            try:
                if all(self.cond(c) is v for c, v in s.facts.d.items() if hf.get(c) is not v): return True
            except Reject as e: rej = e
        if rej is not None: raise rej
        return False
    def lazy(self, t):
        try: return self.ev(t)
        except Reject as e: return Bad(str(e), type(e))

def constants(*ts):
    cs = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "k": cs.add(x.a[0])
            elif x.op == "lin":
                cs.add(abs(x.a[0]))
                for _, n in x.a[1]: cs.add(abs(n))
            elif x.op in ("trunc", "shl"): cs.add(1 << x.a[0])
            elif x.op in ("find", "found", "lastfind", "rfind"): cs.update(c for c in x.a[1] if isinstance(c, int))
            elif x.op in ("le", "fromle"): cs.add(1 << (8 * x.a[0]))
    return sorted(c for c in cs if abs(c) < 1 << 70)

CODE = []       # constants of the code under comparison
CODESTR = []    # literals in it
CODECH = []     # ASCII characters in it
def code_constants(interp, ts):
    """numbers in the terms and in the loops of the code"""
    cs = set(); lits = set()
    cache = interp.__dict__.setdefault("_cs", {})
    for n, li in interp.loops.items():
        if cache.get(n, (None,))[0] != len(li.backs or []):
            seen = set()
            for st in list(li.backs or []) + list(li.out or []):
                for c, v in st.facts.d.items(): seen.add(c)
            for st in li.backs or []:
                for root, path in li.sticky:
                    try: seen.add(loc_at(interp, st, root, path))
                    except Exception: pass
            cache[n] = (len(li.backs or []), constants(*seen), literals(*seen))
        cs.update(cache[n][1]); lits.update(cache[n][2])
    cs.update(constants(*ts)); lits.update(literals(*ts))
    CODESTR[:] = sorted(lits)
    CODECH[:] = sorted(c for c in cs if 0 <= c < 128)
    return sorted(c for c in cs if 16 < c < 1 << 62)
def literals(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "bytes" and 0 < len(x.a[0]) <= 40:
                try: x.a[0].decode()
                except UnicodeDecodeError: continue
                out.add(x.a[0])
    return out
def prose(r, n, alphabet):
    """n characters, now and then with one the code looks at, an odd one, or a word of the code"""
    s = [r.choice(alphabet) for _ in range(n)]
    m = r.random()
    if m < .08 and n: s[r.randrange(n)] = chr(r.randrange(128))
    elif m < .3 and n and CODECH: s[r.choice((0, n - 1, r.randrange(n)))] = chr(r.choice(CODECH))
    elif m < .38 and CODESTR:
        i = r.choice((0, n, n // 2)); s[i:i] = r.choice(CODESTR).decode()
        if r.random() < .3: del s[:i], s[n:]
    return "".join(s).encode()
def twist(r, b, p=.12):
    """a text much like this one: other case, longer, shorter, with a blank"""
    if r.random() >= p: return b
    x = r.choice((b.lower, b.upper, b.swapcase, lambda: b + b"s", lambda: b"Not" + b, lambda: b[:-1], lambda: b[1:], lambda: b + b" ", lambda: b" " + b, lambda: b + b"\0", lambda: b + b))()
    try: x.decode()
    except UnicodeDecodeError: return b
    return x
def near(r, hi, other, p=.2, lo=0):
    """a number about as large as one that occurs in the code, or another one"""
    if CODE and r.random() < p:
        ok = [c for c in CODE if lo <= c - 1 and c + 1 <= hi]
        if ok: return r.choice(ok) + r.choice((-1, 0, 1))
    return other() if callable(other) else other

def atoms_of(*ts):
    return sorted({x for t in ts for x in subterms(t) if x.op in ("eq0", "lt0", "eq")}, key=lambda x: x.id)[:200]

def sameq(a, b):
    if isinstance(a, Bad) or isinstance(b, Bad): return isinstance(a, Bad) and isinstance(b, Bad)
    return same(a, b) is True

def f32(v):
    try: return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError: return math.copysign(float("inf"), v)

class Verdict:
    def __init__(self, kind, why="", sample=None, n=0):
        self.kind = kind; self.why = why; self.sample = sample; self.n = n
    def __bool__(self): return self.kind == "eq"
    def __repr__(self): return "%s %s" % (self.kind, self.why)

def equal(t1, t2, **kw):
    """'eq' (same normal form, or same under random interpretation), 'ne'
    (definitely different functions) or 'unknown'.  fixed: {term: value} or a
    function(random.Random) -> {term: value}."""
    if t1 is t2: return Verdict("eq", "normal form")
    return check([t1, t2], lambda env, vs: env.eqv(*vs), **kw)

def fresh(c):
    """a condition that may differ each time it is evaluated"""
    return any(x.op in ("iofail", "call", "reading", "now", "more", "opaque", "unk", "asmout") for x in subterms(c))

SHARED = []
def shared(interp, key):
    """the evaluations of a group of terms already made"""
    for k, v in SHARED:
        if k[0] is interp and k[1] == key: return v
    SHARED[:] = [((interp, key), {})]
    return SHARED[0][1]

def check(terms, test, facts=(), tries=400, need=40, seed=1, ok_unknown=(), fixed=None, interp=None, partial=False, total=False):
    """Is test(env, values) True for the values of the terms under every
    assignment that satisfies the facts?  -> Verdict.
    total: the code must return on all of them ("tell": test gets PANICKED where it does not)."""
    cs = constants(*terms, *[c for c, _ in facts])
    atoms = atoms_of(*terms, *[c for c, _ in facts])
    CODESTR[:] = CODECH[:] = ()
    CODE[:] = code_constants(interp, list(terms) + [c for c, _ in facts]) if interp is not None else []
    good = 0
    last = None
    unks = set(); limits = 0
    needed = None
    # several questions about the same terms share their values
    past = {}
    if not facts and hasattr(fixed, "__self__") and interp is not None:
        past = shared(interp, (tuple(terms), fixed, seed, ok_unknown, partial))
    for i in range(tries):
        fx = fixed(random.Random(repr((seed, i, "fx")))) if callable(fixed) else (dict(fixed) if fixed else None)
        try:
            if i in past:
                env, vs, exc = past[i]
                if exc is not None: raise exc
            else:
                env = Env((seed, i), cs, fixed=fx, interp=interp, allow=ok_unknown, partial=partial)
                if interp is not None:
                    if needed is None: needed = env.closure(list(terms) + [c for c, _ in facts])
                    env.needed = needed
                if atoms and i % 2:
                    for c in env.rnd.sample(atoms, min(len(atoms), env.rnd.choice((1, 1, 2, 3)))): env.steer_atom(c)
                    env.bind = {}; env.memo.clear(); env.loopmemo.clear()
                past[i] = env, None, None
                try:
                    if facts and i % 4:
                        for _ in range(2):
                            bad = [(c, v) for c, v in facts if env.cond(c) is not v]
                            if not bad: break
                            for c, v in bad: env.satisfy(c, v)
                    if any(env.cond(c) is not v for c, v in facts): continue
                    vs = [env.ev(t) for t in terms]
                    past[i] = env, vs, None
                except (Reject, RecursionError, OverflowError) as e:
                    past[i] = env, None, e.with_traceback(None)
                    raise
        except Limit as e:
            last = e; limits += 1
            if limits > tries // 4: break
            continue
        except Diverges as e:
            last = e
            if total == "progress":
                if isinstance(e, NoProgress) and not env.unk: return Verdict("ne", "", sample=(str(e), env), n=good)
                good += 1
                if good >= need: break
                continue
            if total == "tell" and not env.unk and not isinstance(e, NoProgress):
                w = test(env, [PANICKED] * len(terms))
                if w is None: continue
                if not w: return Verdict("ne", "", sample=("panics or does not return", env), n=good)
                good += 1
                if good >= need: break
                continue
            if total and not env.unk: return Verdict("ne", "", sample=("panics or does not return", env), n=good)
            continue
        except Reject as e:
            last = e
            continue
        except (RecursionError, OverflowError) as e:
            last = e
            continue
        try: e = test(env, vs) if not total or total in ("progress", "tell") or PANICKED not in vs else False
        except (Reject, RecursionError, OverflowError) as x:
            last = x
            continue
        except (TypeError, ValueError, IndexError, KeyError, AttributeError) as x:
            if os.environ.get("MM_DEBUG"): traceback.print_exc()
            e = None
        if e is None:
            last = "values cannot be compared"; limits += 1
            if limits > tries // 4: break
            continue
        if not e:
            if env.unk:
                unks |= env.unk
                if len(unks) and i > tries // 4: break
                continue
            return Verdict("ne", "", sample=tuple(vs) + (env,), n=good)
        good += 1
        if good >= need: break
    if unks: return Verdict("unknown", "unanalysed parts: " + ", ".join(sorted(unks)), n=good)
    if limits > max(3, good // 2): return Verdict("unknown", "evaluation limit: %s" % last, n=good)
    if good >= min(need, 4):
        return Verdict("eq", "random interpretation, %d assignments" % good, n=good)
    return Verdict("unknown", "no assignment satisfies the conditions (%s)" % (last,), n=good)
