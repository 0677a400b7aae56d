"""Hash-consed value-graph terms with normalising constructors.

A term denotes the value of an expression of the analysed program in terms of
its inputs.  Equal terms denote equal values.  Nothing here looks at program
text; the terms are built by the abstract interpreter in interp.py."""
import itertools

UNIT_ENUMS = {}
class T:
    __slots__ = ("op", "a", "id", "_ty", "_sub")
    @property
    def ty(self): return self._ty
    @ty.setter
    def ty(self, v):
        # the range of a computed value follows from its operands; a type
        # learnt under the facts of one path must not stick to the shared term
        if self.op not in COMPUTED: self._ty = v
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

COMPUTED = frozenset(("k", "lin", "gamma", "mul", "div", "rem", "and", "or", "xor", "min", "max", "agg", "ref", "clo"))
_tab = {}
_ids = itertools.count(1)

def mk(op, *a, ty=None):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.a = a; t.id = next(_ids); t._ty = ty; t._sub = None
        _tab[key] = t
    elif ty is not None and t.ty is None:
        t.ty = ty
    return t

# ---------------------------------------------------------------- basics
def k(n): return mk("k", "i%d" % n if False else int(n), "int")
def kval(t): return t.a[0] if t.op == "k" else None
TRUE = mk("b", "true"); FALSE = mk("b", "false")
def kb(x): return TRUE if x else FALSE
UNIT = mk("agg", "()", None, ())
def sym(name, ty=None): return mk("sym", name, ty=ty)
def is_k(t): return t.op == "k"

INT_U64 = ("int", False, 64)
def int_range(ty):
    if ty and ty[0] == "int":
        _, s, b = ty
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    return None

# ---------------------------------------------------------------- linear forms
def lin_parts(t):
    if t.op == "k": return t.a[0], {}
    if t.op == "lin": return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def mklin(c, d):
    d = {t: n for t, n in d.items() if n}
    if not d: return k(c)
    if c == 0 and len(d) == 1:
        (t, n), = d.items()
        if n == 1: return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))

def add(*xs):
    c, d = 0, {}
    for x in xs:
        cc, dd = lin_parts(x)
        c += cc
        for t, n in dd.items():
            d[t] = d.get(t, 0) + n
    return mklin(c, d)

def scale(x, n):
    c, d = lin_parts(x)
    return mklin(c * n, {t: m * n for t, m in d.items()})

def sub(x, y): return add(x, scale(y, -1))

def mul(x, y):
    if x.op == "k": return scale(y, x.a[0])
    if y.op == "k": return scale(x, y.a[0])
    if y.id < x.id: x, y = y, x
    return mk("mul", x, y)

def div(x, y):
    if x.op == "k" and y.op == "k" and y.a[0] != 0:
        q = abs(x.a[0]) // abs(y.a[0])
        return k(q if (x.a[0] < 0) == (y.a[0] < 0) else -q)
    if y.op == "k" and y.a[0] == 1: return x
    return mk("div", x, y)

def rem(x, y):
    if x.op == "k" and y.op == "k" and y.a[0] != 0:
        r = abs(x.a[0]) % abs(y.a[0])
        return k(-r if x.a[0] < 0 else r)
    return mk("rem", x, y)

# ranges ---------------------------------------------------------------
INF = float("inf")
def rng(t, facts=None):
    """Sound [lo,hi] for an integer term."""
    op = t.op
    if op == "k": return (t.a[0], t.a[0])
    r = (-INF, INF)
    if op == "lin":
        lo = hi = t.a[0]
        for x, n in t.a[1]:
            a, b = rng(x, facts)
            if n >= 0: lo += n * a; hi += n * b
            else: lo += n * b; hi += n * a
        r = (lo, hi)
    elif op == "trunc":
        a, b = rng(t.a[1], facts); m = (1 << t.a[0]) - 1
        r = (a, b) if a >= 0 and b <= m else (0, m)
    elif op == "and":
        los, his = zip(*[rng(x, facts) for x in t.a])
        r = (0, min([h for l, h in zip(los, his) if l >= 0] or [INF])) if all(l >= 0 for l in los) else r
    elif op in ("or", "xor"):
        rs = [rng(x, facts) for x in t.a]
        if all(l >= 0 and h < INF for l, h in rs):
            r = (0, (1 << max(int(h) for l, h in rs).bit_length()) - 1)
    elif op == "shr":
        a, b = rng(t.a[1], facts)
        if t.a[2].op == "k" and a >= 0:
            r = (int(a) >> t.a[2].a[0], (int(b) >> t.a[2].a[0]) if b < INF else INF)
    elif op == "shl":
        r = (0, (1 << t.a[0]) - 1)
        a, b = rng(t.a[1], facts)
        if t.a[2].op == "k" and a >= 0 and b < INF and (int(b) << t.a[2].a[0]) <= r[1]:
            r = (int(a) << t.a[2].a[0], int(b) << t.a[2].a[0])
    elif op == "div":
        a, b = rng(t.a[0], facts); c, d = rng(t.a[1], facts)
        if a >= 0 and c >= 1: r = (0, b)
    elif op == "rem":
        a, b = rng(t.a[0], facts); c, d = rng(t.a[1], facts)
        if a >= 0 and c >= 1: r = (0, min(b, d - 1))
    elif op == "mul":
        a, b = rng(t.a[0], facts); c, d = rng(t.a[1], facts)
        if a >= 0 and c >= 0: r = (a * c if a and c else 0, INF if INF in (b, d) else b * d)
    elif op == "min":
        rs = [rng(x, facts) for x in t.a]
        r = (min(a for a, b in rs), min(b for a, b in rs))
    elif op == "max":
        rs = [rng(x, facts) for x in t.a]
        r = (max(a for a, b in rs), max(b for a, b in rs))
    elif op == "gamma":
        a, b = rng(t.a[1], facts), rng(t.a[2], facts)
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op == "len":
        r = (0, (1 << 63) - 1)
    elif op == "fromle":
        r = (0, (1 << (8 * t.a[0])) - 1)
    elif op == "discr":
        r = (0, (1 << 63))
    elif op == "b2i":
        r = (0, 1)
    tr = int_range(t.ty)
    if tr: r = (max(r[0], tr[0]), min(r[1], tr[1]))
    if facts is not None:
        fr = facts.bounds(t)
        if fr: r = (max(r[0], fr[0]), min(r[1], fr[1]))
    return r

# ---------------------------------------------------------------- bit level
def trunc(bits, x):
    if x.op == "k": return k(x.a[0] & ((1 << bits) - 1))
    if x.op == "trunc": return trunc(min(bits, x.a[0]), x.a[1])
    a, b = rng(x)
    if a >= 0 and b < (1 << bits): return x
    if x.op == "and":
        m = (1 << bits) - 1
        ys = [y for y in x.a if not (y.op == "k" and y.a[0] & m == m)]
        if len(ys) < len(x.a):
            return trunc(bits, ys[0] if len(ys) == 1 else and_(*ys))
    return mk("trunc", bits, x, ty=("int", False, bits))

def cast_int(x, to):
    """to = ("int", signed, bits)"""
    r = int_range(to)
    a, b = rng(x)
    if a >= r[0] and b <= r[1]: return x
    if not to[1]: return trunc(to[2], x)
    return mk("sext", to[2], x, ty=to)

def and_(*xs):
    c = None; out = []
    for x in xs:
        if x.op == "k":
            c = x.a[0] if c is None else c & x.a[0]
        elif x.op == "and":
            for y in x.a:
                if y.op == "k": c = y.a[0] if c is None else c & y.a[0]
                else: out.append(y)
        else: out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    if c is not None:
        if c == 0: return k(0)
        if not out: return k(c)
        if len(out) == 1:
            a, b = rng(out[0])
            if a >= 0 and b < INF and c >= 0 and ((1 << int(b).bit_length()) - 1) & c == (1 << int(b).bit_length()) - 1:
                return out[0]
        out.append(k(c))
    return out[0] if len(out) == 1 else mk("and", *out)

def or_(*xs):
    c = 0; out = []
    for x in xs:
        if x.op == "k": c |= x.a[0]
        elif x.op == "or":
            for y in x.a:
                if y.op == "k": c |= y.a[0]
                else: out.append(y)
        else: out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    if not out: return k(c)
    if c: out.append(k(c))
    return out[0] if len(out) == 1 else mk("or", *out)

def xor(x, y):
    if x.op == "k" and y.op == "k": return k(x.a[0] ^ y.a[0])
    if x is y: return k(0)
    if y.id < x.id: x, y = y, x
    return mk("xor", x, y)

def shl(bits, x, n):
    if n.op == "k" and x.op == "k": return k((x.a[0] << n.a[0]) & ((1 << bits) - 1))
    if n.op == "k" and n.a[0] == 0: return x
    return mk("shl", bits, x, n)

def shr(bits, x, n):
    if n.op == "k" and x.op == "k" and x.a[0] >= 0: return k(x.a[0] >> n.a[0])
    if n.op == "k" and n.a[0] == 0: return x
    return mk("shr", bits, x, n)

# ---------------------------------------------------------------- booleans
def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "not": return x.a[0]
    return mk("not", x)

def band(x, y):
    if x is FALSE or y is FALSE: return FALSE
    if x is TRUE: return y
    if y is TRUE: return x
    if x is y: return x
    if x is not_(y): return FALSE
    if y.id < x.id: x, y = y, x
    return mk("band", x, y)

def bor(x, y): return not_(band(not_(x), not_(y)))

def is_seqlike(t):
    return t.op in ("cat", "bytes", "slice", "rep", "le", "unit") or t.ty == "seq"

def eq(x, y):
    if x is y: return TRUE
    if x.op == "b" and y.op == "b": return kb(x is y)
    if x.op == "bytes" and y.op == "bytes": return kb(x.a[0] == y.a[0])
    if x is TRUE: return y
    if y is TRUE: return x
    if x is FALSE: return not_(y)
    if y is FALSE: return not_(x)
    if x.op == "fk" and y.op == "fk": return kb(x is y)
    if x.op == "agg" and y.op == "agg" and (x.a[0] == y.a[0]):
        if x.a[1] != y.a[1]: return FALSE
        if len(x.a[2]) == len(y.a[2]):
            r = TRUE
            for p, q in zip(x.a[2], y.a[2]): r = band(r, eq(p, q))
            return r
    for p, q in ((x, y), (y, x)):
        if p.op == "agg" and not p.a[2] and p.a[1] is not None and q.op not in ("agg",):
            return isv(q, p.a[1])
        if p.op == "gamma" and q.op in ("k", "b", "bytes", "agg") and p.a[1].op in ("k", "b", "bytes", "agg") and p.a[2].op in ("k", "b", "bytes", "agg"):
            return gamma(p.a[0], eq(p.a[1], q), eq(p.a[2], q))
    if is_intish(x) and is_intish(y):
        d = sub(x, y)
        if d.op == "k": return kb(d.a[0] == 0)
        a, b = rng(d)
        if a > 0 or b < 0: return FALSE
        # canonical sign and gcd-free form
        c, m = lin_parts(d)
        first = min(m, key=lambda t: t.id)
        if m[first] < 0: d = scale(d, -1)
        return mk("eq0", d)
    if y.id < x.id: x, y = y, x
    return mk("eq", x, y)

def is_intish(t):
    return t.op in ("k", "lin", "mul", "div", "rem", "trunc", "and", "or", "xor", "shl", "shr", "len", "fromle", "sext", "min", "max", "b2i", "discr", "idx_int") \
        or (t.ty is not None and t.ty[0] == "int") or (t.op == "gamma" and is_intish(t.a[1]) and is_intish(t.a[2]))

def lt(x, y):
    if x is y: return FALSE
    if is_intish(x) and is_intish(y):
        d = sub(x, y)   # d < 0
        a, b = rng(d)
        if b < 0: return TRUE
        if a >= 0: return FALSE
        # integers: canonical  d < 0 ;  not(d<0) == -d-1 < 0
        c, m = lin_parts(d)
        first = min(m, key=lambda t: t.id)
        if m[first] < 0:
            return not_(mk("lt0", add(scale(d, -1), k(-1))))
        return mk("lt0", d)
    if x.op == "fk" and y.op == "fk":
        import struct
        return kb(fval(x) < fval(y))
    return mk("lt", x, y)

def fval(t):
    import struct
    return struct.unpack("<d", struct.pack("<Q", t.a[0]))[0] if t.a[1] in (8, 64) else struct.unpack("<f", struct.pack("<I", t.a[0]))[0]

def le(x, y):
    return not_(lt(y, x))

def gamma(c, x, y):
    if x is y: return x
    if c is TRUE: return x
    if c is FALSE: return y
    if c.op == "not": return gamma(c.a[0], y, x)
    if x is TRUE and y is FALSE: return c
    if x is FALSE and y is TRUE: return not_(c)
    if y is FALSE: return band(c, x)
    if x is TRUE: return bor(c, y)
    if x is FALSE: return band(not_(c), y)
    if y is TRUE: return bor(not_(c), x)
    if x.op == "gamma" and x.a[0] is c: x = x.a[1]
    if y.op == "gamma" and y.a[0] is c: y = y.a[2]
    if x is y: return x
    if x.op == "not": return not_(gamma(c, x.a[0], not_(y)))      # one polarity for each condition
    # min / max
    if c.op in ("lt", "lt0"):
        if is_intish(x) and is_intish(y):
            l = lt(x, y); g = lt(y, x)
            if c is l: return minmax("min", x, y)
            if c is not_(g): return minmax("min", x, y)
            if c is g: return minmax("max", x, y)
            if c is not_(l): return minmax("max", x, y)
        elif c.op == "lt":
            if c.a == (x, y): return minmax("min", x, y)
            if c.a == (y, x): return minmax("max", x, y)
    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
        return agg(x.a[0], x.a[1], [gamma(c, p, q) for p, q in zip(x.a[2], y.a[2])])
    if x.op == "mapins" and y.op == "mapins" and x.a[0] is y.a[0] and x.a[1] is y.a[1]:
        return mk("mapins", x.a[0], x.a[1], gamma(c, x.a[2], y.a[2]), *x.a[3:], ty=x.ty)
    es = same_elements((x, y))
    if es: return cat(*[unit(gamma(c, p, q)) for p, q in es])
    if x.op == "cat" or y.op == "cat":
        # common prefixes and suffixes move out of the gate
        px, py = parts(x), parts(y)
        if (x.op == "cat" or is_seqlike(x)) and (y.op == "cat" or is_seqlike(y)):
            n = 0
            while n < len(px) and n < len(py) and px[n] is py[n]: n += 1
            if n: return cat(*px[:n], gamma(c, cat(*px[n:]), cat(*py[n:])))
            n = 0
            while n < len(px) and n < len(py) and px[-1 - n] is py[-1 - n]: n += 1
            if n: return cat(gamma(c, cat(*px[:len(px) - n]), cat(*py[:len(py) - n])), *px[len(px) - n:])
    return mk("gamma", c, x, y, ty=x.ty if x.ty == y.ty else (x.ty or y.ty if (x.op == "k" or y.op == "k") else None))

def minmax(op, *xs):
    out = []; c = None
    for x in xs:
        for y in (x.a if x.op == op else (x,)):
            if y.op == "k":
                v = y.a[0]
                c = v if c is None else (min(c, v) if op == "min" else max(c, v))
            else: out.append(y)
    out = sorted(set(out), key=lambda t: t.id)
    if c is not None:
        keep = []
        for y in out:
            a, b = rng(y)
            if op == "min" and a >= c or op == "max" and b <= c: continue
            keep.append(y)
        out = keep
        if not out: return k(c)
        if not any((op == "min" and rng(y)[1] <= c) or (op == "max" and rng(y)[0] >= c) for y in out):
            out.append(k(c))
    if len(out) == 1: return out[0]
    return mk(op, *out, ty=out[0].ty)

# ---------------------------------------------------------------- aggregates
def agg(tyname, variant, fields):
    return mk("agg", tyname, variant, tuple(fields))

def fld(t, idx, name, ty=None):
    if t.op == "agg":
        if idx < len(t.a[2]): return t.a[2][idx]
        return mk("bottom", "field")
    if t.op == "gamma":
        return gamma(t.a[0], fld(t.a[1], idx, name, ty), fld(t.a[2], idx, name, ty))
    if t.op == "phi":
        return phi(t.a[0], [fld(x, idx, name, ty) for x in t.a[1]])
    if t.op == "clo" and idx < len(t.a[1]):
        return t.a[1][idx]
    if t.op == "cowview" and idx == 0:
        return ref(("C", t.a[0])) if t.a[1] == 0 else t.a[0]
    return mk("f", t, name if name else idx, ty=ty)

def phi(j, xs):
    xs = tuple(xs)
    if all(x is xs[0] for x in xs): return xs[0]
    if all(x.op == "agg" and x.a[0] == xs[0].a[0] and x.a[1] == xs[0].a[1] and len(x.a[2]) == len(xs[0].a[2]) for x in xs):
        return agg(xs[0].a[0], xs[0].a[1], [phi(j, ys) for ys in zip(*[x.a[2] for x in xs])])
    es = same_elements(xs)
    if es: return cat(*[unit(phi(j, e)) for e in es])
    return mk("phi", j, xs, ty=xs[0].ty)

def elements(t):
    """the elements of a sequence of known length, each with its structure"""
    if t.op not in ("cat", "unit"): return None
    ps = parts(t)
    return [p.a[0] for p in ps] if all(p.op == "unit" and p.a[1] == "e" for p in ps) else None

def same_elements(xs):
    """sequences of the same few records, element by element"""
    if any(x.op not in ("cat", "unit") for x in xs): return None
    es = [elements(x) for x in xs]
    if any(e is None or len(e) != len(es[0]) for e in es) or not 0 < len(es[0]) <= 6: return None
    es = list(zip(*es))
    if all(all(y.op == "agg" and y.a[2] and y.a[:2] == e[0].a[:2] for y in e) for e in es): return es

def down(t, variant, name=None, ty=None):
    """t viewed as the given variant."""
    if t.op == "agg" and t.a[0] == "entry": return agg("()", None, [t])
    if t.op == "agg":
        return t if t.a[1] == variant else mk("bottom", "variant")
    if t.op == "gamma":
        a, b = down(t.a[1], variant, name, ty), down(t.a[2], variant, name, ty)
        if a.op == "bottom": return b
        if b.op == "bottom": return a
        return gamma(t.a[0], a, b)
    if t.op == "phi":
        xs = [x for x in (down(x, variant, name, ty) for x in t.a[1]) if x.op != "bottom"]
        return phi(t.a[0], xs) if xs else mk("bottom", "variant")
    if name in ("Borrowed", "Owned") and (t.ty == "seq" or is_seqlike(t) or (t.ty and t.ty[0] == "adt" and t.ty[1].endswith("borrow::Cow"))):
        return mk("cowview", t, variant)      # a Cow is represented by the sequence it denotes
    return mk("as", t, variant, name, ty=ty)

def isv(t, variant):
    if t.op == "agg" and t.a[0] == "entry":      # an entry of a map: occupied or vacant
        return t.a[2][3] if t.a[2][4] is k(variant) else not_(t.a[2][3])
    if t.op == "agg": return kb(t.a[1] == variant)
    if t.op == "gamma": return gamma(t.a[0], isv(t.a[1], variant), isv(t.a[2], variant))
    if t.op == "phi":
        xs = [isv(x, variant) for x in t.a[1]]
        if all(x is xs[0] for x in xs): return xs[0]
    return mk("is", t, variant)

# ---------------------------------------------------------------- sequences
EMPTY = mk("cat")
def bytes_(b): return mk("bytes", bytes(b)) if b else EMPTY
def unit(x, byte=False):
    if byte and x.op == "k": return bytes_([x.a[0] & 255])
    return mk("unit", x, "b" if byte else "e")
def rep(x, n, byte=False):
    if n.op == "k":
        if n.a[0] == 0: return EMPTY
        if n.a[0] <= 64: return cat(*[unit(x, byte)] * n.a[0])
    return mk("rep", x, n, "b" if byte else "e")
def lebytes(n, x):
    if x.op == "k": return bytes_((x.a[0] & ((1 << 8 * n) - 1)).to_bytes(n, "little"))
    if x.op == "trunc" and x.a[0] >= 8 * n: return lebytes(n, x.a[1])
    if x.op == "fromle" and x.a[0] == n: return x.a[1]
    if x.op == "swap": return mk("be", n, x.a[1])
    if n == 1: return unit(trunc(8, x), True)
    return mk("le", n, x)
def fromle(n, s, signed=False):
    if s.op == "le" and s.a[0] == n: return trunc(8 * n, s.a[1])
    if s.op == "bytes" and len(s.a[0]) == n: return k(int.from_bytes(s.a[0], "little"))
    if n == 1: return index(s, k(0), ("int", False, 8))
    return mk("fromle", n, s, ty=("int", signed, 8 * n))

def length(s):
    o = s.op
    if o == "cat": return add(*[length(x) for x in s.a]) if s.a else k(0)
    if o == "bytes": return k(len(s.a[0]))
    if o == "unit": return k(1)
    if o == "rep": return s.a[1]
    if o in ("le", "be"): return k(s.a[0])
    if o == "slice": return sub(s.a[2], s.a[1])
    if o == "gamma": return gamma(s.a[0], length(s.a[1]), length(s.a[2]))
    if o == "rawbytes": return s.a[1]
    if o == "map": return sub(s.a[0].a[1], s.a[0].a[0])
    if o == "fixlen": return s.a[1]
    return mk("len", s, ty=("int", False, 63))

def parts(s):
    return s.a if s.op == "cat" else (s,)

def cat(*xs):
    out = []
    for x in xs:
        for p in parts(x):
            if out and p.op == "bytes" and out[-1].op == "bytes":
                out[-1] = mk("bytes", out[-1].a[0] + p.a[0])
            elif out and p.op == "slice" and out[-1].op == "slice" and p.a[0] is out[-1].a[0] and out[-1].a[2] is p.a[1]:
                out[-1] = slice_(p.a[0], out[-1].a[1], p.a[2])
            elif p.op == "slice" and p.a[1] is p.a[2]:
                pass
            elif p.op == "rep" and p.a[1].op == "k" and p.a[1].a[0] == 0:
                pass
            else:
                out.append(p)
    if len(out) == 1: return out[0]
    # a change above may have produced a complete sequence again
    return mk("cat", *out, ty="seq")

def _cmp_pos(a, b, facts=None):
    """sign of a-b if certain: -1 (a<b), 0, 1 (a>b), 'le', 'ge' or None"""
    d = sub(a, b)
    if d.op == "k": return (d.a[0] > 0) - (d.a[0] < 0)
    lo, hi = rng(d, facts)
    if hi < 0: return -1
    if lo > 0: return 1
    if hi <= 0: return "le"
    if lo >= 0: return "ge"
    return None

def slice_(s, a, b, facts=None):
    if s.op == "gamma":
        return gamma(s.a[0], slice_(s.a[1], a, b, facts), slice_(s.a[2], a, b, facts))
    L = length(s)
    if a.op == "k" and a.a[0] == 0 and b is L: return s
    if a is b: return EMPTY
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], a), add(s.a[1], b), facts)
    if s.op == "bytes" and a.op == "k" and b.op == "k":
        return bytes_(s.a[0][a.a[0]:b.a[0]])
    if s.op == "rep":
        return rep(s.a[0], sub(b, a), s.a[2] == "b")
    if s.op in ("le",) and a.op == "k" and b.op == "k" and b.a[0] > a.a[0]:
        return lebytes(b.a[0] - a.a[0], shr(64, s.a[1], k(8 * a.a[0])))
    if s.op == "cat":
        pos = k(0); out = []; started = False
        ps = s.a
        i = 0
        ok = True
        while i < len(ps):
            p = ps[i]; end = add(pos, length(p))
            if not started:
                c = _cmp_pos(a, pos, facts)
                if c == 0 or c == "le":
                    if c == "le": ok = False; break
                    started = True
                    continue
                ce = _cmp_pos(a, end, facts)
                if ce in (0, 1, "ge"):
                    pos = end; i += 1; continue
                if ce in (-1, "le") and c in (1, "ge"):
                    # starts inside p
                    cb = _cmp_pos(b, end, facts)
                    if cb in (-1, 0, "le"):
                        return slice_(p, sub(a, pos), sub(b, pos), facts)
                    if cb in (1, "ge"):
                        out.append(slice_(p, sub(a, pos), length(p), facts)); started = True
                        pos = end; i += 1; continue
                ok = False; break
            else:
                c = _cmp_pos(b, pos, facts)
                if c in (0, -1, "le"): return cat(*out)
                cb = _cmp_pos(b, end, facts)
                if cb in (0, 1, "ge"):
                    out.append(p); pos = end; i += 1; continue
                if cb in (-1, "le"):
                    out.append(slice_(p, k(0), sub(b, pos), facts))
                    return cat(*out)
                ok = False; break
        if ok and started: return cat(*out)
        if ok and not started and _cmp_pos(a, pos, facts) == 0: return EMPTY
        # try reducing by a common prefix
    return mk("slice", s, a, b, ty="seq")

def index(s, i, ty=None, facts=None):
    if s.op == "gamma":
        return gamma(s.a[0], index(s.a[1], i, ty, facts), index(s.a[2], i, ty, facts))
    if s.op == "slice": return index(s.a[0], add(s.a[1], i), ty, facts)
    if s.op == "bytes" and i.op == "k" and 0 <= i.a[0] < len(s.a[0]): return k(s.a[0][i.a[0]])
    if s.op == "unit" and i.op == "k" and i.a[0] == 0: return s.a[0]
    if s.op == "rep": return s.a[0]
    if s.op == "map" and s.a[1].op == "ref":
        lo, _, stp, bv = s.a[0].a
        return subst(s.a[1], {bv: add(lo, mul(i, stp))})
    if s.op == "le" and i.op == "k": return trunc(8, shr(64, s.a[1], k(8 * i.a[0])))
    if s.op == "cat":
        pos = k(0)
        for p in s.a:
            end = add(pos, length(p))
            c0 = _cmp_pos(i, pos, facts); c1 = _cmp_pos(i, end, facts)
            if c0 in (0, 1, "ge") and c1 == -1:
                return index(p, sub(i, pos), ty, facts)
            if c1 in (0, 1, "ge"):
                pos = end; continue
            break
    return mk("idx", s, i, ty=ty)

def splice(s, a, b, new, facts=None):
    return cat(slice_(s, k(0), a, facts), new, slice_(s, b, length(s), facts))

# ---------------------------------------------------------------- references
def ref(root, proj=(), mut=False):
    return mk("ref", root, tuple(proj))

# ---------------------------------------------------------------- traversal
def children(t):
    out = []
    def go(x):
        if isinstance(x, T): out.append(x)
        elif isinstance(x, tuple):
            for y in x: go(y)
    for x in t.a: go(x)
    return out

def subterms(t):
    if t._sub is None:
        seen = {t}
        stack = [t]
        while stack:
            x = stack.pop()
            for c in children(x):
                if c not in seen:
                    seen.add(c); stack.append(c)
        t._sub = frozenset(seen)
    return t._sub

def contains(t, x): return x in subterms(t)
def ops_in(t): return {x.op for x in subterms(t)}

def subst(t, m, memo=None):
    if not m: return t
    memo = {} if memo is None else memo
    def go(x):
        if x in m: return m[x]
        if x in memo: return memo[x]
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def rebuild(x, go):
    """Re-normalise x after applying go to its children."""
    def gt(y):
        if isinstance(y, T): return go(y)
        if isinstance(y, tuple): return tuple(gt(z) for z in y)
        return y
    a = tuple(gt(y) for y in x.a)
    if a == x.a: return x
    o = x.op
    if o == "lin":
        return add(k(a[0]), *[scale(t, n) for t, n in a[1]])
    if o == "mul": return mul(*a)
    if o == "div": return div(*a)
    if o == "rem": return rem(*a)
    if o == "trunc": return trunc(*a)
    if o == "sext": return cast_int(a[1], ("int", True, a[0]))
    if o == "and": return and_(*a)
    if o == "or": return or_(*a)
    if o == "xor": return xor(*a)
    if o == "shl": return shl(*a)
    if o == "shr": return shr(*a)
    if o == "not": return not_(*a)
    if o == "band": return band(*a)
    if o == "eq0": return eq(a[0], k(0))
    if o == "lt0": return lt(a[0], k(0))
    if o == "eq": return eq(*a)
    if o == "lt": return lt(*a)
    if o == "gamma": return gamma(*a)
    if o in ("min", "max"): return minmax(o, *a)
    if o == "agg": return agg(*a)
    if o == "f":
        if a[0].op == "agg":
            idx = field_index(a[0], a[1])
            if idx is not None: return a[0].a[2][idx]
        if a[0].op in ("gamma",):
            return gamma(a[0].a[0], rebuild_f(a[0].a[1], a[1], x.ty), rebuild_f(a[0].a[2], a[1], x.ty))
        return mk("f", *a, ty=x.ty)
    if o == "as": return down(a[0], a[1], a[2], x.ty)
    if o == "is": return isv(a[0], a[1])
    if o == "phi": return phi(*a)
    if o == "cat": return cat(*a)
    if o == "unit": return unit(a[0], a[1] == "b")
    if o == "rep": return rep(a[0], a[1], a[2] == "b")
    if o == "le": return lebytes(*a)
    if o == "fromle": return fromle(a[0], a[1], bool(x.ty and x.ty[1]))
    if o == "len": return length(a[0])
    if o == "slice": return slice_(*a)
    if o == "idx": return index(a[0], a[1], x.ty)
    return mk(o, *a, ty=x.ty)

def rebuild_f(t, name, ty):
    if t.op == "agg":
        idx = field_index(t, name)
        if idx is not None: return t.a[2][idx]
    return mk("f", t, name, ty=ty)

FIELD_NAMES = {}   # (adt path, variant or None) -> list of field names
def field_index(a, name):
    if isinstance(name, int): return name if name < len(a.a[2]) else None
    ns = FIELD_NAMES.get((a.a[0], a.a[1])) or FIELD_NAMES.get((a.a[0], None))
    if ns and name in ns: return ns.index(name)
    return None

def show(t, depth=0):
    if depth > 14: return "…"
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else ("(" + ",".join(s(y) for y in x) + ")" if isinstance(x, tuple) else str(x))
    o = t.op
    if o == "k": return str(t.a[0])
    if o == "b": return t.a[0]
    if o == "sym": return str(t.a[0])
    if o == "bytes": return "b" + repr(t.a[0])[1:]
    if o == "lin":
        return "(" + " + ".join(([str(t.a[0])] if t.a[0] else []) + [("%d*" % n if n != 1 else "") + s(x) for x, n in t.a[1]]) + ")"
    if o == "f": return "%s.%s" % (s(t.a[0]), t.a[1])
    if o == "as": return "(%s as %s)" % (s(t.a[0]), t.a[2] or t.a[1])
    if o == "deref": return "*%s" % s(t.a[0])
    if o == "agg":
        n = str(t.a[0]).split("::")[-1] + ("#%s" % t.a[1] if t.a[1] is not None else "")
        return n + "{" + ", ".join(s(x) for x in t.a[2]) + "}"
    if o == "slice": return "%s[%s..%s]" % (s(t.a[0]), s(t.a[1]), s(t.a[2]))
    if o == "idx": return "%s[%s]" % (s(t.a[0]), s(t.a[1]))
    if o == "lt0": return "(%s < 0)" % s(t.a[0])
    if o == "eq0": return "(%s == 0)" % s(t.a[0])
    if o == "cat": return "cat[" + " ++ ".join(s(x) for x in t.a) + "]"
    if o == "ref": return "&" + s(t.a[0]) + ("." + s(t.a[1]) if t.a[1] else "")
    return o + "(" + ", ".join(s(x) for x in t.a) + ")"
