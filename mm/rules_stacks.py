"""C20: what the folded stacks and the flame graph are made of."""
from rules_account import *
import iters
STACKS = sym("spec.stacks", ("adt", "std::collections::hash::map::HashMap"))
PREF = sym("spec.prefix", "seq")

def stack_env(I):
    def collapse(I, st, c):
        d = M.content(I, st, c.args[0], c.tys[0])
        if not (d.op == "agg" and d.a[0] == "spec.Data"): return None
        return [(st, mk("spec.stacksof", d.a[2][0], ty=("adt", "std::collections::hash::map::HashMap")))]
    I.overrides["analyzeme::stack_collapse::collapse_stacks"] = I.overrides["analyzeme::collapse_stacks"] = collapse
    def lines(I, st, c):
        """inferno draws the lines it is given into the writer"""
        it = st.simp(c.args[1])
        if not (it.op == "agg" and str(it.a[0]).startswith("it.")): it = iters.make_iter(I, st, it, c.tys[1], c)
        def body(s, x, accr):
            s = s.copy(); s.mem[accr] = cat(s.mem[accr], unit(M.content(I, s, x))); return [s], []
        fin, early, _, accr = iters.consume(I, st, it, c.tys[1], ("svg", c.site), body, acc0=EMPTY, name="svg")
        out = []
        for s in fin:
            ls = s.mem[accr]
            s2 = I.write_contract(I, s, c.args[2], None, unit(agg("spec.Svg", None, [ls])), c)
            if s2 is None: return None
            out += M.io_fork(I, s2, c, lambda q: (q, ok(UNIT)))
        return out + [(s, v) for s, v in early]
    I.overrides["inferno::flamegraph::from_lines"] = lines

def stack_tool(cx, crate):
    return tool(cx, crate, {"file_prefix": PREF}, extra=stack_env)

def rand_stacks(r):
    d = {b"rustc": r.choice((0, 5, 10**9))}
    for _ in range(r.choice((0, 1, 2, 4))):
        d[b"rustc;" + r.choice((b"a", b"b", b"a;b", b"q q", b"", b"a;b;c", b"typeck", b"L" * randint.near(r, 70000, 300, .7)))] = randint.near(r, 1 << 63, lambda: r.choice((0, 1, 77, 10**10, r.getrandbits(50))))
    return d

class Stacks:
    def __init__(self, cx, crate):
        self.R = R = stack_tool(cx, crate); self.t = outcome(R, (DISK, FAILED, OUT)); self.memo = {}
        self.good = good(self.t)
        self.sts = [x for x in subterms(self.t) if x.op == "spec.stacksof"]
    def fx(self, r):
        m = self.memo; m["d"] = rand_stacks(r); f = dict(self.good)
        m["p"] = r.choice((b"d/p", b"p.mm_profdata")); f[PREF] = m["p"]
        for x in self.sts: f[x] = randint.MapV(None, {tuple(n): v for n, v in (m["d"] if x.a[0] is PREF else {b"other": 3}).items()})
        return f

@rule("C20")
def c20_folded(cx):
    X = Stacks(cx, "stack_collapse"); memo = X.memo
    def test(e, vs):
        if not succeeded(vs[0]): return None
        d = ondisk(vs[0][4])
        if d is None: return None
        if len(d) != 1: return False
        o = text(*d.values())
        if o is None: return None
        want = sorted("%s %d" % (n.decode(), v) for n, v in memo["d"].items())
        return sorted(o.split("\n")) == [""] + want or (sorted(o.split("\n")) == sorted(want + [""]))
    cx.holds("the folded file has one line per stack, with the stack's time", [X.t], test, where=X.R.where, interp=X.R.I, fixed=X.fx, total=True, need=80)

@rule("C20")
def c20_flame(cx):
    X = Stacks(cx, "flamegraph"); memo = X.memo
    def test(e, vs):
        if not succeeded(vs[0]): return None
        d = ondisk(vs[0][4])
        if d is None: return None
        if len(d) != 1: return False
        v, = d.values()
        if not isinstance(v, tuple) or v[:1] == ("agg",): return None
        if len(v) != 1: return False
        ls = unagg(v[0], "spec.Svg")
        if ls is None: return None
        ls = [text(x) for x in ls[0]]
        if None in ls: return None
        return sorted(ls) == sorted("%s %d" % (n.decode(), x) for n, x in memo["d"].items())
    cx.holds("the flame graph is drawn from one line per stack, with the stack's time", [X.t], test, where=X.R.where, interp=X.R.I, fixed=X.fx, total=True, need=80)
