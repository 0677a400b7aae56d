"""C27: truncation keeps header, every string page and the first event page."""
from rules_tools import *
import randint
FILE = sym("spec.file", "seq")
DATA = sym("spec.input", "seq")

def edit(cx):
    def extra(I):
        def read(I, st, c):
            p = M.content(I, st, c.args[0], c.tys[0])
            d = DATA if p is FILE else mk("filedata", p, ty="seq")
            s0 = st.mem.get(fsroot(p))
            return M.io_fork(I, st, c, lambda s: (s, ok(d)))
        I.overrides["std::fs::read"] = read
    return tool(cx, "mmedit", ("Truncate", {"file": FILE}), extra=extra)

TAGS = {"ev": 0, "sd": 1, "si": 2}
class Edit:
    def __init__(self, cx, damage=False):
        self.R = edit(cx); self.t = outcome(self.R, (DISK, CREATED, FAILED)); self.good = good(self.t); self.memo = {}
    def fx(self, r):
        m = self.memo
        m["v"] = r.choice((7, 8, 9, 9, 9))
        pages = []
        for _ in range(r.choice((0, 1, 2, 3, 5, 8))):
            n = r.choice((1, 2, 24, 100)) if r.random() < .9 else randint.near(r, 300000, lambda: r.choice((255, 256, 300, 65535, 65536, 70000)), .5, 2)
            pages.append((r.choice((0, 0, 1, 2)), r.randbytes(n)))
        if pages and r.random() < .03: pages[r.randrange(len(pages))] = (r.randrange(3), b"\7" * ((1 << 24) + r.randrange(2)))
        m["pages"] = pages; m["head"] = b"MMPD" + m["v"].to_bytes(4, "little")
        f = dict(self.good); m["p"] = r.choice((b"d/run.mm_profdata", b"run", b"a.b.mm_profdata"))
        f[FILE] = m["p"]; f[DATA] = m["head"] + self.raw(pages)
        return f
    def raw(self, pages): return b"".join(bytes([t]) + len(b).to_bytes(4, "little") + b for t, b in pages)
    def kept(self):
        seen = False; out = []
        for t, b in self.memo["pages"]:
            if t == 0 and seen: continue
            seen |= t == 0; out.append((t, b))
        return out

@rule("C27")
def c27_truncate(cx):
    X = Edit(cx); memo = X.memo
    kw = dict(where=X.R.where, interp=X.R.I, total=True, need=150, tries=500)
    def out(vs):
        if not succeeded(vs[0]): return False
        d = ondisk(vs[0][4])
        return None if d is None else d
    def result(vs):
        d = out(vs)
        if not isinstance(d, dict): return d, None
        if len(d) != 1: return False, None
        v, = d.values()
        try: return True, bytes(v)
        except (TypeError, ValueError): return None, None
    def pages(b):
        i = 8; ps = []
        while i < len(b):
            if i + 5 > len(b): return None
            n = int.from_bytes(b[i + 1:i + 5], "little")
            ps.append((b[i], b[i + 5:i + 5 + n])); i += 5 + n
        return ps
    cl = (lambda e, vs: (memo["v"], min(2, sum(t == 0 for t, _ in memo["pages"]))), {(9, 0), (9, 1), (9, 2), (8, 2), (7, 1)})
    def T_(fn):
        def test(e, vs):
            k_, b = result(vs)
            return k_ if k_ is not True else fn(b)
        return test
    cx.holds("a profile of a supported version is truncated successfully", [X.t], lambda e, vs: succeeded(vs[0]), fixed=X.fx, classes=cl, **kw)
    cx.holds("the file header is kept", [X.t], T_(lambda b: b[:8] == memo["head"]), fixed=X.fx, classes=cl, **kw)
    cx.holds("every string page is kept, unchanged and in order", [X.t], T_(lambda b: [p for p in pages(b) or [] if p[0]] == [p for p in memo["pages"] if p[0]]), fixed=X.fx, classes=cl, **kw)
    cx.holds("exactly the first event page is kept", [X.t], T_(lambda b: [p for p in pages(b) or [] if not p[0]] == [p for p in memo["pages"] if not p[0]][:1]), fixed=X.fx, classes=cl, **kw)
    cx.holds("the pages stay where they were in relation to each other", [X.t], T_(lambda b: pages(b) == X.kept()), fixed=X.fx, classes=cl, **kw)
    def other(e, vs):
        d = ondisk(vs[0][4]) if unagg(vs[0], "spec.Out") else None
        cr = vs[0][5] if unagg(vs[0], "spec.Out") else None
        if d is None or not isinstance(cr, tuple): return None
        return memo["p"] not in d and all(isinstance(x, (bytes, tuple)) and x[:1] != ("agg",) and bytes(x) != memo["p"] for x in cr)
    cx.holds("the input file is not touched", [X.t], other, fixed=X.fx, **kw)
    def bad(r):
        f = X.fx(r); w = r.randrange(4); m = memo["bad"] = w; b = bytearray(f[DATA])
        if w == 0: b[4:8] = r.choice((0, 1, 6, 10, 255, 1 << 20)).to_bytes(4, "little")
        elif w == 1: b[r.randrange(4)] ^= 1 << r.randrange(8)
        elif w == 2: b = b[:r.randrange(8)]
        else: b[4:8] = r.choice((5, 10, 0x01000009, 11)).to_bytes(4, "little")
        f[DATA] = bytes(b); return f
    def rejected(e, vs):
        f = unagg(vs[0], "spec.Out")
        if f is None or unagg(f[0], RES) is None: return None
        d = ondisk(f[1])
        if f[0][2] == 1: return f[2] in ((), b"")
        return False
    cx.holds("anything else is rejected with an error and nothing is written", [X.t], rejected, fixed=bad, classes=(lambda e, vs: memo["bad"], {0, 1, 2, 3}), **kw)
