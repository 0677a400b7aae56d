"""C42: reading a profile ends: no reading loop can repeat its state, no string is expanded within itself."""
from check import *
import models as M, contracts as CT, randint, random
import rules_decode as RD
from rules_decode import *
from rules_account import Account, PDT, LWT, fields

def ends(cx, name, terms, where, interp, fixed, facts=(), need=150):
    """no assignment makes a loop of the code under analysis repeat its state"""
    v = randint.check(terms, lambda env, vs: True, facts=list(facts), seed=cx.seed, fixed=fixed, interp=interp, total="progress", need=need, tries=4 * need)
    if v.kind == "ne": cx.violation(name, "does not return: a loop comes round to the same state (%s)" % short(v.sample[0]), where)
    elif v.kind == "eq": cx.ok(name, "no repeated loop state in " + v.why, where)
    else: cx.undecided(name, v.why, where)

# ---- damaged inputs
def damage(r, b):
    b = bytearray(b)
    for _ in range(r.choice((0, 1, 1, 2, 4))):
        m = r.random(); p = r.randrange(8, len(b) + 1)
        if m < .3 and p < len(b): b[p] = r.choice((0, 0xff, 0xfe, 0x1e, 0x61, 0xc3))
        elif m < .5: del b[p:p + r.choice((1, 2, 9))]
        elif m < .7: b[p:p] = r.choice((b"\xfe", b"\xff", b"\xc3", b"\xff\xff", b"\xfe\xfe", b"\x80\xff"))
        elif m < .8: b[p:] = b""
    return bytes(b)

def table_case(r, i=None):
    d, x, ids = rand_table(r)
    d = damage(r, d)
    if i is None: i = r.choice(ids + [FIRST + r.randrange(len(d) + 2)])
    return {D: d, X: x, ID: i}

def read_string(cx, P, name, how):
    """outcomes of asking a table for a string, and for its text"""
    I = cx.interp(P); CT.install_readers(I)
    st, tb = table(cx, P, I)
    root, oroot = ("O", "spec-table"), ("O", "spec-out")
    st = st.copy(); st.mem[root] = tb; st.mem[oroot] = sym("spec.sofar", "seq")
    gs = I.call_fn(cx.fn(P, ST + how), [ref(root)] + ([sid(ID)] if how == "get" else []), st, 0)
    if not gs or len(gs) != 1: raise Undecided("StringTable::%s" % how)
    s, sr = gs[0]
    s = s.copy(); s.mem[("O", "spec-sref")] = sr
    f = cx.fn(P, SR + name)
    outs = I.call_fn(f, [ref(("O", "spec-sref"))] + ([ref(oroot)] if name == "write_to_string" else []), s, 0)
    t = cases(outs, base=set(s.facts.d)) if name == "to_string" else cases(outs, lambda s_, v: s_.mem[oroot], base=set(s.facts.d))
    return I, t, where(f)

@rule("C42")
def c42_strings(cx):
    P = cx.prog("decodeme")
    for name in ("to_string", "write_to_string"):
        I, t, wh = read_string(cx, P, name, "get")
        ends(cx, "reading a string ends for any bytes (%s)" % name, [t, D, X, ID], wh, I, table_case)

@rule("C42")
def c42_self(cx):
    """the expansion of a string asks for the text of the references in it: never for its own"""
    P = cx.prog("decodeme")
    I, t, wh = read_string(cx, P, "write_to_string", "get")
    seen = {"own": None, "n": 0}
    def fx(r):
        v = r.choice((0, 3, USERMAX)); at = 8
        body = r.choice((b"", b"ab", b"x\xc3\xa9")); i = r.choice((v, FIRST + at))
        d = HDR["data"] + body + b"\xfe" + i.to_bytes(8, "little") + r.choice((b"", b"y")) + b"\xff"
        x = HDR["index"] + v.to_bytes(8, "little") + at.to_bytes(8, "little")
        def text(env, j):
            seen["n"] += 1
            if j == i: seen["own"] = (i, d, x)
            return b"t"
        return {D: d, X: x, ID: i, "text": text}
    v = randint.check([t, D, X, ID], lambda env, vs: True, seed=cx.seed, fixed=fx, interp=I, need=20, tries=60)
    nm = "a string that refers to itself is not expanded within itself"
    if seen["own"]: cx.violation(nm, "expanding the string with id %d of a table with data %s and index %s expands that string again, without end" % seen["own"], wh)
    elif v.kind == "eq" and seen["n"] == 0: cx.ok(nm, v.why, wh)
    else: cx.undecided(nm, v.why, wh)

@rule("C42")
def c42_events(cx):
    P, I, s0, dec, meta, start, res = c18_run(cx)
    def fx(r):
        b, i = rand_events(r)
        def text(env, j):
            rr = random.Random(repr((env.seed, j)))
            return rr.choice((id_text(rr), b"\x1e" * rr.randrange(4), id_text(rr) + b"\x1e", b"\x1e" + id_text(rr)))
        return {E_: b, IX: i, "text": text}
    for name in ("decode_full_event", "decode_lightweight_event"):
        outs, wh = res[name]
        ends(cx, "decoding an event ends for any event id text (%s)" % name, [cases(outs, base=set(s0.facts.d)), E_, IX], wh, I, fx)

@rule("C42")
def c42_pages(cx):
    import rules_sink as RS
    P = cx.prog("measureme")
    f = cx.fn(P, "measureme::serialization::split_streams")
    args = symargs(P, f)
    I = cx.interp(P, contracts=False); I.fact_limit = 3
    outs = I.call_fn(f, args, State(), 0)
    data = mk("deref", args[0], ty="seq")
    def fx(r):
        b = RS.container(r, sizes=(1, 2, 5, 255, 256, 257))
        for _ in range(r.choice((0, 1, 1, 2))):
            if not b: break
            p = r.randrange(len(b)); m = r.random()
            if m < .4: b = b[:p] + bytes([r.choice((0, 1, 2, 3, 255))]) + b[p + 1:]
            elif m < .7: b = b[:p]
            else: b = b[:p] + r.choice((b"\0\0\0\0\0", b"\1\0\0\0\0", b"\2\0\0\0\0")) + b[p:]
        return {data: b}
    for s, v in outs:
        for i, n, d in RS.pagetags(P):
            ends(cx, "splitting the pages of any file ends (%s)" % n, [RS.lookup(v, agg(RS.PAGETAG, i, [])), data], where(f), I, fx, need=80)

@rule("C42")
def c42_analysis(cx):
    for path, pick in ((PDT + "perform_analysis", "val"), ("analyzeme::stack_collapse::collapse_stacks", "ref")):
        X = Account(cx, path, pick); X.jitter = True
        t = cases(X.outs, lambda s, v: s.simp(v), loopfacts=False)
        def fx(r, X=X):
            d = X.fx(r)
            if r.random() < .4:     # in no order a recorder would write
                p = list(range(len(d[X.lws]))); r.shuffle(p)
                for q in list(d): d[q] = tuple(d[q][i] for i in p)
                ix = X.lws; fl = fields(X.P, LWT).index("event_index") + 3
                d[ix] = tuple(e[:fl] + (n,) + e[fl + 1:] for n, e in enumerate(d[ix]))
            return d
        ends(cx, "%s ends for every sequence of events" % path.rsplit("::", 1)[1], [t], X.where, X.I, fx, need=120)
