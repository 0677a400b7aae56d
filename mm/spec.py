"""Helpers shared by the rule modules."""
from check import *
import models as M
from randint import has_mu
from rules_sink import symargs
from terms import *

PANIC = mk("panicked")
def u(bits=64): return ("int", False, bits)
def run(cx, P, path, args=None, st=None, contracts=True, pred=None, io_ok=False):
    """-> object with fn, I, outs, args, where"""
    class R: pass
    R.fn = cx.fn(P, path, pred); R.where = where(R.fn)
    R.I = cx.interp(P, contracts=contracts)
    if io_ok: R.I.io_ok = True
    R.args = symargs(P, R.fn) if args is None else args
    R.ev = []
    R.I.observers.append(lambda kd, d: R.ev.append((kd, d)))
    R.st = st or State()
    R.outs = R.I.call_fn(R.fn, R.args, R.st, 0)
    if R.outs is None: raise Undecided("not analysed: " + path)
    return R

def conj(facts):
    c = TRUE
    for t, v in facts: c = mk("band", c, t if v else not_(t), ty="bool") if c is not TRUE else (t if v else not_(t))
    return c

def cases(outs, pick=lambda s, v: v, other=PANIC, base=(), loopfacts=True):
    """One term for all outcomes of a function: the picked value of the
    outcome whose condition holds, `other` when it does not return.
    loopfacts=False: an only outcome is not conditioned on what a loop did."""
    t = other
    for s, v in reversed(outs):
        fs = [(c, b) for c, b in s.facts.d.items() if c not in base and (loopfacts or len(outs) > 1 or not has_mu(c))]
        c = conj(fs)
        w = pick(s, v)
        t = w if c is TRUE else mk("gamma", c, w, t)
    return t

def le(n, x): return mk("le", n, x, ty="seq")
def sid(x): return agg("measureme::stringtable::StringId", None, [x])
def eid(x): return agg("measureme::event_id::EventId", None, [sid(x)])
def addr(x): return agg("measureme::serialization::Addr", None, [x])
def leq(a, b): return not_(lt(b, a))
def both(*cs):
    t = cs[0]
    for c in cs[1:]: t = mk("band", t, c, ty="bool")
    return t
def ite(c, a, b):
    """gamma without simplification of the arms"""
    return a if c is TRUE else b if c is FALSE else mk("gamma", c, a, b)
