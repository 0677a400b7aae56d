"""Runs the static checks of one property and writes its evidence.
usage: check.py PROPERTY [--tier quick|thorough]"""
import sys, os, json, time, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import facts
from interp import *
import randint, importlib

EVID = os.environ.get("MM_EVIDENCE", os.path.join(VERIF, "evidence"))
RULES = {}
def rule(*ids):
    def deco(f):
        for i in ids: RULES.setdefault(i, []).append(f)
        return f
    return deco

class Missing(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier
        self.obs = []           # obligations
        self.violations = []
        self.notes = []
        self.functions = set()
        self.progs = {}
        self.dir = None; self.bigdir = None
        self.assumptions = []
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
    # ---- programs
    def prog(self, crate, big=False):
        key = (crate, big)
        if key in self.progs: return self.progs[key]
        if big:
            if self.bigdir is None: self.bigdir = facts.extract(True)
            d = self.bigdir
        else:
            if self.dir is None: self.dir = facts.extract(False)
            d = self.dir
        for kd in ("lib", "bin"):
            p = os.path.join(d, "%s.%s.json" % (crate, kd))
            if os.path.exists(p):
                self.progs[key] = Prog(json.load(open(p)))
                return self.progs[key]
        raise Missing("no facts for crate %s" % crate)
    def fn(self, P, path, pred=None):
        f = P.fn(path, pred=pred)
        if f is None: raise Missing("function %s" % path)
        return f
    def interp(self, P, contracts=True, **kw):
        I = Interp(P, **kw)
        def obs(kd, d):
            if kd == "enter": self.functions.add(d["fn"]["path"])
        I.observers.append(obs)
        if contracts:
            import contracts as CT
            CT.install(I)
        return I
    # ---- verdicts
    def ok(self, name, how="", where=""):
        self.obs.append({"obligation": name, "status": "discharged", "how": how, "where": where})
    def undecided(self, name, why, where=""):
        self.obs.append({"obligation": name, "status": "undecided", "why": str(why)[:400], "where": where})
    def violation(self, name, what, where=""):
        self.obs.append({"obligation": name, "status": "violated", "why": str(what)[:2000], "where": where})
        self.violations.append({"obligation": name, "what": str(what), "where": where})
    def same(self, name, got, want, facts=(), where="", what="", ok_unknown=(), tries=400, fixed=None, interp=None, need=40, partial=False, total=False):
        """got must equal want under facts (list of (cond, bool))."""
        if got is None:
            self.undecided(name, "value not determined", where); return None
        v = randint.equal(got, want, facts=list(facts), seed=self.seed, ok_unknown=ok_unknown, tries=tries, fixed=fixed, interp=interp, need=need, partial=partial, total=total)
        if v.kind == "eq":
            self.ok(name, v.why, where); return True
        if v.kind == "ne" and len(v.sample) == 2 and v.sample[0] == "panics or does not return":
            self.violation(name, (what or name) + ": panics or does not return", where); return False
        if v.kind == "ne":
            self.violation(name, (what + ": " if what else "") + "computed value is\n   %s\n instead of\n   %s\n e.g. %s instead of %s" %
                           (show(got)[:1500], show(want)[:800], short(v.sample[0]), short(v.sample[1])), where)
            return False
        self.undecided(name, v.why, where)
        return None
    def holds(self, name, terms, test, facts=(), where="", what="", show_as=None, classes=None, **kw):
        """test(env, values) must be True for all values the terms can have.
        classes=(f, keys): f(env, values) names the kind of a case; a verdict needs every kind in keys seen"""
        kw.setdefault("interp", None)
        seen = set()
        if classes is not None:
            inner = test
            def test(env, vs):
                r = inner(env, vs)
                if r: seen.add(classes[0](env, vs))
                return r
        v = randint.check(terms, test, facts=list(facts), seed=self.seed, **kw)
        if v.kind == "eq" and classes is not None and set(classes[1]) - seen:
            self.undecided(name, "no case of kind %s could be evaluated" % sorted(map(str, set(classes[1]) - seen)), where)
            return None
        if v.kind == "eq": self.ok(name, v.why, where); return True
        if v.kind == "ne":
            self.violation(name, "%s: the computed values are\n   %s\n e.g. %s" % (what or name, "\n   ".join(show(t)[:1200] for t in terms), "; ".join(short(x) for x in v.sample[:-1])), where)
            return False
        self.undecided(name, v.why, where)
        return None
    def require(self, name, cond, what, where="", how="structural"):
        if cond: self.ok(name, how, where)
        else: self.violation(name, what, where)
        return bool(cond)

def short(x, n=200):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "…"

def where(fn): return "%s:%s %s" % (fn["file"], fn["line"], fn["path"])

KNOWN = os.path.join(VERIF, "known_findings.json")
def known(prop):
    try: d = json.load(open(KNOWN))
    except FileNotFoundError: return []
    return [f for f in d.get("findings", []) if f["property"] == prop]

def run(prop, tier):
    t0 = time.time()
    cx = Ctx(prop, tier)
    errors = []
    fatal = None
    for r in RULES.get(prop, []):
        try:
            r(cx)
        except facts.BuildError as e:
            fatal = str(e); break
        except Missing as e:
            errors.append("missing anchor: %s" % e)
            cx.undecided(r.__name__, "missing anchor: %s" % e)
        except (Undecided, RecursionError) as e:
            cx.undecided(r.__name__, "analysis gave up: %s" % e)
        except Exception as e:
            if os.environ.get("MM_DEBUG"): traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            cx.undecided(r.__name__, "analysis failed: %r at %s:%s" % (e, os.path.basename(tb.filename), tb.lineno))
    if fatal:
        print("cannot analyse the tree: %s" % fatal)
        return 2
    ids = {}
    for o in cx.obs:
        ids[o["obligation"]] = ids.get(o["obligation"], 0) + 1
    n = len(cx.obs)
    disch = sum(1 for o in cx.obs if o["status"] == "discharged")
    und = [o for o in cx.obs if o["status"] == "undecided"]
    kf = known(prop)
    listed, fresh = [], []
    for v in cx.violations:
        hit = [f for f in kf if f["obligation"] == v["obligation"] and f.get("where", "") in v["where"]]
        (listed if hit else fresh).append((v, hit))
    ev = {"property": prop, "tier": tier, "seed": cx.seed, "level": "other",
          "coverage": {
              "explanation": "Static analysis of /repo's current source: the compiler's MIR of every workspace crate is "
              "interpreted abstractly over value-graph terms (all inputs, all loop counts at once); each obligation is a "
              "rule of the property decided on the resulting terms, events or types. Nothing of the code under analysis is run.",
              "obligations": n, "discharged": disch, "undecided": len(und), "violated": len(cx.violations),
              "functions_analysed": len(cx.functions),
              "functions": sorted(cx.functions)[:200],
              "details": cx.obs[:400],
              "notes": cx.notes[:50]},
          "assumptions": cx.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in und: print("UNDECIDED %s: %s [%s]" % (o["obligation"], o.get("why", ""), o.get("where", "")))
    for v, hit in listed: print("KNOWN-FINDING: property=%s %s" % (prop, hit[0].get("what", v["obligation"])))
    if fresh:
        rp = os.path.join(EVID, prop + ".replay.txt")
        with open(rp, "w") as f:
            for v, _ in fresh:
                f.write("obligation: %s\nat: %s\n%s\n\n" % (v["obligation"], v["where"], v["what"]))
        for v, _ in fresh:
            print("violated: %s\n at %s\n %s" % (v["obligation"], v["where"], v["what"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs" % (prop, n, disch, len(und), len(cx.functions), time.time() - t0))
    if n == 0 or (disch == 0 and errors): 
        return 2
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import check     # the registry lives in the module, not in __main__
    for m in sorted(os.listdir(HERE)):
        if m.startswith("rules_") and m.endswith(".py"): importlib.import_module(m[:-3])
    if a.property == "all":
        rc = 0
        for p in sorted(check.RULES):
            rc |= check.run(p, a.tier)
        return rc
    return check.run(a.property, a.tier)

if __name__ == "__main__":
    sys.exit(main())
