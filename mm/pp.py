"""Pretty-prints functions from the facts: pp.py CRATE REGEX [--big]"""
import json, re, sys, glob, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
def place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        k = e[0]
        s = {"*": lambda: "(*%s)" % s, "f": lambda: "%s.%s" % (s, e[2] or e[1]), "i": lambda: "%s[_%d]" % (s, e[1]),
             "c": lambda: "%s[%s%d]" % (s, "-" if e[3] else "", e[1]), "s": lambda: "%s[%d..%s%d]" % (s, e[1], "-" if e[3] else "", e[2]),
             "v": lambda: "(%s as %s)" % (s, e[2]), "?": lambda: s + ".?"}[k]()
    return s
def const(v):
    k = v[0]
    if k == "int": return v[1]
    if k == "str": return json.dumps(v[1], ensure_ascii=False)
    if k == "bytes": return "b" + repr(bytes(v[1]))[1:]
    if k == "ref": return "&" + const(v[1])
    if k == "arr": return "[" + ",".join(map(const, v[1])) + "]"
    if k == "adt": return "adt#%d(%s)" % (v[1], ",".join(map(const, v[2])))
    return k
def op(o):
    if o[0] == "k": return "const " + const(o[2]) + (" {%s}" % o[3] if len(o) > 3 else "")
    return ("move " if o[0] == "mv" else "") + place(o[1])
def rv(d, r):
    k = r[0]
    if k == "use": return op(r[1])
    if k == "ref": return "&%s%s" % ("mut " if r[1] else "", place(r[2]))
    if k == "rawptr": return "&raw %s" % place(r[2])
    if k == "cast": return "%s as %s (%s)" % (op(r[2]), d["types"][r[4]]["s"], r[1])
    if k == "bin": return "%s(%s, %s)" % (r[1], op(r[2]), op(r[3]))
    if k == "un": return "%s(%s)" % (r[1], op(r[2]))
    if k == "discr": return "discr(%s)" % place(r[1])
    if k == "agg":
        a = r[1]
        n = a[0] if a[0] not in ("adt", "closure") else d["types"][a[1]]["s"][:60] + ("#%d" % a[2] if a[0] == "adt" else "")
        return "%s{%s}" % (n, ", ".join(map(op, r[2])))
    if k == "repeat": return "[%s; %s]" % (op(r[1]), r[2])
    return str(r)
def callee(d, t):
    T = d["types"][t]
    if T["k"] == "fndef":
        c = T["callee"]
        return "%s -> %s %s%s" % (c["path"], c.get("kind"), c.get("res") if c.get("res") != c["path"] else "", "[fn %s]" % c["fn"] if "fn" in c else "")
    return T["s"]
def show(d, f):
    print("fn #%d %s (%s:%d) argc=%d %s%s" % (f["id"], f["path"], f["file"], f["line"], f["argc"], "pub " if f["pub"] else "", [d["types"][t]["s"] for t in f["targs"]]))
    if f.get("upnames"): print("   upvars", f["upnames"])
    for i, l in enumerate(f["locals"]):
        print("   _%d: %s %s" % (i, d["types"][l[0]]["s"][:110], l[1] if len(l) > 1 else ""))
    for i, b in enumerate(f["blocks"]):
        if b.get("cleanup"): continue
        print("  bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=": print("     %s = %s" % (place(s[1]), rv(d, s[2])))
            elif s[0] not in ("dead", "live"): print("     ", s)
        t = b["t"]
        if t[0] == "call": print("     %s = call %s (%s) -> %s  @%s %s" % (place(t[3]), callee(d, t[1]), ", ".join(map(op, t[2])), t[4], t[6], t[8] or ""))
        elif t[0] == "switch": print("     switch %s %s else %d" % (op(t[1]), t[2], t[3]))
        elif t[0] == "drop": print("     drop %s : %s -> %d" % (place(t[1]), d["types"][t[4]]["s"], t[2]))
        else: print("     ", t)
if __name__ == "__main__":
    big = "--big" in sys.argv
    if big: sys.argv.remove("--big")
    d0 = facts.extract(big)
    f = glob.glob(d0 + "/" + sys.argv[1] + ".*.json")[0]
    d = json.load(open(f))
    for x in d["fns"]:
        if re.search(sys.argv[2], x["path"]):
            show(d, x)
