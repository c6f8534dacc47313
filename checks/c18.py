"""Default-constructed objects are valid empty objects with every field initialised."""
from .objlib import *

TITLE = "empty objects"
MODS = {"main": ("objs.cpp", 1, 0, ()), "ndebug": ("objs.cpp", 1, 0, ("-DNDEBUG",))}
LAYOUT = "objs.cpp"
LEN = ["bv", "rs", "bp", "d1", "d0", "d64", "ef", "el", "ec", "gv", "gb", "nb", "ct", "tk", "tm", "mv"]


def tainted(v):
    return not isinstance(v, (Ptr, int)) and any(D.TAG[a] == "uninit" for a in D.deps_free(D.atoms_of(v)))


def j_empty(r, key, P):
    out = Out()

    def body(c):
        o = c.call(P + "_empty")
        sc, arr = snapshot(c, P, o)
        for k, (v, w) in sc.items():
            c.true("field %s is initialised" % k, not tainted(v), "%s holds an indeterminate value" % k)
        for k, (p, n, es) in arr.items():
            c.eq("array %s is empty" % k, n, 0)
        if P in LEN:
            c.eq("size", c.call(P + "_len", o), 0)
        if P in ("rs", "bp", "ef"):
            c.eq("number of ones", c.call(P + "_ones", o), 0)
        if P == "rs":
            c.eq("number of zeros", c.call("rs_zeros", o), 0)
            c.eq("rank(0)", c.call("rs_rank", o, 0), 0)
        if P == "el":
            c.eq("sum", c.call("el_sum", o), 0)
        f = out.open(c)
        w = c.call(P + "_freeze", o, f.stream, 0)
        c.eq("an empty object can be frozen", w, f.cur)
        for q in range(0, f.cur if type(f.cur) is int else 0, 1):
            v = c.I.load(Ptr(f.rid, q), 1)
            c.true("byte %d of the file is initialised" % q, not tainted(v), "an indeterminate byte is written to the file")
        base = f.close()
        m = c.call(P + "_empty")
        c.call(P + "_map", m, base, 1)
        same_state(c, "mapped back", full(c, P, o), full(c, P, m))
        c.call(P + "_swap", o, m)
        c.call(P + "_dispose", o)
        if P in LEN:
            c.eq("size after dispose", c.call(P + "_len", o), 0)
        c.call(P + "_del", o)
        c.call(P + "_del", m)
        leaks(c, "after destruction")
    ctx(r, key, "default-constructed %s" % NAME[P], body, steps=400000, models=out.models)


def j_built(r, key, P, i):
    """objects built from empty or other input: no field left indeterminate either"""
    out = Out()
    sh = shapes(P)

    def body(c):
        o = sh[i][1](c)
        sc, arr = snapshot(c, P, o)
        for k, (v, w) in sc.items():
            c.true("field %s is initialised" % k, not tainted(v), "%s holds an indeterminate value" % k)
        for k, (p, n, es) in arr.items():
            if type(n) is int:
                for q, v in contents(c, p, n, es):
                    c.true("%s[%s] is initialised" % (k, q), not tainted(v), "%s[%s] holds an indeterminate value" % (k, q))
        c.call(P + "_del", o)
    ctx(r, key, "initialisation of %s: %s" % (NAME[P], sh[i][0]), body, steps=4000000, models=out.models)


def jobs(tier):
    out = [(j_empty, (k, P)) for P in TYPES for k in MODS]
    out += [(j_built, ("main", P, i)) for P in TYPES for i in range(len(shapes(P)))]
    return out
