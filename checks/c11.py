"""Freeze then map restores every persistent structure exactly."""
from .objlib import *

TITLE = "persistence"
WIDTH = r"^mapper\.hpp"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("objs.cpp", 1, 0, ())}
LAYOUT = "objs.cpp"


def j_round(r, key, P, label, mk, flags, chained, hav=False):
    out = Out()

    def body(c):
        o = mk(c)
        if hav:
            havoc(c, P, o)
        before = full(c, P, o)
        f = out.open(c)
        if chained:
            out.write(c.I, [f.stream, Ptr(c.I.new_region("pre", "input", 8, "free"), 0), 8], None)
        c.call(P + "_freeze", o, f.stream, c.word("fl"))
        same_state(c, "freezing leaves the object as it was", before, full(c, P, o))
        base = f.close()
        if chained:
            base = Ptr(base.r, 8)
        m = c.call(P + "_empty")
        c.call(P + "_map", m, base, flags)
        after = full(c, P, m)
        same_state(c, "mapped copy", before, after)
        # a second generation: freezing the mapped object gives the same file again
        f2 = out.open(c)
        c.call(P + "_freeze", m, f2.stream, 0)
        base2 = f2.close()
        m2 = c.call(P + "_empty")
        c.call(P + "_map", m2, base2, 0 if "any B" in label else 1 - flags)
        same_state(c, "copy of the mapped copy", before, full(c, P, m2))
        # the original may go away, the mapped copies stay valid
        c.call(P + "_del", o)
        same_state(c, "mapped copy after the original is destroyed", before, full(c, P, m))
        # mapping again into an object that already holds something
        c.call(P + "_map", m2, base, 0)
        same_state(c, "mapped over an existing object", before, full(c, P, m2))
        c.call(P + "_del", m)
        c.call(P + "_del", m2)
        leaks(c, "after everything is destroyed")
    ctx(r, key, "freeze and map of %s: %s%s%s%s" % (NAME[P], label, ", all fields and elements arbitrary" if hav else "", ", warm-up" if flags else "", ", not first in the file" if chained else ""), body, steps=4000000, models=out.models)


def j_over(r, key, P, i, j):
    """mapping into an object that owns storage releases it and takes over the file's contents"""
    out = Out()
    sh = shapes(P)

    def body(c):
        o = sh[i][1](c)
        f = out.open(c)
        before = full(c, P, o)
        c.call(P + "_freeze", o, f.stream, 0)
        base = f.close()
        m = sh[j][1](c)
        c.call(P + "_map", m, base, 0)
        same_state(c, "mapped over a built object", before, full(c, P, m))
        c.call(P + "_del", m)
        c.call(P + "_del", o)
        leaks(c, "after everything is destroyed")
    ctx(r, key, "%s: map (%s) into an object built from (%s)" % (NAME[P], sh[i][0], sh[j][0]), body, steps=4000000, models=out.models)


def jobs(tier):
    out = []
    for P in TYPES:
        sh = shapes(P, tier)
        for i, (label, mk) in enumerate(sh):
            for fl in (0, 1):
                if fl and "any B" in label:
                    continue
                out.append((j_round, ("main", P, label, mk, fl, (i + fl) & 1)))
                if "any B" not in label:
                    out.append((j_round, ("main", P, label, mk, 1 - fl, (i + fl) & 1, True)))
        n = len(shapes(P))
        for i in range(n):
            out.append((j_over, ("main", P, i, (i * 5 + 3) % n)))
    return out
