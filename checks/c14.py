"""Exchanging or discarding objects moves their complete state."""
from .objlib import *

TITLE = "swap and dispose"
MODS = {"main": ("objs.cpp", 1, 0, ())}
LAYOUT = "objs.cpp"


def same_full(c, what, a, b):
    same_state(c, what, a, b)
    for k, (p, n, es, xs) in a[1].items():
        p2 = b[1][k][0]
        if isinstance(p, Ptr) and isinstance(p2, Ptr):
            c.true("%s: %s keeps its storage" % (what, k), p.r == p2.r or (type(n) is int and n == 0))


def j_swap(r, key, P, i, j, hav):
    sh = shapes(P)

    def body(c):
        a, b = sh[i][1](c), sh[j][1](c)
        if hav:
            havoc(c, P, a)
        sa, sb = full(c, P, a), full(c, P, b)
        c.call(P + "_swap", a, b)
        same_state(c, "after swap the first object has the state of the second", sb, full(c, P, a))
        same_state(c, "after swap the second object has the state of the first", sa, full(c, P, b))
        c.call(P + "_swap", a, a)
        same_state(c, "swapping an object with itself changes nothing", sb, full(c, P, a))
        c.call(P + "_swap", b, a)
        same_state(c, "swapping back restores the first object", sa, full(c, P, a))
        same_state(c, "swapping back restores the second object", sb, full(c, P, b))
        e = c.call(P + "_empty")
        se = full(c, P, e)
        c.call(P + "_dispose", a)
        same_state(c, "a disposed object equals a fresh one", se, full(c, P, a))
        same_state(c, "disposing one object leaves the other alone", sb, full(c, P, b))
        c.call(P + "_del", a)
        same_state(c, "destroying one object leaves the other alone", sb, full(c, P, b))
        c.call(P + "_del", b)
        c.call(P + "_del", e)
        leaks(c, "after destruction")
    ctx(r, key, "exchange of two %s: (%s)%s and (%s)" % (NAME[P], sh[i][0], " with arbitrary fields and elements" if hav else "", sh[j][0]), body, steps=4000000)


def j_mapped(r, key, P, i, j):
    """one of the two objects is mapped from a file"""
    sh = shapes(P)
    out = Out()

    def body(c):
        a, b = sh[i][1](c), sh[j][1](c)
        f = out.open(c)
        c.call(P + "_freeze", a, f.stream, 0)
        base = f.close()
        m = c.call(P + "_empty")
        c.call(P + "_map", m, base, 0)
        sa, sb = full(c, P, m), full(c, P, b)
        c.call(P + "_swap", m, b)
        same_state(c, "swapped out of a mapped object", sa, full(c, P, b))
        same_state(c, "swapped into a mapped object", sb, full(c, P, m))
        c.call(P + "_del", b)
        same_state(c, "destroying the mapped side leaves the other alone", sb, full(c, P, m))
        c.call(P + "_dispose", m)
        c.call(P + "_del", m)
        c.call(P + "_del", a)
        leaks(c, "after destruction")
    ctx(r, key, "exchange of a mapped %s (%s) and (%s)" % (NAME[P], sh[i][0], sh[j][0]), body, steps=4000000, models=out.models)


def j_builder(r, key, s1, s2):
    """builders: lengths 64*B1+s1 and 64*B2+s2; both stay usable after the exchange"""
    def body(c):
        A, Bb = Store(c, s1, "sym", name="u"), Store(c, s2, "sym", name="v")
        c.call("hb_swap", A.b, Bb.b)
        for S, o, nm in ((A, Bb, "second"), (Bb, A, "first")):
            c.eq("%s builder: size" % nm, c.call("hb_size", o.b), S.n)
            y = c.bits("y" + nm, 2)
            for z in y:
                c.call("hb_push", o.b, D.from_bits(1, [z]))
            c.eq("%s builder: size after two pushes" % nm, c.call("hb_size", o.b), D.add(S.n, 2, 64))
            t = list(S.last) + y
            for k in range(0, len(t), 64):
                ch = t[k:k + 64]
                c.eq("%s builder: last words after two pushes" % nm, c.call("hb_word", o.b, D.add(S.B, k // 64, 64)), D.from_bits(64, ch + [0] * (64 - len(ch))))
        c.call("hb_del", A.b)
        c.call("hb_del", Bb.b)
        leaks(c, "after destruction")
    ctx(r, key, "exchange of two builders of 64*B+%d and 64*B'+%d bits" % (s1, s2), body, steps=400000)


def jobs(tier):
    out = []
    for P in TYPES:
        n = len(shapes(P))
        for i in range(n):
            for j in range(n) if tier == "thorough" else sorted({(i + 1) % n, 0, n - 1}):
                if P == "bp" and n - 1 in (i, j) and tier != "thorough" and i != 0:
                    continue
                lab = shapes(P)[i][0] + shapes(P)[j][0]
                out.append((j_swap, ("main", P, i, j, ("any B" not in lab) and (i + j) & 1)))
            out.append((j_mapped, ("main", P, i, (i * 3 + 1) % n)))
    for s1 in (0, 1, 62, 63) if tier != "thorough" else range(64):
        for s2 in (0, 5, 63):
            out.append((j_builder, ("main", s1, s2)))
    return out
