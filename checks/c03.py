"""Neighbour queries and scans stop at exactly the right bit."""
from engine import dom as D
from .bitlib import *
from .common import ctx as _ctx

TITLE = "neighbour queries"
WIDTH = r"10bit_vector(10enumerator|16unary_enum|1[0-9](pred|succ))"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bits.cpp", 1, 0, ())}


def ctx(r, label, body):
    _ctx(r, "main", label, body)


def build(c, bits, where):
    """a vector in which `bits` (64*k literals or fewer) start at word `base`"""
    nb = len(bits)
    if where == "mid":
        nw = (nb + 63) // 64
        S = Store(c, 0, "sym", gmin=nw, jmin=1)
        base = S.j
    elif where == "end":
        S = Store(c, nb % 64, "sym")
        base = add(S.B, -(nb // 64))
    else:                                  # the whole vector
        S = Store(c, nb % 64, nb // 64)
        base = 0
    W = {}
    for k in range(0, nb, 64):
        ch = list(bits[k:k + 64])
        if len(ch) < 64:
            if where == "mid":
                ch += c.bits("pad", 64 - len(ch))
            else:
                ch += [0] * (64 - len(ch))
        i = base + k // 64 if type(base) is int else add(base, k // 64)
        W[i] = ch
    p = c.call("hb_data", S.b)
    reg = c.I.st.reg(p.r, True)
    for i, ch in W.items():
        S.poke(reg, i, ch)
    S.v = c.call("hv_from", S.b)
    S.base = base
    return S


def pos(S, k):
    return add(mul64(S.base), k)


def j_succ(r, t, ps):
    for p in ps:
        if p < t:
            continue
        for bit, fn in ((1, "hv_succ1"), (0, "hv_succ0")):
            for where in ("mid", "end", "whole"):
                def body(c):
                    n = p + 1 if where != "mid" else (p // 64 + 1) * 64
                    b = c.bits("a", t) + [1 - bit] * (p - t) + [bit] + c.bits("z", n - p - 1)
                    S = build(c, b, where)
                    c.eq("successor%d" % bit, c.call(fn, S.v, pos(S, t)), pos(S, p))
                ctx(r, "successor%d(+%d) with the answer at +%d (%s)" % (bit, t, p, where), body)


def j_pred(r, t, ps):
    # answer at p <= query q; p in word 0, q = p + distance
    for q in ps:
        if q < t:
            continue
        for bit, fn in ((1, "hv_pred1"), (0, "hv_pred0")):
            for where in ("mid", "end", "whole"):
                def body(c):
                    n = q + 1 if where != "mid" else (q // 64 + 1) * 64
                    b = c.bits("a", t) + [bit] + [1 - bit] * (q - t) + c.bits("z", n - q - 1)
                    S = build(c, b, where)
                    c.eq("predecessor%d" % bit, c.call(fn, S.v, pos(S, q)), pos(S, t))
                ctx(r, "predecessor%d(+%d) with the answer at +%d (%s)" % (bit, q, t, where), body)


def j_skipzeros(r, t, ps):
    for p in ps:
        if p < t:
            continue
        for pre in ("", "next", "take"):
            d = {"": 0, "next": 1, "take": 20}[pre]
            if t < d:
                continue

            def body(c):
                n = (p // 64 + 2) * 64
                b = c.bits("a", t) + [0] * (p - t) + [1] + c.bits("z", n - p - 1)
                S = build(c, b, "mid")
                E = c.call("he_new", S.v, pos(S, t - d))
                if pre == "next":
                    c.call("he_next", E)
                elif pre == "take":
                    c.call("he_take", E, d)
                c.eq("skip_zeros() counts", c.call("he_skip_zeros", E), p - t)
                c.eq("position after skip_zeros", c.call("he_pos", E), pos(S, p + 1))
                c.eq("bit after it", c.call("he_next", E), D.from_bits(1, [b[p + 1]]), 1)
                c.eq("bits after it", c.call("he_take", E, 40), zx(b[p + 2:p + 42]))
            ctx(r, "skip_zeros at +%d after %s, next one at +%d" % (t, pre or "construction", p), body)

            def body_end(c):
                b = c.bits("a", t) + [0] * (p - t) + [1]
                S = build(c, b, "end")
                E = c.call("he_new", S.v, pos(S, t - d))
                if pre == "next":
                    c.call("he_next", E)
                elif pre == "take":
                    c.call("he_take", E, d)
                c.eq("skip_zeros() counts", c.call("he_skip_zeros", E), p - t)
                c.eq("position after skip_zeros", c.call("he_pos", E), pos(S, p + 1))
            ctx(r, "skip_zeros at +%d after %s, the last bit +%d is the one" % (t, pre or "construction", p), body_end)


def cnt(lits):
    """number of ones among literals"""
    f = (0, {})
    for l in lits:
        f = D.ladd(f, D.lit_form(l))
    return D.mke(64, f[0], f[1])


def j_unary_next(r, t, ps):
    for p in ps:
        if p < t:
            continue
        for where in ("mid", "end", "whole"):
            def body(c):
                n = p + 1 if where != "mid" else (p // 64 + 3) * 64
                b = c.bits("a", t) + [0] * (p - t) + [1]
                # a second one further on
                p2 = p + 1 + (p * 7 + t) % 100
                if where == "mid":
                    b += [0] * (p2 - p - 1) + [1] + c.bits("z", n - p2 - 1)
                S = build(c, b, where)
                U = c.call("hu_new", S.v, pos(S, t))
                c.eq("position()", c.call("hu_pos", U), pos(S, t))
                c.eq("next()", c.call("hu_next", U), pos(S, p))
                c.eq("position()", c.call("hu_pos", U), pos(S, p))
                if where == "mid":
                    c.eq("second next()", c.call("hu_next", U), pos(S, p2))
            ctx(r, "unary next() from +%d, next one at +%d (%s)" % (t, p, where), body)


def j_skip(r, t, ps):
    for p in ps:
        if p < t:
            continue
        for where in ("mid", "end"):
            def body(c):
                n = p + 1 if where == "end" else (p // 64 + 1) * 64
                b = c.bits("a", n)
                b[p] = 1
                S = build(c, b, where)
                k = cnt(b[t:p])
                U = c.call("hu_new", S.v, pos(S, t))
                c.eq("skip_no_move(k)", c.call("hu_skip_no_move", U, k), pos(S, p))
                c.eq("position() unchanged", c.call("hu_pos", U), pos(S, t))
                c.call("hu_skip", U, k)
                c.eq("position after skip(k)", c.call("hu_pos", U), pos(S, p))
                c.eq("next() after skip(k)", c.call("hu_next", U), pos(S, p))
            ctx(r, "skip(k) from +%d to the one at +%d (%s)" % (t, p, where), body)

            def body0(c):
                n = p + 1 if where == "end" else (p // 64 + 2) * 64
                b = c.bits("a", n)
                b[p] = 0
                q = p + 1 + (p * 5 + t) % 60
                if where == "mid":
                    b[p + 1:q + 1] = [0] * (q - p - 1) + [1]
                S = build(c, b, where)
                k = cnt([D.lnot(x) for x in b[t:p]])
                U = c.call("hu_new", S.v, pos(S, t))
                c.call("hu_skip0", U, k)
                c.eq("position after skip0(k)", c.call("hu_pos", U), pos(S, p))
                if where == "mid":
                    c.eq("next() after skip0(k)", c.call("hu_next", U), pos(S, q))
            ctx(r, "skip0(k) from +%d to the zero at +%d (%s)" % (t, p, where), body0)
        if p > t:
            # after next(): counting starts strictly behind the one that was returned
            def body_n(c):
                n = (p // 64 + 1) * 64
                b = c.bits("a", n)
                b[t] = 1
                b[p] = 1
                S = build(c, b, "mid")
                U = c.call("hu_new", S.v, pos(S, t))
                c.eq("next()", c.call("hu_next", U), pos(S, t))
                c.call("hu_skip", U, cnt(b[t + 1:p]))
                c.eq("skip(k) after next()", c.call("hu_pos", U), pos(S, p))
            ctx(r, "next() then skip(k) from +%d to +%d" % (t, p), body_n)

            def body_0(c):
                n = (p // 64 + 1) * 64
                b = c.bits("a", n)
                b[t] = 1
                b[p] = 0
                S = build(c, b, "mid")
                U = c.call("hu_new", S.v, pos(S, t))
                c.call("hu_next", U)
                c.call("hu_skip0", U, cnt([D.lnot(x) for x in b[t + 1:p]]))
                c.eq("skip0(k) after next()", c.call("hu_pos", U), pos(S, p))
            ctx(r, "next() then skip0(k) from +%d to +%d" % (t, p), body_0)


def jobs(tier):
    J = []
    for t in range(64):
        if tier == "thorough":
            ps = list(range(t, 64 * 5))
        else:
            ps = sorted({t, t + 1, 62, 63, 64, 65, 127, 128, 191, 192, 255, 256} | {(t * 29 + i * 37) % 260 for i in range(6)})
        for f in (j_succ, j_pred, j_skipzeros, j_unary_next, j_skip):
            J.append((f, (t, ps)))
    return J
