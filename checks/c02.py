"""Reads return exactly the stored bits."""
from engine import dom as D
from .bitlib import *
from .common import ctx as _ctx

TITLE = "reads"
WIDTH = r"succinct10bit_vector(C|7|8|4|ix|10get_bits|12get_word)|10bit_vector10enumerator"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bits.cpp", 1, 0, ())}


def ctx(r, label, body):
    _ctx(r, "main", label, body)


def vec(c, s, B="sym", gmin=0, jmin=0):
    S = Store(c, s, B, gmin=gmin, jmin=jmin)
    S.v = c.call("hv_from", S.b)
    return S


def words(S, idx):
    out = []
    for i in idx:
        out += list(D.bits(S.c.call("hv_word", S.v, i), 64))
    return out


def j_at(r, t):
    def body(c):
        S = vec(c, 9)
        w = words(S, [S.j])
        c.eq("v[64*j+%d]" % t, c.call("hv_at", S.v, add(mul64(S.j), t)), D.from_bits(1, [w[t]]), 1)
        c.eq("size", c.call("hv_size", S.v), S.n)
    ctx(r, "v[64*j+%d]" % t, body)
    if t < 63:
        def body2(c):
            S = vec(c, t + 1)
            c.eq("last bit", c.call("hv_at", S.v, add(mul64(S.B), t)), D.from_bits(1, [S.last[t]]), 1)
        ctx(r, "last bit of 64*B+%d bits" % (t + 1), body2)


def j_get_bits(r, t, lens):
    for l in lens:
        def body(c):
            S = vec(c, 0, gmin=2)
            w = words(S, [S.j, add(S.j, 1)])
            c.eq("get_bits", c.call("hv_get_bits", S.v, add(mul64(S.j), t), l), zx(w[t:t + l]))
        ctx(r, "get_bits(64*j+%d, %d)" % (t, l), body)
        e = t + l
        if e == 0:
            continue

        def body2(c):
            S = vec(c, e % 64, gmin=1)
            base = add(S.B, -(e // 64))
            w = words(S, [add(base, k) for k in range((e + 63) // 64)])
            c.eq("get_bits at the end", c.call("hv_get_bits", S.v, add(mul64(base), t), l), zx(w[t:e]))
        ctx(r, "get_bits(%d bits) ending at the end, offset %d" % (l, t), body2)
        if e <= 130:
            def body3(c):
                S = vec(c, e % 64, e // 64)
                w = words(S, range((e + 63) // 64))
                c.eq("get_bits at the end of %d bits" % e, c.call("hv_get_bits", S.v, t, l), zx(w[t:e]))
            ctx(r, "get_bits(%d, %d) of %d bits" % (t, l, e), body3)


def j_get_word(r, t):
    def body(c):
        S = vec(c, 0, gmin=2)
        w = words(S, [S.j, add(S.j, 1)])
        c.eq("get_word", c.call("hv_get_word", S.v, add(mul64(S.j), t)), D.from_bits(64, w[t:t + 64]))
        c.eq("get_word56", D.and_(c.call("hv_get_word56", S.v, add(mul64(S.j), t)), (1 << 56) - 1, 64), D.from_bits(64, w[t:t + 56] + [0] * 8))
    ctx(r, "get_word(64*j+%d)" % t, body)
    for s in sorted({0, 1, t, t + 1, 63, 40}):
        if s > 63:
            continue

        def body2(c):
            # the last two words: beyond size() the result is padded with zeros
            S = vec(c, s, gmin=1)
            n = 128 if s == 0 else 64 + s
            base = add(S.B, -2 if s == 0 else -1)
            w = (words(S, [base, add(base, 1)])[:n] + [0] * 128)
            for q in (t, t + 64):
                if q < n:
                    c.eq("get_word", c.call("hv_get_word", S.v, add(mul64(base), q)), D.from_bits(64, w[q:q + 64]))
        ctx(r, "get_word near the end (size 64*B+%d), offset %d" % (s, t), body2)


def j_range(r, ns):
    """a vector built from a sequence of bytes used as booleans"""
    for n in ns:
        def body(c):
            x = c.call("h_bytes", n)
            bits = []
            for i in range(n):
                if i % 3 == 2:
                    b = c.bits("v%d" % i, 8)
                    c.call("h_byte_set", x, i, D.from_bits(8, b))
                    bits.append(D.lnot(D.land_all([D.lnot(q) for q in b])))
                else:
                    b = c.bits("v%d" % i, 1)
                    c.call("h_byte_set", x, i, D.from_bits(8, b + [0] * 7))
                    bits.append(b[0])
            v = c.call("hv_range", x)
            c.eq("size", c.call("hv_size", v), n)
            nw = (n + 63) // 64
            c.eq("words", c.call("hv_nwords", v), nw)
            bits += [0] * (nw * 64 - n)
            for k in range(nw):
                c.eq("word %d" % k, c.call("hv_word", v, k), D.from_bits(64, bits[64 * k:64 * k + 64]))
            for p in sorted({0, n // 2, n - 1}):
                if 0 <= p < n:
                    c.eq("v[%d]" % p, c.call("hv_at", v, p), D.from_bits(1, [bits[p]]), 1)
            c.call("hv_del", v)
        ctx(r, "bit_vector(range of %d values)" % n, body)


def j_enum(r, t, pats):
    """enumerator: any position, a sequence of next()/take(l)"""
    for pat in pats:
        tot = sum(1 if p == "n" else p for p in pat)
        nw = (t + tot + 63) // 64
        for where in ("mid", "end"):
            def body(c):
                if where == "mid":
                    S = vec(c, 0, gmin=nw + 1)
                    base = S.j
                else:
                    e = t + tot
                    S = vec(c, e % 64, gmin=1)
                    base = add(S.B, -(e // 64))
                w = words(S, [add(base, k) for k in range(nw)])
                p0 = add(mul64(base), t)
                E = c.call("he_new", S.v, p0)
                c.eq("position()", c.call("he_pos", E), p0)
                p = t
                for q in pat:
                    if q == "n":
                        c.eq("next() at +%d" % (p - t), c.call("he_next", E), D.from_bits(1, [w[p]]), 1)
                        p += 1
                    else:
                        c.eq("take(%d) at +%d" % (q, p - t), c.call("he_take", E, q), zx(w[p:p + q]))
                        p += q
                    c.eq("position()", c.call("he_pos", E), add(mul64(base), p))
            ctx(r, "enumerator at offset %d (%s): %s" % (t, where, pat), body)


def pats(t, tier):
    P = [["n"] * 5, [64], [64, 64, "n"], [1, 63, 64, "n"], [63, "n", 1, 64], ["n", 64, "n", 33, 33],
         [7, 7, 50, 64, 3], [13] * 11, ["n"] * 70, [0, "n", 0, 64, 0, 1], [31, 32, 33, 34], [56, 9, 64, 2]]
    if tier == "thorough":
        P += [[l] * (200 // l + 1) for l in range(1, 65)] + [["n", l, 65 - l if l < 65 else 1, l, 64] for l in range(1, 65)]
    else:
        P += [[l, "n", 64 - l, l] for l in ((t * 7 + 5) % 64, (t * 11 + 1) % 65, 65 - max(1, t))]
    return P


def jobs(tier):
    J = []
    for t in range(64):
        J += [(j_at, (t,)), (j_get_bits, (t, list(range(65)))), (j_get_word, (t,)), (j_enum, (t, pats(t, tier)))]
    ns = list(range(0, 200)) if tier == "thorough" else [0, 1, 2, 7, 8, 31, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 192, 193]
    for k in range(8):
        J.append((j_range, (ns[k::8],)))
    return J
