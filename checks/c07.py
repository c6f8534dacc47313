"""Integer lists give back exactly what was stored, by index and by scanning."""
from engine import dom as D
from .codeclib import *
from .common import ctx

TITLE = "integer-list codecs"
WIDTH = r"^(gamma_|elias_fano_(compressed_)?list|nibble|forward_)"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("codecs.cpp", 1, 0, ()), "portable": ("codecs.cpp", 0, 0, ())}
OFF = {"gv": 1, "gb": 2, "ec": 1}
NAME = {"gv": "gamma_vector", "gb": "gamma_bit_vector", "ec": "elias_fano_compressed_list", "el": "elias_fano_list"}


def use(c, t, vals, idx, starts):
    a = array(c, vals)
    n = len(vals)
    T = c.call(t + "_new", a, n)
    c.eq("size()", c.call(t + "_size", T), n)
    for i in idx:
        c.eq("[%d]" % i, c.call(t + "_at", T, i), vals[i])
    for s, k in starts:
        e = c.call(t + "_enum", T, s)
        for i in range(s, min(n, s + k)):
            c.eq("enumerator from %d, element %d" % (s, i), c.call(t + "_next", e), vals[i])
        c.call(t + "_edel", e)
    return T


def j_list(r, key, t, ls, idx, starts, what):
    def body(c):
        vals = [gamma_val(c, "v%d" % i, l, OFF[t]) for i, l in enumerate(ls)]
        T = use(c, t, vals, idx, starts)
        if t == "gb" and len(ls) > 5:
            e = c.call("gb_enum", T, 1)
            c.call("gb_skip", e, 3)
            c.eq("element after skip(3)", c.call("gb_next", e), vals[4])
            c.call("gb_edel", e)
        c.call(t + "_del", T)
    ctx(r, key, "%s of %s" % (NAME[t], what), body, steps=8000000)


def shapes(tier):
    """bit-length profiles: all single lengths, pairs, triples around the word size, long lists"""
    th = tier == "thorough"
    out = []
    for t in ("gv", "gb", "ec"):
        lo = 1 if t == "gb" else 0
        for l in range(lo, 64):
            out.append((t, [l]))
            out.append((t, [l, 3, l]))
        for a in range(lo, 64, 1 if th else 3):
            for b in range(lo, 64, 1 if th else 5):
                out.append((t, [a, b, 2, max(lo, a - b)]))
    return out


def j_many(r, key, items):
    for t, ls in items:
        n = len(ls)
        j_list(r, key, t, ls, range(n), [(0, n), (n - 1, 1), (n // 2, n)], "bit lengths %s" % ls)


def profile(kind, n, lo, rnd):
    if kind == "short":
        return [lo + rnd(3) for _ in range(n)]
    if kind == "long":
        return [63 - rnd(2) for _ in range(n)]
    if kind == "zero":
        return [lo + (0 if rnd(40) else 1 + rnd(5)) for _ in range(n)]
    if kind == "mix":
        return [lo + rnd(64 - lo) if rnd(6) == 0 else lo + rnd(8) for _ in range(n)]
    return [lo + rnd(64 - lo) for _ in range(n)]


def j_long(r, key, t, kind, n, seed, dense):
    rnd = Lcg(seed)
    lo = 1 if t == "gb" else 0
    ls = profile(kind, n, lo, rnd)
    idx = sorted({i for i in range(n) if i % 64 in (0, 1, 63) or i % dense == 0 or i >= n - 2})
    starts = [(0, 70), (n // 3, 40), (max(0, n - 66), 66), (64, 5), (63, 5)]
    j_list(r, key, t, ls, idx, [s for s in starts if s[0] < n], "%d values (%s profile %d)" % (n, kind, seed))


def j_empty(r, key, t):
    def body(c):
        T = c.call(t + "_new", array(c, []), 0)
        c.eq("size() of an empty list", c.call(t + "_size", T), 0)
        c.call(t + "_enum", T, 0)
        c.call(t + "_del", T)
        E = c.call(t + "_empty")
        c.eq("size() of a default-constructed list", c.call(t + "_size", E), 0)
        # re-use by swapping a filled one in
        v = [gamma_val(c, "v%d" % i, 9 + i, OFF[t]) for i in range(4)] if t != "el" else [D.from_bits(64, c.bits("v0", 1) + [0] * 63)]
        if t != "el":
            F = c.call(t + "_new", array(c, v), len(v))
            c.call(t + "_swap", E, F)
            c.eq("size() after swap", c.call(t + "_size", E), len(v))
            for i in range(len(v)):
                c.eq("[%d] after swap" % i, c.call(t + "_at", E, i), v[i])
            c.eq("size() of the other", c.call(t + "_size", F), 0)
            c.call(t + "_del", F)
        c.call(t + "_del", E)
    ctx(r, key, "empty %s" % NAME[t], body, steps=3000000)


def j_nibble(r, key, n):
    def body(c):
        vals = [D.from_bits(8, c.bits("n%d" % i, 4) + [0] * 4) for i in range(n)]
        T = c.call("nb_new", array(c, vals, 1), n)
        c.eq("size()", c.call("nb_size", T), n)
        for i in range(n):
            c.eq("[%d]" % i, c.call("nb_at", T, i), D.zext(vals[i], 8, 64))
        c.call("nb_del", T)
    ctx(r, key, "nibble_vector of %d arbitrary nibbles" % n, body, steps=3000000)


def j_eflist(r, key, kind, n, l, seed):
    """prefix sums with fixed high parts and arbitrary low bits; the list holds their differences"""
    rnd = Lcg(seed)

    def body(c):
        hs = ef_highs(kind, n, rnd)
        ps = ef_positions(c, l, hs)
        # the last sum fixes the number of low bits the structure picks
        top = (n << l) + rnd(n << l) - 1
        top = max(top, (hs[-1] + 1) << l)
        if (top + 1) // n >> l != 1:
            return
        ps[-1] = top
        vals = [ps[0]] + [D.sub(ps[i], ps[i - 1], 64) for i in range(1, n)]
        idx = sorted({i for i in range(n) if n < 60 or i % 7 == 0 or i % 64 in (0, 63) or i >= n - 2})
        T = use(c, "el", vals, idx, [(0, 20), (n // 2, 20)])
        c.eq("sum()", c.call("el_sum", T), top)
        c.call("el_del", T)
    ctx(r, key, "elias_fano_list of %d values (%s, %d low bits, profile %d)" % (n, kind, l, seed), body, steps=8000000)


def jobs(tier):
    th = tier == "thorough"
    J = []
    sh = shapes(tier)
    step = 60
    for i in range(0, len(sh), step):
        J.append((j_many, ("main", sh[i:i + step])))
    J.append((j_many, ("portable", sh[::37])))
    for t in ("gv", "gb", "ec"):
        for k, (kind, n) in enumerate([("short", 70), ("zero", 130), ("mix", 200), ("long", 140), ("any", 300), ("zero", 1100), ("mix", 1030), ("long", 1100)]):
            if not th and n > 1000 and t == "ec" and kind == "long":
                continue
            J.append((j_long, ("main", t, kind, n, k + 1, 13 if n < 500 else 101)))
        J.append((j_empty, ("main", t)))
        if th:
            for k in range(40):
                J.append((j_long, ("main", t, ("short", "zero", "mix", "long", "any")[k % 5], 20 + 61 * k, 100 + k, 29)))
    J.append((j_empty, ("main", "el")))
    for n in (0, 1, 2, 3, 4, 5, 16, 17, 33):
        J.append((j_nibble, ("main", n)))
    k = 0
    for kind in ("even", "dups", "mix", "cluster"):
        for l in ((0, 1, 2, 5, 9, 20, 33, 50) if not th else range(0, 55)):
            for n in ((1, 2, 5, 40, 200) if not th else (1, 2, 3, 5, 8, 20, 40, 70, 130, 200, 300, 1100)):
                k += 1
                J.append((j_eflist, ("main", kind, n, l, k)))
    return J
