"""Elias-Fano: select, differences, ranges, rank, membership and enumeration agree with the stored sequence."""
from engine import dom as D
from engine.interp import Ptr
from .codeclib import *
from .rslib import store, Prefix
from .common import ctx

TITLE = "Elias-Fano"
WIDTH = r"^(elias_fano\.hpp|darray)"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("ef.cpp", 1, 0, ()), "portable": ("ef.cpp", 0, 0, ())}


def build(c, n, ps, rank):
    b = c.call("eb_new", n, len(ps))
    for p in ps:
        c.call("eb_push", b, p)
    e = c.call("ef_new", b, rank)
    c.call("eb_del", b)
    return e


def universe(n, l, hs, rnd):
    """a universe size for which the structure picks l low bits"""
    N = max((n << l) + rnd(max(1, n << l)), (hs[-1] + 1) << l)
    return N if (N // n >> l) in ((1,) if l else (0, 1)) else None


def j_seq(r, key, kind, m, l, seed, share, rank):
    rnd = Lcg(seed)
    hs = ef_highs(kind, m, rnd)
    N = universe(m, l, hs, rnd)
    if N is None:
        return

    def body(c):
        ps = ef_positions(c, l, hs, share=share)
        e = build(c, N, ps, rank)
        c.eq("size()", c.call("ef_size", e), N)
        c.eq("num_ones()", c.call("ef_ones", e), m)
        out = Ptr(c.I.new_region("out", "input", 16), 0)
        idx = sorted({i for i in range(m) if m < 50 or i % 9 == 0 or i % 64 in (0, 63) or i % 32 in (0, 31) or i >= m - 2
                      or (i + 1 < m and hs[i + 1] - hs[i] > 8) or (i and hs[i] - hs[i - 1] > 8)})
        for i in idx:
            c.eq("select(%d)" % i, c.call("ef_select", e, i), ps[i])
            c.eq("delta(%d)" % i, c.call("ef_delta", e, i), D.sub(ps[i], ps[i - 1], 64) if i else ps[0])
            if i + 1 < m:
                c.call("ef_range", e, i, out)
                c.eq("select_range(%d) first" % i, c.I.load(out, 8), ps[i])
                c.eq("select_range(%d) second" % i, c.I.load(Ptr(out.r, 8), 8), ps[i + 1])
        for s in sorted({0, m // 2, max(0, m - 3), min(63, m - 1), min(64, m - 1), (seed * 7) % m}):
            z = c.call("ee_new", e, s)
            for i in range(s, min(m, s + 70)):
                c.eq("enumerator from %d, element %d" % (s, i), c.call("ee_next", z), ps[i])
            c.call("ee_del", z)
        c.call("ef_del", e)
    ctx(r, key, "%d %s positions below %d, %d arbitrary low bits (profile %d)" % (m, kind, N, l, seed), body, steps=8000000)


def j_rank(r, key, kind, m, l, seed):
    """rank, membership and neighbours; elements of one bucket have distinct decided low parts"""
    rnd = Lcg(seed)
    hs = ef_highs(kind, m, rnd)
    N = universe(m, l, hs, rnd)
    if N is None or l == 0:
        return

    def positions(c):
        # inside a bucket: first the fixed high part of the low bits, increasing, then arbitrary bits
        out = []
        i = 0
        while i < m:
            j = i
            while j < m and hs[j] == hs[i]:
                j += 1
            k = max(0, (j - i - 1).bit_length())
            for q in range(i, j):
                if k > l:
                    return None
                low = c.bits("p%d" % q, l - k) + [((q - i) >> x) & 1 for x in range(k)]
                out.append((hs[i], q - i, k, D.from_bits(64, low + [(hs[i] >> x) & 1 for x in range(64 - l)])))
            i = j
        return out

    def body(c):
        P = positions(c)
        if P is None:
            return
        ps = [p[3] for p in P]
        e = build(c, N, ps, 1)
        for i in sorted({i for i in range(m) if m < 12 or i % 5 == seed % 5}):
            c.eq("rank at element %d" % i, c.call("ef_rank", e, ps[i]), i)
            c.eq("element %d present" % i, D.zext(c.call("ef_at", e, ps[i]), 1, 64), 1)
            c.eq("successor1 at element %d" % i, c.call("ef_succ", e, ps[i]), ps[i])
            h, q, k, p = P[i]
            # the start of the element's slot: nothing of this slot is below it
            base = (h << l) | (q << (l - k))
            c.eq("rank at slot of element %d" % i, c.call("ef_rank", e, base), i)
            c.eq("successor1 at slot of element %d" % i, c.call("ef_succ", e, base), ps[i])
            end = base + (1 << (l - k))
            if end < N:
                c.eq("rank after slot of element %d" % i, c.call("ef_rank", e, end), i + 1)
            c.eq("predecessor1 from the end of slot of element %d" % i, c.call("ef_pred", e, end - 1), ps[i])
        used = set(hs)
        for g in range(0, hs[-1], max(1, hs[-1] // 9)):
            if g not in used:
                n = sum(1 for x in hs if x < g)
                c.eq("rank in empty bucket %d" % g, c.call("ef_rank", e, g << l), n)
                c.eq("membership in empty bucket %d" % g, D.zext(c.call("ef_at", e, (g << l) + 1), 1, 64), 0)
        c.eq("rank(size())", c.call("ef_rank", e, N), m)
        c.call("ef_del", e)
    ctx(r, key, "rank over %d %s positions below %d, %d low bits (profile %d)" % (m, kind, N, l, seed), body, steps=8000000)


def j_member(r, key, l, lows, seed):
    """one bucket: membership and rank for every query against fixed low parts, the query arbitrary"""
    def body(c):
        m = len(lows)
        N = max(m << l, 8 << l)
        if (N // m) >> l != 1:
            N = m << l
        h = 1 if m > 1 else 0
        ps = [(h << l) | x for x in lows]
        e = build(c, N, ps, 1)
        qb = c.bits("q", l)
        q = D.from_bits(64, qb + [(h >> x) & 1 for x in range(64 - l)])
        want = 0
        hit = 0
        for x in lows:
            want = D.add(want, D.zext(D.from_lit(D.icmp("ugt", zx(qb), x, 64), 1), 1, 64), 64)
        c.eq("rank of an arbitrary query in the bucket", c.call("ef_rank", e, q), want)
        c.call("ef_del", e)
    ctx(r, key, "bucket with low parts %s of %d bits" % (lows, l), body, steps=3000000)


def j_from(r, key, n, dens, seed):
    """built from a bit vector whose ones sit at arbitrary places inside fixed slots"""
    rnd = Lcg(seed)
    slots = []
    # one element per slot of 4 positions; the last element of a word sits at an arbitrary one of two places
    pos = 0
    while pos + 4 <= n:
        if rnd(100) < dens:
            slots.append([pos, 2])
        pos += 4
    for i in range(len(slots)):
        if i + 1 == len(slots) or slots[i + 1][0] // 64 != slots[i][0] // 64:
            slots[i][1] = 1
    if not slots:
        return
    m = len(slots)
    l = (n // m).bit_length() - 1
    if l < 2:
        return

    def body(c):
        bits = [0] * n
        ps = []
        for i, (p, k) in enumerate(slots):
            if k == 1:
                x = c.bits("s%d" % i, 1)[0]
                bits[p], bits[p + 1] = D.lnot(x), x
                ps.append(D.add(p, zx([x]), 64))
            else:
                o = rnd(4)
                bits[p + o] = 1
                ps.append(p + o)
        S = store(c, bits)
        e = c.call("ef_from", S.b, 1)
        c.eq("size()", c.call("ef_size", e), n)
        c.eq("num_ones()", c.call("ef_ones", e), m)
        for i in range(0, m, max(1, m // 20)):
            c.eq("select(%d)" % i, c.call("ef_select", e, i), ps[i])
            c.eq("rank at slot %d" % i, c.call("ef_rank", e, slots[i][0]), i)
            c.eq("member", D.zext(c.call("ef_at", e, ps[i]), 1, 64), 1)
        c.call("ef_del", e)
    ctx(r, key, "%d-bit vector with %d elements (profile %d)" % (n, m, seed), body, steps=8000000)


def j_empty(r, key):
    def body(c):
        e = c.call("ef_empty")
        c.eq("num_ones() of a default-constructed one", c.call("ef_ones", e), 0)
        c.eq("size() of a default-constructed one", c.call("ef_size", e), 0)
        z = c.call("ee_new", e, 0)
        c.call("ee_del", z)
        c.call("ef_del", e)
        for n in (1, 5, 64, 1000):
            e = build(c, n, [], 1)
            c.eq("num_ones()", c.call("ef_ones", e), 0)
            c.eq("rank", c.call("ef_rank", e, n), 0)
            c.eq("rank(0)", c.call("ef_rank", e, 0), 0)
            c.call("ef_del", e)
        N = c.int("n", 1, 1 << 20)
    ctx(r, key, "no elements", body, steps=3000000)


def jobs(tier):
    th = tier == "thorough"
    J = [(j_empty, ("main",))]
    k = 0
    for kind in ("even", "dups", "mix", "gaps"):
        for l in (range(0, 22) if not th else range(0, 57)):
            for m in ((1, 2, 3, 17, 70) if not th else (1, 2, 3, 5, 9, 17, 40, 70, 130)):
                k += 1
                J.append((j_seq, ("main", kind, m, l, k, True, k & 1)))
        for l in ((0, 7, 21, 31, 32, 33, 43, 55) if not th else range(0, 57, 3)):
            for m in ((4, 140, 400) if not th else (4, 140, 300, 1030)):
                k += 1
                J.append((j_seq, ("main", kind, m, l, k, True, k & 1)))
        for l in ((1, 2, 3, 4, 7, 13, 30, 50) if not th else range(1, 57)):
            for m in ((1, 2, 5, 20, 90) if not th else (1, 2, 3, 5, 9, 20, 40, 90, 200)):
                k += 1
                J.append((j_rank, ("main", kind, m, l, k)))
    for l in ((0, 1, 4, 9, 21) if not th else range(0, 57, 2)):
        for m in ((60, 150, 300) if not th else (60, 90, 150, 300, 700)):
            k += 1
            J.append((j_seq, ("main", "cluster", m, l, k, True, k & 1)))
            J.append((j_rank, ("main", "cluster", m, l + 8, k)))
    J.append((j_seq, ("portable", "mix", 40, 5, 3, True, 1)))
    J.append((j_rank, ("portable", "mix", 20, 5, 3)))
    for l in (2, 3, 5, 8):
        J.append((j_member, ("main", l, [1], 0)))
        J.append((j_member, ("main", l, [0, 3], 0)))
    for n in ((64, 200, 700, 2000) if not th else (64, 100, 200, 333, 700, 1000, 2000, 4000)):
        for d in (5, 20, 60, 99):
            J.append((j_from, ("main", n, d, n + d)))
    return J
