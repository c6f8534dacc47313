"""Range minimum queries: the leftmost minimum (maximum) of every range."""
import itertools
from .parenlib import *

TITLE = "range minima"
WIDTH = r"^cartesian|^bp_vector"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bp.cpp", 1, 0, ()), "portable": ("bp.cpp", 0, 0, ())}


def weak_orders(n):
    """all order types of n values (equal values allowed)"""
    out = []
    for t in itertools.product(range(n), repeat=n):
        if set(t) == set(range(max(t) + 1)):
            out.append(t)
    return out


def best(ranks, a, b, greater):
    s = ranks[a:b + 1]
    return a + s.index(max(s) if greater else min(s))


def big_values(c, ranks, w):
    """long lists: some values share their free low bits"""
    lows = [c.bits("v%d" % k, 64 - w) for k in range(5)]
    return [D.from_bits(64, lows[r % 5] + [(r >> k) & 1 for k in range(w)]) for r in ranks]


def build(c, ranks, how, greater, es=8):
    n = len(ranks)
    if es == 8:
        w = max(1, max(ranks, default=0).bit_length())
        vals = values(c, ranks, 64 - w) if n < 600 else big_values(c, ranks, w)
    elif es == 4:
        # signed: the smallest ranks are negative
        w = max(1, max(ranks, default=0).bit_length())
        h = 1 << (w - 1)
        lows = {r: c.bits("v%d" % r, 32 - w) for r in set(ranks)}
        vals = [D.from_bits(32, lows[r] + [((r ^ h) >> k) & 1 for k in range(w)]) for r in ranks]
    else:
        w = max(1, max(ranks, default=0).bit_length())
        lows = {r: c.bits("v%d" % r, 8 - w) for r in set(ranks)}
        vals = [D.from_bits(8, lows[r] + [(r >> k) & 1 for k in range(w)]) for r in ranks]
    if how == "range":
        f = {8: "ct_newg" if greater else "ct_new", 4: "ct_newi", 1: "ct_newc"}[es]
        return c.call(f, array(c, vals, es), n)
    b = c.call("cb_new", {"builder": 0, "sized builder": n, "short builder": n // 2}[how])
    for v in vals:
        c.call("cb_pushg" if greater else "cb_push", b, v)
    t = c.call("ct_newb", b)
    c.call("cb_del", b)
    return t


def j_small(r, key, n, orders, greater, es, how):
    for ranks in orders:
        ranks = list(ranks)

        def body(c):
            t = build(c, ranks, how, greater, es)
            c.eq("size", c.call("ct_len", t), n)
            for a in range(n):
                for b in range(a, n):
                    c.eq("range [%d, %d]" % (a, b), c.call("ct_rmq", t, a, b), best(ranks, a, b, greater))
            c.call("ct_del", t)
        ctx(r, key, "order type %s%s, %d-byte values, by %s" % (ranks, " (maximum)" if greater else "", es, how), body)


def shape(kind, n, seed):
    rnd = Lcg(seed)
    if kind == "rising":
        return list(range(n))
    if kind == "falling":
        return list(range(n, 0, -1))
    if kind == "equal":
        return [3] * n
    if kind == "random":
        return [rnd(1 << 20) for _ in range(n)]
    if kind == "few":
        return [rnd(3) for _ in range(n)]
    if kind == "saw":
        k = 7 + rnd(40)
        return [(i % k) * 4 + rnd(3) for i in range(n)]
    if kind == "pipe":
        return [min(i, n - i) for i in range(n)]
    if kind == "valley":
        return [abs(n // 2 - i) for i in range(n)]
    if kind == "plateau":
        return [(i // (17 + seed % 50)) % 5 for i in range(n)]
    return [i // 3 if i % 3 else n - i // 3 for i in range(n)]       # zigzag


def j_large(r, key, kind, n, seed, greater, how, nq):
    ranks = shape(kind, n, seed)
    uniq = sorted(set(ranks))
    ranks = [uniq.index(x) for x in ranks] if len(uniq) < 300 else ranks

    def body(c):
        t = build(c, ranks, how, greater)
        c.eq("size", c.call("ct_len", t), n)
        rnd = Lcg(seed + n)
        qs = []
        if n * n < nq * 2:
            qs = [(a, b) for a in range(n) for b in range(a, n)]
        else:
            for _ in range(nq):
                k = rnd(4)
                a = rnd(n)
                if k == 0:
                    b = min(n - 1, a + rnd(70))
                elif k == 1:
                    a, b = rnd(40) % n, n - 1 - rnd(40) % n
                elif k == 2:
                    a = min(n - 1, a // 32 * 32 + rnd(3))
                    b = min(n - 1, a + rnd(12) * 32 + rnd(3))
                else:
                    b = rnd(n)
                qs.append((min(a, b), max(a, b)))
            qs += [(0, n - 1), (n - 1, n - 1), (0, 0)]
        for a, b in qs:
            c.eq("range [%d, %d]" % (a, b), c.call("ct_rmq", t, a, b), best(ranks, a, b, greater))
        c.call("ct_del", t)
    ctx(r, key, "%s, %d values%s, by %s" % (kind, n, " (maximum)" if greater else "", how), body, steps=60000000)


def jobs(tier):
    out = []
    KINDS_ = ("rising", "falling", "equal", "random", "few", "saw", "pipe", "valley", "plateau", "zigzag")
    big = tier != "quick"
    for k, n in enumerate(((4096, 4093, 9000, 6100, 13000, 20500) if big else (4096, 4093, 8200, 12300))):
        for j, kind in enumerate(KINDS_):
            if big or (j + k) % 3 == 0 or kind in ("few", "random") and n < 10000:
                out.append((j_large, ("main", kind, n, j + k, bool((j + k) & 1), ("range", "builder", "sized builder")[(j + k) % 3], 250)))
    for k, n in enumerate((30, 31, 32, 33, 63, 64, 100, 127, 128, 129, 200, 255, 256, 300, 517, 1030)):
        for j, kind in enumerate(KINDS_):
            if big or (j + k) % 2 == 0 or n < 130:
                out.append((j_large, ("main", kind, n, j * 3 + k, bool((j ^ k) & 1), ("range", "builder", "sized builder", "short builder")[(j + k) % 4], 200)))
            if (j + k) % 5 == 0:
                out.append((j_large, ("portable", kind, n, j * 3 + k, bool((j ^ k) & 1), "range", 120)))
    for n in range(1, 6):
        os_ = weak_orders(n)
        for i in range(0, len(os_), 60):
            ch = os_[i:i + 60]
            out.append((j_small, ("main", n, ch, False, 8, "range")))
            out.append((j_small, ("main", n, ch, True, 8, "builder")))
            if n <= 4:
                out.append((j_small, ("main", n, ch, False, 4, "range")))
                out.append((j_small, ("main", n, ch, False, 1, "range")))
                out.append((j_small, ("main", n, ch, False, 8, "sized builder")))
    if big:
        os_ = weak_orders(6)
        for i in range(0, len(os_), 100):
            out.append((j_small, ("main", 6, os_[i:i + 100], bool(i & 4), 8, "range")))
    return out
