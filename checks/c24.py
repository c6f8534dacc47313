"""Top-k: the k greatest entries of every range in order, by call and by enumeration."""
from .c23 import *

TITLE = "top-k"
WIDTH = r"^topk"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bp.cpp", 1, 0, ()), "portable": ("bp.cpp", 0, 0, ())}


def want(ranks, a, b):
    return sorted(range(a, b + 1), key=lambda i: (-ranks[i], i))


def mk(c, P, ranks):
    w = max(1, max(ranks).bit_length())
    if P == "tm":
        vals = values(c, ranks, 64 - w)
    else:
        # the compressed list stores prefix sums: few free bits keep them decidable
        D.small(6)
        rs = sorted(set(ranks), key=lambda x: (ranks.count(x), x))
        lows = {x: c.bits("v%d" % x, 1) for x in rs[:3 if len(ranks) < 20 else 2]}
        off = 1 << max(7, w + 1)
        vals = [D.from_bits(64, lows.get(x, [1]) + [((x + off) >> k) & 1 for k in range(63)]) for x in ranks]
    return vals, c.call(P + "_new", array(c, vals), len(vals))


def topk(c, P, t, vals, ranks, a, b, k):
    e = want(ranks, a, b)[:k]
    r = c.call(P + "_topk", t, a, b, k)
    c.eq("number of results", c.call(P + "_rlen", r), len(e))
    if c.viol:
        return
    for i, x in enumerate(e):
        c.eq("index of result %d of top %d in [%d, %d]" % (i, k, a, b), c.call(P + "_ridx", r, i), x)
        c.eq("value of result %d of top %d in [%d, %d]" % (i, k, a, b), c.call(P + "_rval", r, i), vals[x])
    c.call(P + "_rdel", r)


def drain(c, P, e, vals, exp, what, stop=None):
    for i, x in enumerate(exp[:stop]):
        c.eq("%s: entry %d exists" % (what, i), c.call(P + "_enext", e), 1, 1)
        if c.viol:
            return
        c.eq("%s: index of entry %d" % (what, i), c.call(P + "_eidx", e), x)
        c.eq("%s: value of entry %d" % (what, i), c.call(P + "_eval", e), vals[x])
    if stop is None or stop > len(exp):
        c.eq("%s: no further entry" % what, c.call(P + "_enext", e), 0, 1)
        c.eq("%s: still no further entry" % what, c.call(P + "_enext", e), 0, 1)


def j_small(r, key, P, n, orders):
    for ranks in orders:
        ranks = list(ranks)

        def body(c):
            vals, t = mk(c, P, ranks)
            c.eq("size", c.call(P + "_len", t), n)
            for i in range(n):
                c.eq("entry %d" % i, c.call(P + "_at", t, i), vals[i])
            for a in range(n):
                for b in range(a, n):
                    for k in sorted({0, 1, 2, b - a, b - a + 1, b - a + 2, n + 3}):
                        topk(c, P, t, vals, ranks, a, b, k)
            c.call(P + "_del", t)
        ctx(r, key, "order type %s (%s)" % (ranks, P), body, steps=3000000)


def j_enum(r, key, P, orders):
    for ranks in orders:
        ranks = list(ranks)
        n = len(ranks)

        def body(c):
            vals, t = mk(c, P, ranks)
            e, f = c.call(P + "_enew"), c.call(P + "_enew")
            c.eq("a new enumerator is empty", c.call(P + "_enext", e), 0, 1)
            qs = [(a, b) for a in range(n) for b in range(a, n)]
            for k, (a, b) in enumerate(qs):
                # restart after a partial, a full or no enumeration
                c.call(P + "_eset", t, e, a, b)
                drain(c, P, e, vals, want(ranks, a, b), "[%d, %d]" % (a, b), (None, 1, 2, 0)[k % 4])
                if c.viol:
                    return
            # two enumerators do not disturb each other; swap exchanges them
            c.call(P + "_eset", t, e, 0, n - 1)
            c.call(P + "_eset", t, f, 0, n // 2)
            we, wf = want(ranks, 0, n - 1), want(ranks, 0, n // 2)
            drain(c, P, e, vals, we, "first", 1)
            drain(c, P, f, vals, wf, "second", 1)
            c.call(P + "_eswap", e, f)
            c.eq("current index after the swap", c.call(P + "_eidx", e), wf[0])
            c.eq("current value after the swap", c.call(P + "_eval", f), vals[we[0]])
            drain(c, P, e, vals, wf[1:], "second, swapped")
            drain(c, P, f, vals, we[1:], "first, swapped")
            c.call(P + "_eset", t, e, 0, n - 1)
            c.call(P + "_eclear", e)
            c.eq("a cleared enumerator is empty", c.call(P + "_enext", e), 0, 1)
            c.call(P + "_eset", t, e, n - 1, n - 1)
            drain(c, P, e, vals, [n - 1], "after clear")
            c.call(P + "_edel", e)
            c.call(P + "_edel", f)
            c.call(P + "_del", t)
        ctx(r, key, "enumerators over %s (%s)" % (ranks, P), body, steps=3000000)


def j_two(r, key, P, orders):
    """enumerators over two different sequences: exchange, independence, by-value handles"""
    for ra, rb in orders:
        ra, rb = list(ra), list(rb)

        def body(c):
            va, ta = mk(c, P, ra)
            vb, tb = mk(c, P, rb)
            na, nb = len(ra), len(rb)
            wa, wb = want(ra, 0, na - 1), want(rb, 0, nb - 1)
            for i in range(min(na, nb) + 1):
                e, f = c.call(P + "_enew"), c.call(P + "_enew")
                c.call(P + "_eset", ta, e, 0, na - 1)
                c.call(P + "_eset", tb, f, 0, nb - 1)
                drain(c, P, e, va, wa, "first", i)
                drain(c, P, f, vb, wb, "second", 1)
                c.call(P + "_eswap", e, f)
                drain(c, P, e, vb, wb[1:], "exchanged with the second")
                drain(c, P, f, va, wa[i:], "exchanged with the first")
                if c.viol:
                    return
                # exchange with an enumerator that was never set
                c.call(P + "_eset", ta, e, 0, na - 1)
                g = c.call(P + "_enew")
                c.call(P + "_eswap", g, e)
                c.eq("exchanged with an unused one", c.call(P + "_enext", e), 0, 1)
                drain(c, P, g, va, wa, "moved out")
                # reuse over the other sequence
                c.call(P + "_eset", tb, g, 0, nb - 1)
                drain(c, P, g, vb, wb, "reused", 1)
                c.call(P + "_eset", ta, g, 0, na - 1)
                drain(c, P, g, va, wa, "reused again")
                for x in (e, f, g):
                    c.call(P + "_edel", x)
            x = c.call(P + "_eval_new", ta, 0, na - 1)
            drain(c, P, x, va, wa, "handle by value", na // 2)
            y = c.call(P + "_ecopy", x)
            drain(c, P, x, va, wa[na // 2:], "handle by value, continued")
            c.call(P + "_edel", x)
            drain(c, P, y, va, wa[na // 2:], "copied handle")
            c.call(P + "_edel", y)
            c.call(P + "_del", ta)
            c.call(P + "_del", tb)
            leaks(c, "enumerators")
        ctx(r, key, "enumerators over %s and %s (%s)" % (ra, rb, P), body, steps=3000000)


def j_large(r, key, P, kind, n, seed, nq):
    ranks = shape(kind, n, seed)
    uniq = {x: i for i, x in enumerate(sorted(set(ranks)))}
    ranks = [uniq[x] for x in ranks]

    def body(c):
        vals, t = mk(c, P, ranks)
        rnd = Lcg(seed)
        for i in range(0, n, max(1, n // 40)):
            c.eq("entry %d" % i, c.call(P + "_at", t, i), vals[i])
        for _ in range(nq):
            a, b = rnd(n), rnd(n)
            a, b = min(a, b), max(a, b)
            topk(c, P, t, vals, ranks, a, b, (1, 3, 10, 25)[rnd(4)])
            if c.viol:
                return
        e = c.call(P + "_enew")
        c.call(P + "_eset", t, e, 0, n - 1)
        drain(c, P, e, vals, want(ranks, 0, n - 1), "all", None if n <= 130 else 60)
        c.call(P + "_edel", e)
        c.call(P + "_del", t)
    ctx(r, key, "%s, %d values (%s)" % (kind, n, P), body, steps=60000000)


def jobs(tier):
    out = []
    big = tier != "quick"
    KINDS_ = ("rising", "falling", "equal", "random", "few", "saw", "pipe", "valley", "plateau", "zigzag")
    for k, n in enumerate((17, 33, 64, 129, 300, 600, 1100, 2100, 4200) if big else (17, 33, 64, 129, 300, 1100)):
        for j, kind in enumerate(KINDS_):
            for P in ("tm", "tk"):
                if big or (k + j + (P == "tk")) % 3 == 0:
                    out.append((j_large, ("main", P, kind, n, j + k, 6)))
                    if (k + j) % 4 == 0 and n < 400:
                        out.append((j_large, ("portable", P, kind, n, j + k, 3)))
    out.reverse()
    for n in range(1, 5):
        os_ = weak_orders(n)
        for i in range(0, len(os_), 15):
            for P in ("tm", "tk"):
                out.append((j_small, ("main", P, n, os_[i:i + 15])))
                out.append((j_enum, ("main", P, os_[i:i + 15])))
    o3, o4 = [o for n in (1, 2, 3) for o in weak_orders(n)], weak_orders(4)
    for P in ("tm", "tk"):
        for k in range(0, len(o3), 3):
            out.append((j_two, ("main", P, [(a, o4[(7 * k + 3 * i) % len(o4)]) for i, a in enumerate(o3[k:k + 3])] + [(o4[(5 * k) % len(o4)], o3[k])])))
    os_ = weak_orders(5)
    for i in range(0, len(os_), 30):
        out.append((j_small, ("main", "tm", 5, os_[i + i // 30 % 3:i + 30:1 if big else 5])))
        out.append((j_enum, ("main", "tk", os_[i + i // 30 % 3:i + 30:1 if big else 3])))
    return out
