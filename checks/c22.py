"""Balanced parentheses: matching, enclosing, excess and leftmost minimum excess."""
from .parenlib import *

TITLE = "balanced parentheses"
WIDTH = r"^bp_vector"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bp.cpp", 1, 0, ()), "portable": ("bp.cpp", 0, 0, ())}


def positions(n, budget, rnd):
    """every position of a short sequence; otherwise those around word, block and superblock edges and a sample"""
    if n <= budget:
        return list(range(n))
    s = set()
    for unit in (64, 256, 8192):
        for k in range(0, n + 1, unit):
            for d in (-2, -1, 0, 1):
                s.add(k + d)
    s = [x for x in s if 0 <= x < n]
    if len(s) > budget * 2 // 3:
        keep = [x for x in s if min(x % 8192, 8192 - x % 8192) <= 2]
        rest = [x for x in s if x not in keep]
        s = keep + [rest[rnd(len(rest))] for _ in range(max(0, budget * 2 // 3 - len(keep)))]
    while len(s) < budget:
        s.append(rnd(n))
    return sorted(set(s))


def j_match(r, key, label, args, budget):
    P = Paren(*args[0], **args[1])

    def body(c):
        b = builder(c, P.bits(c))
        v = c.call("bp_new", b, 0)
        c.call("hb_del", b)
        c.eq("length", c.call("bp_len", v), P.n)
        rnd = Lcg(P.n)
        ps = positions(P.n, budget, rnd)
        # the longest pairs, and the other ends
        w = P.world(frozenset())
        far = sorted((p for p in range(P.n) if w[0][p]), key=lambda p: p - w[1][p])
        ps += far[:60] + far[60:600:9]
        ps = sorted(set(ps + [w[1][p] for p in ps]))
        for p in ps:
            w = P.close(p)
            if w is not None:
                c.eq("closing parenthesis of %d" % p, c.call("bp_close", v, p), w)
            w = P.open(p)
            if w is not None:
                c.eq("opening parenthesis of %d" % p, c.call("bp_open", v, p), w)
            w = P.enclose(p)
            if w is not None:
                c.eq("enclosing pair of %d" % p, c.call("bp_enclose", v, p), w)
            c.eq("excess before %d" % p, c.call("bp_excess", v, p), P.excess(p))
        c.eq("excess of all", c.call("bp_excess", v, P.n), 0)
        c.call("bp_del", v)
    ctx(r, key, "matching in %s (%d parentheses, %d free)" % (label, P.n, len(P.units)), body, steps=40000000, small=6)


def j_rmq(r, key, label, args, budget):
    P = Paren(*args[0], **args[1])

    def body(c):
        b = builder(c, P.bits(c))
        v = c.call("bp_new", b, 0)
        c.call("hb_del", b)
        out = Ptr(c.I.new_region("exc", "input", 8), 0)
        rnd = Lcg(P.n + 1)
        if P.n * P.n <= budget * 2:
            pairs = [(a, b) for a in range(P.n + 1) for b in range(a, P.n + 1)]
        else:
            ps = positions(P.n, budget, rnd)
            pairs = []
            for _ in range(budget):
                a, b = ps[rnd(len(ps))], ps[rnd(len(ps))]
                k = rnd(5)
                if k == 0:
                    b = min(P.n, a + rnd(300))
                elif k == 1:
                    b = min(P.n, a // 64 * 64 + 64 * rnd(140) + rnd(3))
                pairs.append((min(a, b), max(a, b)))
        for a, b in pairs:
            i, m = P.rmq(a, b)
            c.eq("leftmost minimum in [%d, %d]" % (a, b), c.call("bp_rmq", v, a, b, out), i)
            c.eq("minimum in [%d, %d]" % (a, b), c.I.load(out, 8), m)
        c.call("bp_del", v)
    ctx(r, key, "minima in %s (%d parentheses, %d free)" % (label, P.n, len(P.units)), body, steps=40000000, small=6)


def profile(ds, size, wob):
    """one depth per stretch of the given size (in parentheses)"""
    return [("at", d, (i + 1) * size + (wob * (i % 3))) for i, d in enumerate(ds)]


def shapes(tier):
    out = []
    big = tier != "quick"

    def add(label, n, phases, **kw):
        for s in range(n * (4 if big else 1)):
            out.append((label, ((phases(s), len(out) * 7 + 1), dict(kw))))
    # within a few words, many free choices
    add("short walk", 24, lambda s: [(480 + 20 * (s % 6), 6 + 7 * s)], unit=(1, 5), far=(1, 25))
    add("short tree", 12, lambda s: [(500 + 15 * (s % 6), 20 + 11 * s)], unit=(1, 7), far=(1, 15), nest=3, tree=True)
    # across words and blocks
    add("walk over blocks", 20, lambda s: [(540 + 10 * (s % 5), 200 + 45 * s), (440, 300)], unit=(1, 10), far=(1, 90))
    for h in (1, 7, 8, 9, 31, 32, 33, 60, 63, 64, 65, 127, 128, 129, 191, 192, 193, 250, 255, 256, 257, 258, 300, 520):
        add("mountain of height %d" % h, 1, lambda s: [(500, 3 + h % 5), (1000, h), (0, h), (500, 20)], unit=(1, 40), far=(1, 200))
        if h > 8:
            add("comb of %d" % h, 1, lambda s: [("at", 1, h), ("at", 2, 2 * h), ("at", 1, 3 * h)], unit=(1, 30), far=(1, 60))
    # runs that fill words and blocks exactly (and one more or less)
    for a in (0, 64, 128, 192, 256):
        for h in (64, 128, 192, 256, 512):
            for d in ((0, 0), (2, -1), (0, 1)) if not big else ((0, 0), (2, -1), (0, 1), (-2, 1), (0, -1), (2, 0)):
                if d != (0, 0) and (a + h) % 192:
                    continue
                a2, h2 = max(0, a + d[0]), h + d[1]
                add("run of %d after %d" % (h2, a2), 1, lambda s: [("fill", a2), ("up", h2), ("fill", a2 + h2 + (0, 128)[h % 3 == 1]), ("down", h2), ("fill", a2 + 2 * h2 + 200)], unit=(1, 9))
                if h < 512:
                    add("run of %d after %d, enclosed" % (h2, a2), 1, lambda s: [("up", 1), ("fill", max(1, a2)), ("up", h2), ("down", h2), ("fill", a2 + 2 * h2 + 330), ("down", 1)], unit=(1, 9))
    # blocks of one superblock
    for k, ds in enumerate(((3, 1, 2, 4), (1, 9, 1, 5, 1), (40, 2, 40, 80, 2), (100, 101, 99, 100, 102, 99), (5, 5, 5, 5, 5, 5, 5, 5), (6, 3, 3, 3, 3, 3), (128, 64, 0, 64, 128))):
        add("depth profile over blocks %s" % (ds,), 2, lambda s: profile(ds, 256 * (1 + s), 17), unit=(1, 14), far=(1, 150))
    # superblocks: every size of the minimum tree up to 9 leaves
    prof = [(2, 1), (1, 2), (5, 3, 4), (3, 5, 3), (4, 3, 2, 1), (2, 3, 2, 4, 2), (9, 7, 8, 3, 8), (1, 9, 8, 7, 6, 5), (6, 5, 4, 9, 3, 9, 2), (3, 1, 4, 1, 5, 9, 2, 6),
            (8, 8, 8, 8, 8, 8, 8, 8, 8), (7, 5, 8, 5, 9, 5, 8, 6, 7), (6, 3, 3, 3, 3), (9, 5, 5, 5, 5, 5, 5, 5, 5, 5, 7), (9, 8, 4, 4, 6, 4, 4, 4, 7),
            (2000, 1000, 3000), (4000, 50, 4000)]
    for ds in prof:
        add("depth profile over superblocks %s" % (ds,), 1, lambda s: profile(ds, 8192, 41), unit=(1, 60), far=(1, 4000), maxu=300)
    # nesting deeper than 16 bits hold
    for h in (33000, 66000):
        add("deep nest over superblocks (%d)" % h, 1, lambda s: [("up", h), ("fill", h + 300), ("down", h), ("fill", 2 * h + 400)], unit=(1, 60), far=(1, 4000), maxu=200)
    for u, l in ((540, 4000), (990, 4100), (500, 9000), (700, 6000), (1000, 9000)):
        add("walk over superblocks", 1, lambda s: [(u, l), (1000 - u, l), (500, 3000)], unit=(1, 40), far=(1, 3000), maxu=200)
    return out


def jobs(tier):
    out = []
    for label, args in shapes(tier):
        big = "superblock" in label
        run = label.startswith("run of")
        out.append((j_match, ("main", label, args, 300 if big else 70 if run else 220)))
        if not run or args[0][1] % 3 == 0:
            out.append((j_rmq, ("main", label, args, 350 if big else 80 if run else 260)))
    for label, args in shapes("quick")[::7]:
        out.append((j_match, ("portable", label, args, 120)))
        out.append((j_rmq, ("portable", label, args, 120)))
    out.sort(key=lambda j: "superblock" not in j[1][1])
    return out
