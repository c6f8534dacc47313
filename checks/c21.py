"""Select inventories locate the k-th position, dense and sparse blocks alike."""
from .objlib import *

TITLE = "select inventories"
WIDTH = r"^darray"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("darr.cpp", 1, 0, ()), "portable": ("darr.cpp", 0, 0, ())}


def profile(kind, seed):
    """increasing positions (last one bounds the length) and the indices whose position may be p or p+1"""
    rnd = Lcg(seed)
    ps, p = [], rnd(70)

    def run(n, gap):
        nonlocal p
        for _ in range(n):
            ps.append(p)
            p += gap() if callable(gap) else gap
    if kind == "tiny":
        run(1 + rnd(40), lambda: 2 + rnd(9))
    elif kind == "dense":
        run(1024 + 100 + rnd(900), 1)
    elif kind == "period":
        run(1100 + rnd(60), (5, 9, 13, 31, 3, 7)[seed % 6])
    elif kind == "random":
        run(1030 + rnd(200), lambda: 1 + rnd(12))
    elif kind == "word":
        run(1030, (63, 64, 65, 62)[seed % 4])
    elif kind == "edge":
        # the last position of the first block is exactly around the distance limit
        first = p
        run(700, 1)
        run(323, 64)
        p = first + 65536 + (-1, 0, 1, -2)[seed % 4]
        run(1, 3)
        run(40 + rnd(30), 5)
    elif kind == "limit":
        # the last, partial block ends around the distance limit; its length relative to the sub-blocks varies
        if seed % 3 == 1:
            run(1024, 2)
        m = 32 * (1 + seed * 5 % 30) + (1, 1, 0, 2, 17)[seed % 5]
        first = p
        run(m - 1, (1, 2, 61)[seed % 3] if m < 1000 else 1)
        p = first + 65536 + (0, -1, 1, 0, -2, 2)[(seed + seed // 5) % 6]
        run(1, 1)
        if p > first + 70000:
            raise GiveUp("profile")
    elif kind == "sparse":
        run(1024, 67)
        run(1024 if seed % 2 else 100, 66 + rnd(9))
    elif kind == "mixed":
        run(1024, 3)
        run(1024, 70)
        run(1024, lambda: 1 + rnd(5))
        run(300, 221)
        run(724, 1)
        run(50, 90)
    elif kind == "many":
        # many sparse blocks, dense ones in between
        for q in ("SSSDSSDSS", "SDSDSDSSSSD")[seed % 2]:
            run(1024, 66 + rnd(3) if q == "S" else 1 + rnd(4))
        run(40 + rnd(500), 3)
    elif kind == "gap":
        run(31 + rnd(3), 3)
        p += 3000 + rnd(500)
        run(33, 9)
        p += 64 * rnd(5)
        run(70, 33)
    # isolated positions may move by one, at most one per word
    mv, lastw = set(), -1
    for i in range(1, len(ps) - 1):
        if ps[i + 1] - ps[i] > 3 and ps[i] - ps[i - 1] > 3 and ps[i] % 64 < 62 and ps[i] // 64 != lastw and rnd(3):
            if i % 1024 in (0, 1023) and kind in ("edge", "sparse", "mixed", "limit", "many"):
                continue
            mv.add(i)
            lastw = ps[i] // 64
    return ps, mv, rnd


def j_sel(r, key, P, kind, seed):
    def body(c):
        ps, mv, rnd = profile(kind, seed)
        n = ps[-1] + 1 + rnd(130)
        on, off = (1, 0) if P == "d1" else (0, 1)
        bits = [off] * n
        pos = list(ps)
        for i, p in enumerate(ps):
            bits[p] = on
            if i in mv:
                a = c.bits("m%d" % i, 1)[0]
                bits[p], bits[p + 1] = (a, D.lnot(a)) if on else (D.lnot(a), a)
                pos[i] = D.sub(p + 1, D.from_lit(a, 64), 64)
        b = builder(c, bits)
        v = c.call("bv_new", b)
        c.call("hb_del", b)
        d = c.call(P + "_new", v)
        c.eq("number of positions", c.call(P + "_len", d), len(pos))
        idx = [i for i in range(len(pos)) if i % 32 in (0, 1, 31) or i % 1024 in (1022, 1023, 0, 1, 2) or i % (5 if len(pos) < 6000 else 41) == seed % 5 or i >= len(pos) - 3]
        if len(pos) >= 6000:
            idx = [i for i in idx if i % 32 not in (0, 1, 31) or i // 32 % 8 == 3 or i % 1024 < 3 or i % 1024 > 1021]
        for i in idx:
            c.eq("select(%d)" % i, c.call(P + "_select", d, v, i), pos[i])
        c.call(P + "_del", d)
        c.call("bv_del", v)
    ctx(r, key, "darray%s over %s positions (profile %d)" % (P[1], kind, seed), body, steps=30000000)


def j_d64(r, key, kind, seed):
    rnd = Lcg(seed + 99)
    n = {"tiny": 1 + rnd(70), "block": 1020 + rnd(10), "long": 2100 + rnd(90)}[kind]
    how = seed % 5
    gaps = [(rnd(3), 63, rnd(64), 0, 63 if rnd(9) == 0 else rnd(4))[how] for _ in range(n)]

    def body(c):
        b = c.call("d64b_new")
        p, pos = 0, []
        for g in gaps:
            c.call("d64b_add", b, g)
            p += g
            pos.append(p)
            p += 1
        d = c.call("d64_new", b)
        c.call("d64b_del", b)
        c.eq("number of ones", c.call("d64_len", d), n)
        c.eq("length of the bit sequence", c.call("d64_size", d), p)
        for i in range(n):
            if i % 64 in (0, 1, 63) or i % 7 == seed % 7 or i >= n - 2 or i % 1024 in (1023, 1):
                c.eq("select(%d)" % i, c.call("d64_select", d, i), pos[i])
        c.call("d64_del", d)
    ctx(r, key, "darray64 of %d ones (%s, profile %d)" % (n, kind, seed), body, steps=30000000)


def jobs(tier):
    th = tier == "thorough"
    out = []
    kinds = {"tiny": 12, "dense": 2, "period": 6, "random": 4, "word": 4, "edge": 8, "limit": 10, "sparse": 2, "mixed": 2, "many": 2, "gap": 6}
    for k, cnt in kinds.items():
        for s in range(cnt * (6 if th else 1)):
            for P in ("d1", "d0"):
                out.append((j_sel, ("main", P, k, s)))
                if k in ("tiny", "gap") and s < 3:
                    out.append((j_sel, ("portable", P, k, s)))
    for k in ("tiny", "block", "long"):
        for s in range(5 if not th else 40):
            out.append((j_d64, ("main", k, s)))
    out.sort(key=lambda j: {"many": 0, "mixed": 0, "edge": 1, "limit": 1, "sparse": 1, "word": 1, "long": 2}.get(j[1][-2], 5))
    return out
