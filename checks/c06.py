"""select / select0 return exactly the position of the k-th one / zero."""
from engine import dom as D
from .rslib import *
from .common import ctx, M

TITLE = "select"
WIDTH = r"^rs_bit_vector\.[ch]pp.*(build|select|rank)"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("rs.cpp", 1, 0, ()), "popcnt": ("rs.cpp", 1, 1, ())}


def j_select(r, key, n, ps):
    for p in ps:
        for bit in (1, 0):
            def body(c):
                b = c.bits("a", n)
                b[p] = bit
                P = Prefix(b)
                S = store(c, b)
                R = c.call("hr_new", S.b, 0, 0)
                if bit:
                    c.eq("select", c.call("hr_select", R, P.ones(p)), p)
                else:
                    c.eq("select0", c.call("hr_select0", R, P.zeros(p)), p)
            ctx(r, key, "select%s reaching bit %d of every vector of %d bits" % ("" if bit else "0", p, n), body, steps=3000000, models=Models(summaries(key)))


class Lcg:
    def __init__(self, s):
        self.s = (s * 2654435761 + 12345) & 0xffffffff

    def __call__(self, n):
        self.s = (self.s * 1103515245 + 12345) & 0x7fffffff
        return (self.s >> 8) % n


def pops(kind, nw, rnd):
    """ones per word"""
    if kind == "half":
        return [32] * nw
    if kind == "full":
        return [64 - w % 2 for w in range(nw)]
    if kind == "empty":
        return [w % 2 for w in range(nw)]
    if kind == "dense":
        return [56 + rnd(8) for _ in range(nw)]
    if kind == "sparse":
        return [rnd(9) for _ in range(nw)]
    if kind == "quarter":
        return [16] * nw
    if kind == "steps":
        return [(64, 0, 3, 61)[(w // 8) % 4] for w in range(nw)]
    if kind == "burst":
        return [0 if (w // 8) % 5 else 64 - rnd(2) for w in range(nw)]
    return [rnd(65) for _ in range(nw)]


def balanced(c, n, kind, seed, p=None, bit=1):
    """n bits, word populations fixed by the profile, contents otherwise arbitrary over complementary pairs"""
    rnd = Lcg(seed)
    nw = (n + 63) // 64
    out = []
    for w, k in enumerate(pops(kind, nw, rnd)):
        m = min(64, n - 64 * w)
        k = min(k, m)
        free = list(range(m))
        lits = [0] * m
        q = None
        if p is not None and p // 64 == w:
            q = p % 64
            if bit and k == 0:
                k = 1
            if not bit and k == m:
                k = m - 1
            free.remove(q)
            lits[q] = bit
            k -= bit
        for i in range(len(free) - 1, 0, -1):
            j = rnd(i + 1)
            free[i], free[j] = free[j], free[i]
        pairs = min(k, len(free) - k)
        for i in range(pairs):
            x = D.free("w%d.%d" % (w, i))
            lits[free[2 * i]] = x
            lits[free[2 * i + 1]] = ~x
        for i in range(2 * pairs, len(free)):
            lits[free[i]] = int(k > pairs)
        out += lits
    return out


def j_balanced(r, key, n, kind, seed, h, ps):
    for p in ps:
        for bit in (1, 0):
            def body(c):
                b = balanced(c, n, kind, seed, p, bit)
                P = Prefix(b)
                S = store(c, b)
                R = c.call("hr_new", S.b, h & 1, h >> 1)
                c.eq("rank(%d)" % p, c.call("hr_rank", R, p), P.ones(p))
                if bit:
                    c.eq("select reaching %d" % p, c.call("hr_select", R, P.ones(p)), p)
                else:
                    c.eq("select0 reaching %d" % p, c.call("hr_select0", R, P.zeros(p)), p)
                # word boundaries: the first one / zero at or after them
                for q in range((p * 7) % 512 // 64 * 64, n, 512):
                    for want in (1, 0):
                        e = next((i for i in range(q, n) if b[i] not in (0, 1) or b[i] == want), None)
                        if e is not None and b[e] == want:
                            if want:
                                c.eq("select reaching %d" % e, c.call("hr_select", R, P.ones(e)), e)
                            else:
                                c.eq("select0 reaching %d" % e, c.call("hr_select0", R, P.zeros(e)), e)
            ctx(r, key, "%s vector of %d bits (profile %d), hints %d, bit %d = %d" % (kind, n, seed, h, p, bit), body, steps=6000000, models=Models(summaries(key)))


def jobs(tier):
    J = [(j_summary, (k,)) for k in MODS if summaries(k)]
    th = tier == "thorough"
    for n in ([1, 2, 63, 64, 65, 130, 511, 512, 513] if not th else [1, 2, 3, 31, 63, 64, 65, 127, 128, 129, 130, 192, 256, 320, 448, 511, 512, 513]):
        ps = sorted({p for p in range(n) if n < 140 or p % (13 if not th else 1) == 0 or p % 64 in (0, 63) or p > n - 3})
        for k in range(0, len(ps), 12):
            J.append((j_select, ("main", n, ps[k:k + 12])))
    for n in ((700, 1024, 1100) if not th else (600, 700, 1023, 1024, 1025, 1100, 1537, 1600)):
        ps = sorted({p for p in range(n) if p % (41 if not th else 3) == 0 or p % 512 in (0, 511) or p > n - 2})
        for k in range(0, len(ps), 4):
            J.append((j_select, ("main", n, ps[k:k + 4])))
    ps = [5, 64, 130, 511, 512]
    J.append((j_select, ("popcnt", 600, ps)))
    k = 0
    for kind in ("half", "full", "empty", "dense", "sparse", "quarter", "steps", "burst", "mixed"):
        for n in ((1024, 2100, 4160, 6200) if not th else (512, 513, 1024, 1025, 1030, 1536, 1600, 2048, 2049, 2100, 2600, 3072, 4096, 4160, 6200, 9000)):
            for h in ((3,) if not th else (1, 2, 3)):
                k += 1
                ps = sorted({p for p in (0, 63, 511, 512, 1023, 1024, 2047, 2048, n - 1) if p < n} | {(k * 977 + i * 331) % n for i in range(5 if not th else 40)})
                for i in range(0, len(ps), 7):
                    J.append((j_balanced, ("main", n, kind, k, h, ps[i:i + 7])))
    return J
