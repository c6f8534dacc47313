"""rank / rank0 / totals count exactly."""
from engine import dom as D
from .rslib import *
from .common import ctx

TITLE = "rank"
WIDTH = r"^rs_bit_vector\.[ch]pp.*(build|rank|ones|zeros)"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("rs.cpp", 1, 0, ()), "popcnt": ("rs.cpp", 1, 1, ())}


def j_rank(r, key, n, part, parts, step, hints=(0, 0)):
    def body(c):
        b = c.bits("a", n)
        P = Prefix(b)
        S = store(c, b)
        R = c.call("hr_new", S.b, hints[0], hints[1])
        if part == 0:
            c.eq("size()", c.call("hr_size", R), n)
            c.eq("num_ones()", c.call("hr_ones", R), P.ones(n))
            c.eq("num_zeros()", c.call("hr_zeros", R), P.zeros(n))
        qs = sorted({q for q in range(0, n + 1) if q % step == 0 or q % 64 in (0, 1, 63) or q >= n - 2})
        for q in qs[part::parts]:
            c.eq("rank(%d)" % q, c.call("hr_rank", R, q), P.ones(q))
            c.eq("rank0(%d)" % q, c.call("hr_rank0", R, q), P.zeros(q))
        if part == 0:
            c.call("hr_del", R)
    ctx(r, key, "rank over every vector of %d bits (part %d, hints %s)" % (n, part, hints), body, steps=3000000)


def jobs(tier):
    J = []
    th = tier == "thorough"
    small = list(range(0, 70)) + [127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 447, 448, 449, 450, 500, 510, 511, 512, 513, 514, 575, 576, 577]
    if not th:
        small = [n for n in small if n < 4 or n > 60 or n % 8 == 0]
    for n in small:
        J.append((j_rank, ("main", n, 0, 1, 1 if n < 200 or th else 7)))
    for n in (640, 959, 960, 1000, 1023, 1024, 1025, 1087, 1088, 1152) if not th else (640, 703, 704, 705, 767, 768, 832, 896, 959, 960, 1000, 1023, 1024, 1025, 1087, 1088, 1152, 1300, 1536, 1537, 1600, 2048, 2100):
        k = 2 if not th else 8
        for i in range(k):
            J.append((j_rank, ("main", n, i, k, 9 if not th else 1)))
    J.append((j_rank, ("popcnt", 600, 0, 1, 5)))
    J.append((j_rank, ("main", 900, 0, 1, 31, (1, 1))))
    return J
