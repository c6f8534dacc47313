"""Word primitives compute their mathematical function in every build configuration."""
from engine import dom as D
from .common import ctx

TITLE = "word primitives"
MODS = {"main": ("words.cpp", 1, 0, ()), "portable": ("words.cpp", 0, 0, ()), "popcnt": ("words.cpp", 1, 1, ()),
        "ndebug": ("words.cpp", 1, 0, ("-DNDEBUG",))}
UBK = ("ubshift", "ubsigned", "ubdiv", "ubcount", "oob", "uninit", "null", "assert", "throw")
M = (1 << 64) - 1


def form(bits, coef=lambda i: 1):
    return D.mke(64, 0, {a: coef(i) for i, a in enumerate(bits)})


def j_linear(r, k):
    def body(c):
        xb = c.bits("x", 64)
        x = D.from_bits(64, xb)
        c.eq("popcount(x) = number of one bits", c.call("h_popcount", x), form(xb))
        c.eq("byte_counts(x)", c.call("h_byte_counts", x), form(xb, lambda i: 1 << (8 * (i // 8))))
        c.eq("reverse_bits(x)", c.call("h_reverse_bits", x), D.from_bits(64, xb[::-1]))
        c.eq("reverse_bytes(x)", c.call("h_reverse_bytes", x),
             D.from_bits(64, [xb[8 * (7 - i // 8) + i % 8] for i in range(64)]))
        # bytes that sum to less than 256
        yb = [xb[i] if i % 8 < 5 else 0 for i in range(64)]
        c.eq("bytes_sum(y)", c.call("h_bytes_sum", D.from_bits(64, yb)), D.mke(64, 0, {xb[i]: 1 << (i % 8) for i in range(64) if i % 8 < 5}))
    ctx(r, k, "all x", body, UBK)


def j_select(r, k):
    for p in range(64):
        def body(c):
            xb = c.bits("x", 64)
            b = list(xb)
            b[p] = 1
            c.eq("select_in_word(x, rank of bit %d)" % p, c.call("h_select_in_word", D.from_bits(64, b), form(xb[:p])), p)
        ctx(r, k, "every x with bit %d set" % p, body, UBK)


def j_scan(r, k):
    for p in range(64):
        def body(c):
            xb = c.bits("x", 64)
            lo = D.from_bits(64, [0] * p + [1] + xb[p + 1:])
            hi = D.from_bits(64, xb[:p] + [1] + [0] * (63 - p))
            c.eq("lsb(x)", c.call("h_lsb", lo), p)
            c.eq("msb(x)", c.call("h_msb", hi), p)
            c.eq("lsb2 found", c.call("h_lsb_found", lo), 1, 1)
            c.eq("msb2 found", c.call("h_msb_found", hi), 1, 1)
            c.eq("lsb2 value", c.call("h_lsb_val", lo, 77), p)
            c.eq("msb2 value", c.call("h_msb_val", hi, 77), p)
            c.eq("bit_position", c.call("h_bit_position", 1 << p), p)
        ctx(r, k, "every x whose lowest / highest one is bit %d" % p, body, UBK)

    def zero(c):
        c.eq("lsb2 of 0 reports nothing", c.call("h_lsb_found", 0), 0, 1)
        c.eq("msb2 of 0 reports nothing", c.call("h_msb_found", 0), 0, 1)
    ctx(r, k, "x = 0", zero, UBK)


def j_samemsb(r, k):
    for p in range(64):
        def body(c):
            xb, yb = c.bits("x", 64), c.bits("y", 64)
            hi = D.from_bits(64, xb[:p] + [1] + [0] * (63 - p))
            same = D.from_bits(64, yb[:p] + [1] + [0] * (63 - p))
            c.eq("same_msb, equal top bit", c.call("h_same_msb", hi, same), 1)
            if p:
                low = D.from_bits(64, yb[:p] + [0] * (64 - p))
                c.eq("same_msb, lower top bit", c.call("h_same_msb", hi, low), 0)
                c.eq("same_msb, symmetric", c.call("h_same_msb", low, hi), 0)
        ctx(r, k, "same_msb with top bit %d" % p, body, UBK)


def j_step(r, k, i):
    """byte-parallel comparisons: lane i with given top bits, everything else free"""
    for tx in (0, 1):
        for ty in (0, 1):
            def body(c):
                xb, yb = c.bits("x", 64), c.bits("y", 64)
                xb[8 * i + 7], yb[8 * i + 7] = tx, ty
                x, y = D.from_bits(64, xb), D.from_bits(64, yb)
                bx, by = D.from_bits(8, xb[8 * i:8 * i + 8]), D.from_bits(8, yb[8 * i:8 * i + 8])
                want = D.zext(D.from_lit(D.icmp("ule", bx, by, 8), 1), 1, 8)
                lane(c, "uleq_step_8", c.call("h_uleq8", x, y), i, 8, want)
                if tx == ty:      # the signed form is only used on operands of equal sign
                    lane(c, "leq_step_8", c.call("h_leq8", x, y), i, 8, want)
            ctx(r, k, "byte %d with top bits %d, %d" % (i, tx, ty), body, UBK)
            if i == 7:
                continue

            def body9(c):
                xb, yb = c.bits("x", 63) + [0], c.bits("y", 63) + [0]
                xb[9 * i + 8], yb[9 * i + 8] = tx, ty
                x, y = D.from_bits(64, xb), D.from_bits(64, yb)
                bx, by = D.from_bits(9, xb[9 * i:9 * i + 9]), D.from_bits(9, yb[9 * i:9 * i + 9])
                lane(c, "uleq_step_9", c.call("h_uleq9", x, y), i, 9, D.zext(D.from_lit(D.icmp("ule", bx, by, 9), 1), 1, 9))
            ctx(r, k, "9-bit field %d with top bits %d, %d" % (i, tx, ty), body9, UBK)


def lane(c, what, res, i, w, want):
    c.eq("%s lane %d" % (what, i), D.from_bits(w, list(D.bits(res, 64)[w * i:w * i + w])), want, w)


def j_zero8(r, k):
    def zc(c):
        xb = c.bits("x", 64)
        res = c.call("h_zcmp8", D.from_bits(64, xb))
        for i in range(8):
            want = D.lnot(D.land_all([D.lnot(a) for a in xb[8 * i:8 * i + 8]]))
            c.eq("zcompare_step_8 lane %d" % i, D.from_bits(8, list(D.bits(res, 64)[8 * i:8 * i + 8])), D.zext(D.from_lit(want, 1), 1, 8), 8)
    ctx(r, k, "all x", zc, UBK)


def jobs(tier):
    J = []
    for k in MODS:
        J += [(j_linear, (k,)), (j_select, (k,)), (j_scan, (k,)), (j_samemsb, (k,)), (j_zero8, (k,))]
        J += [(j_step, (k, i)) for i in range(8)]
    return J
