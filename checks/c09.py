"""Signed mapping and variable-byte coding are exact inverses with exact lengths."""
from engine import dom as D
from engine.interp import Ptr
from engine.check import UB
from .codeclib import *
from .common import ctx, KINDS

TITLE = "scalar codecs"
MODS = {"main": ("codecs.cpp", 1, 0, ()), "portable": ("codecs.cpp", 0, 0, ())}
UBK = KINDS + UB


def j_zigzag(r, key):
    for sign in (0, 1):
        def body(c):
            b = c.bits("x", 63)
            x = D.from_bits(64, b + [sign])
            n = c.call("zz_enc", x)
            # 0, -1, 1, -2, 2 ...: the sign goes to the lowest bit, the magnitude above it
            want = D.from_bits(64, [sign] + [D.lnot(q) if sign else q for q in b])
            c.eq("int2nat(x)", n, want)
            c.eq("nat2int(int2nat(x))", c.call("zz_dec", n), x)
        ctx(r, key, "every %s 64-bit integer" % ("negative" if sign else "non-negative"), body, UBK)

        def body2(c):
            n = D.from_bits(64, [sign] + c.bits("n", 63))
            x = c.call("zz_dec", n)
            c.eq("int2nat(nat2int(n))", c.call("zz_enc", x), n)
        ctx(r, key, "every %s natural" % ("odd" if sign else "even"), body2, UBK)


def j_vbyte(r, key, l):
    def body(c):
        x = with_msb(c, "x", l) if l >= 0 else 0
        k = max(1, (l + 7) // 7)
        c.eq("vbyte_size", c.call("vb_size", x), k)
        v = c.call("vb_new")
        c.eq("bytes written", c.call("vb_append", v, x), k)
        c.eq("length of the output", c.call("vb_len", v), k)
        out = Ptr(c.I.new_region("out", "input", 8), 0)
        c.eq("bytes consumed", c.call("vb_decode", v, 0, out), k)
        c.eq("decoded value", c.I.load(out, 8), x)
        # two more values behind it
        y = with_msb(c, "y", (l * 5 + 11) % 64)
        ky = ((l * 5 + 11) % 64 + 7) // 7
        c.eq("bytes written (second)", c.call("vb_append", v, y), ky)
        z = with_msb(c, "z", 6)
        c.call("vb_append", v, z)
        c.eq("bytes consumed (second)", c.call("vb_decode", v, k, out), ky)
        c.eq("decoded value (second)", c.I.load(out, 8), y)
        c.eq("bytes consumed (third)", c.call("vb_decode", v, k + ky, out), 1)
        c.eq("decoded value (third)", c.I.load(out, 8), z)
        c.eq("bytes consumed again", c.call("vb_decode", v, 0, out), k)
        c.eq("decoded value again", c.I.load(out, 8), x)
        # only the last byte of a code has a clear top bit
        for i in range(k):
            c.eq("continuation bit of byte %d" % i, D.from_bits(1, [D.bit(c.call("vb_at", v, i), 7)]), int(i + 1 < k), 1)
        c.call("vb_del", v)
    ctx(r, key, "every value with highest bit %d" % l, body, UBK)


def j_ceil(r, key, d):
    def body(c):
        q = c.int("q", 0, (1 << 50))
        for rem in sorted({0, 1, d - 1, d // 2}):
            if rem >= d:
                continue
            x = D.add(D.mul(q, d, 64), rem, 64)
            c.eq("ceil_div(%d*q + %d, %d)" % (d, rem, d), c.call("cd_u64", x, d), D.add(q, int(rem > 0), 64))
    ctx(r, key, "ceil_div by %d" % d, body, UBK)


def jobs(tier):
    J = []
    for key in MODS:
        J.append((j_zigzag, (key,)))
        for l in range(-1, 64):
            J.append((j_vbyte, (key, l)))
        for d in (1, 2, 3, 7, 8, 64, 100, 512):
            J.append((j_ceil, (key, d)))
    return J
