"""Abstract builders and vectors: symbolic length 64*B+s, every content bit a free atom."""
from engine import dom as D
from engine.check import Ctx
from engine.interp import offform, Ptr

BMAX = 1 << 40


def mul64(v):
    return D.mul(v, 64, 64)


def add(v, k):
    return D.add(v, k & ((1 << 64) - 1), 64)


class Store:
    """a builder (or vector) of 64*B+s bits with arbitrary contents"""

    def __init__(self, c, s, B="sym", gmin=0, name="w", jmin=0):
        self.c, self.s = c, s
        if B == "sym":
            j = c.int("j" + name, jmin, BMAX)
            g = c.int("g" + name, gmin, BMAX)
            self.j = j
            self.B = add(D.add(j, g, 64), 8)
        else:
            self.j = None
            self.B = B
        self.n = add(mul64(self.B), s)
        self.nw = add(self.B, 1 if s else 0)
        self.name = name
        self.last = c.bits(name + "last", s)
        self.b = c.call("hb_new", self.n, 0)
        self.havoc()

    def havoc(self):
        c = self.c
        if type(self.nw) is int and self.nw == 0:
            return
        p = c.call("hb_data", self.b)
        r = c.I.st.reg(p.r, True)
        r.name = self.name
        r.segs = [(None, None, ("free",))]
        r.cells = {}
        if self.s:
            self.poke(r, self.B, self.last)

    def poke(self, r, idx, bits):
        key, t, cc = offform(D.mul(idx, 8, 64))
        r.cells.setdefault(key, {})[cc] = (8, D.from_bits(64, list(bits) + [0] * (64 - len(bits))))

    def set_words(self, words):
        """give explicit contents to words: {index: 64 literals}"""
        p = self.c.call("hb_data", self.b)
        r = self.c.I.st.reg(p.r, True)
        for i, bits in words.items():
            self.poke(r, i, bits)

    def word(self, i):
        return self.c.call("hb_word", self.b, i)


def check_tail(c, b, B, tail, tag):
    """builder b must hold 64*B bits followed by `tail` (literals), nothing else"""
    n = add(mul64(B), len(tail))
    nw = (len(tail) + 63) // 64
    c.eq(tag + ": size()", c.call("hb_size", b), n)
    c.eq(tag + ": number of words", c.call("hb_nwords", b), add(B, nw))
    for k in range(nw):
        ch = list(tail[64 * k:64 * k + 64])
        ch += [0] * (64 - len(ch))
        c.eq(tag + ": word %s" % ("B+%d" % k if type(B) is not int else B + k),
             c.call("hb_word", b, add(B, k)), D.from_bits(64, ch))


def follow(c, b, B, tail, tag):
    """the builder must keep working: push a bit, then append 37 bits, then 64 bits"""
    y = c.bits("fy", 1)
    c.call("hb_push", b, D.from_bits(1, y))
    tail = list(tail) + y
    check_tail(c, b, B, tail, tag + " then push_back")
    z = c.bits("fz", 37)
    c.call("hb_append_bits", b, D.from_bits(64, z + [0] * 27), 37)
    tail += z
    u = c.bits("fu", 64)
    c.call("hb_append_bits", b, D.from_bits(64, u), 64)
    tail += u
    check_tail(c, b, B, tail, tag + " then append_bits")


def zx(bits, w=64):
    return D.from_bits(w, list(bits) + [0] * (w - len(bits)))
