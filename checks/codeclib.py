"""Lists of integers with chosen bit lengths and arbitrary lower bits."""
from engine import dom as D
from engine.interp import Ptr
from .bitlib import *


def array(c, vals, es=8, name="in"):
    rid = c.I.new_region(name, "input", max(1, len(vals)) * es)
    for i, v in enumerate(vals):
        c.I.store(Ptr(rid, i * es), es, v)
    return Ptr(rid, 0)


def with_msb(c, name, l, w=64):
    """an arbitrary value whose highest one is bit l"""
    return D.from_bits(w, c.bits(name, l) + [1] + [0] * (w - 1 - l))


def gamma_val(c, name, l, off):
    """an arbitrary v such that v + off has its highest one at bit l"""
    return D.sub(with_msb(c, name, l), off, 64)


class Lcg:
    def __init__(self, s):
        self.s = (s * 2654435761 + 12345) & 0xffffffff

    def __call__(self, n):
        self.s = (self.s * 1103515245 + 12345) & 0x7fffffff
        return (self.s >> 8) % n


def ef_positions(c, l, hs, name="p", share=True):
    """non-decreasing positions with high parts hs and arbitrary l low bits (elements of one bucket share them)"""
    out = []
    last = None
    for i, h in enumerate(hs):
        if last is not None and last[0] == h and share:
            low = last[1]
        else:
            low = c.bits("%s%d" % (name, i), l)
        last = (h, low)
        out.append(D.from_bits(64, low + [(h >> k) & 1 for k in range(64 - l)]))
    return out


def ef_highs(kind, m, rnd):
    """high parts of m elements; the universe of l-bit buckets is then about m"""
    h, out = 0, []
    for i in range(m):
        out.append(h)
        if kind == "even":
            h += 1
        elif kind == "dups":
            h += int(rnd(3) == 0)
        elif kind == "gaps":
            h += 0 if rnd(4) else rnd(9)
        elif kind == "cluster":
            # two crowds separated by a long stretch of empty buckets
            h = rnd(2) if i + 1 < m // 2 and h == 0 else (h if i + 1 < m // 2 else max(h, m - 2 + rnd(2)))
        elif kind == "far":
            h += 0 if rnd(8) else rnd(400)
        else:
            h += rnd(3)
    return out
