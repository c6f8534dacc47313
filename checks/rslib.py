"""Rank/select structures over a bounded number of words with chosen contents."""
from engine import dom as D
from .bitlib import *
from .c03 import cnt
from . import common
from .common import ctx
from engine.check import Result
from engine.models import Models


def store(c, bits):
    """builder holding the given literals"""
    n = len(bits)
    S = Store(c, n % 64, n // 64)
    if n:
        p = c.call("hb_data", S.b)
        reg = c.I.st.reg(p.r, True)
        for k in range(0, n, 64):
            ch = list(bits[k:k + 64])
            S.poke(reg, k // 64, ch + [0] * (64 - len(ch)))
    return S


class Prefix:
    """prefix sums of literals as linear forms"""

    def __init__(self, bits):
        self.bits = bits
        f = (0, {})
        self.f = [f]
        for l in bits:
            g = D.lit_form(l)
            t = dict(f[1])
            for a, k in g[1].items():
                v = t.get(a, 0) + k
                if v:
                    t[a] = v
                else:
                    t.pop(a, None)
            f = (f[0] + g[0], t)
            self.f.append(f)

    def ones(self, p):
        return D.mke(64, self.f[p][0], dict(self.f[p][1]))

    def zeros(self, p):
        c, t = self.f[p]
        return D.mke(64, p - c, {a: -k for a, k in t.items()})


# ---- a summary of the 9-bit parallel comparison, used only after it was established on this tree
SUMMARY = {}
PURE = ("add", "sub", "and", "or", "xor", "shl", "lshr", "mul", "ret", "zext", "trunc", "icmp", "select")


def pure(m, f, depth=0):
    """straight-line arithmetic, possibly through helpers"""
    if f is None or f.is_decl or len(f.blocks) != 1 or depth > 4:
        return False
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == "call":
                c = i.x["callee"]
                if c[0] != "g" or not (c[1].startswith("llvm.dbg") or pure(m, m.get(c[1]), depth + 1)):
                    return False
            elif i.op not in PURE:
                return False
    return True


def prove_uleq9(r, key, fn, i):
    for tx in (0, 1):
        for ty in (0, 1):
            def body(c):
                xb, yb = c.bits("x", 63) + [0], c.bits("y", 63) + [0]
                xb[9 * i + 8], yb[9 * i + 8] = tx, ty
                bx, by = D.from_bits(9, xb[9 * i:9 * i + 9]), D.from_bits(9, yb[9 * i:9 * i + 9])
                z = D.bits(c.call(fn, D.from_bits(64, xb), D.from_bits(64, yb)), 64)
                c.eq("parallel comparison, field %d" % i, D.from_bits(9, list(z[9 * i:9 * i + 9])),
                     D.zext(D.from_lit(D.icmp("ule", bx, by, 9), 1), 1, 9), 9)
                if i == 0:
                    c.eq("parallel comparison, bit 63", D.from_bits(1, [z[63]]), 0, 1)
            ctx(r, key, "9-bit fields, field %d with top bits %d, %d" % (i, tx, ty), body)
            if r.nunk or r.viol:
                return


def m_uleq9(I, args, ins):
    x, y = args
    if D.bit(x, 63) != 0 or D.bit(y, 63) != 0:
        return NotImplemented
    out = 0
    for i in range(7):
        fx = D.and_(D.lshr(x, 9 * i, 64), 511, 64)
        fy = D.and_(D.lshr(y, 9 * i, 64), 511, 64)
        out = D.add(out, D.shl(D.zext(D.from_lit(D.icmp("ule", fx, fy, 64), 1), 1, 64), 9 * i, 64), 64)
    return out


def summaries(key):
    """models for functions whose contract holds on this tree: any two-word function of the library that
    provably compares seven 9-bit fields"""
    sk = id(common.module(key))
    if sk not in SUMMARY:
        mode, common.MODE = common.MODE, None
        m = {}
        for fn, f in list(common.module(key).funcs.items()):
            if not (fn.startswith("_ZN8succinct") and fn.endswith("Emm")) or f.is_decl:
                continue
            f = common.module(key).get(fn)
            if not pure(common.module(key), f):
                continue
            r = Result()
            for i in range(7):
                prove_uleq9(r, key, fn, i)
                if r.nunk or r.viol:
                    break
            else:
                m[fn] = m_uleq9
        SUMMARY[sk] = m
        common.MODE = mode
    return SUMMARY[sk]


def j_summary(r, key):
    """the same obligations, counted"""
    if common.MODE:
        return
    for fn in summaries(key):
        for i in range(7):
            prove_uleq9(r, key, fn, i)
