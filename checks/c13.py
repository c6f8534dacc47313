"""Ownership: every array is released exactly once, mapped memory never; owners cannot be copied."""
import itertools
import os
from engine import build
from .objlib import *

TITLE = "ownership"
MODS = {"main": ("objs.cpp", 1, 0, ()), "ndebug": ("objs.cpp", 1, 0, ("-DNDEBUG",))}
LAYOUT = "objs.cpp"
RULE = ("typestate of every heap block (allocated, released) along all histories of the listed operations; a history violates the property when a block "
        "is released twice, released while mapped or not at all, or when a vector shows other elements than it was given")
OPS = [("assign", 0), ("assign", 3), ("steal", 0), ("steal", 2), ("clear", 0), ("map", 2), ("map", 0), ("swap", 0)]


class Hist:
    def __init__(self, c, files):
        self.c, self.k = c, 0
        self.files = files
        self.v = [c.call("mv_empty"), c.call("mv_empty")]
        self.m = [[], []]
        self.svs = []

    def arr(self, n):
        self.k += 1
        vals = [self.c.word("e%d_%d" % (self.k, i)) for i in range(n)]
        return vals

    def step(self, op, t):
        c = self.c
        name, n = op
        if name == "assign":
            vals = self.arr(n)
            a = array(c, vals)
            c.call("mv_assign", self.v[t], a, n)
            self.m[t] = vals
        elif name == "steal":
            vals = self.arr(n)
            s = c.call("sv_new", n)
            if n:
                p = c.call("sv_data", s)
                for i, x in enumerate(vals):
                    c.I.store(Ptr(p.r, D.add(c.I.o64(p.o), 8 * i, 64)), 8, x)
            c.call("mv_steal", self.v[t], s)
            c.eq("the donor vector is empty afterwards", c.call("sv_size", s), 0)
            c.call("sv_del", s)
            self.m[t] = vals
        elif name == "clear":
            c.call("mv_clear", self.v[t])
            self.m[t] = []
        elif name == "map":
            vals = self.arr(n)
            f = c.I.new_region("mapped file", "file", 16 + 8 * n)
            c.I.store(Ptr(f, 0), 8, 0)
            c.I.store(Ptr(f, 8), 8, n)
            for i, x in enumerate(vals):
                c.I.store(Ptr(f, 16 + 8 * i), 8, x)
            c.I.st.reg(f, True).ro = True
            c.call("mv_map", self.v[t], Ptr(f, 0), 0)
            self.m[t] = vals
        elif name == "swap":
            c.call("mv_swap", self.v[t], self.v[1 - t])
            self.m.reverse()

    def look(self, what):
        c = self.c
        for t in (0, 1):
            v, m = self.v[t], self.m[t]
            c.eq("%s: size of vector %d" % (what, t), c.call("mv_len", v), len(m))
            for i, x in enumerate(m):
                c.eq("%s: vector %d [%d]" % (what, t, i), c.call("mv_at", v, i), x)
            b, e = c.call("mv_begin", v), c.call("mv_end", v)
            if isinstance(b, Ptr) and isinstance(e, Ptr):
                c.true("%s: begin and end span the elements" % what, b.r == e.r and D.same(D.sub(c.I.o64(e.o), c.I.o64(b.o), 64), 8 * len(m), 64))
            elif type(b) is int and type(e) is int:
                c.true("%s: begin and end span the elements" % what, e - b == 8 * len(m))


def j_hist(r, key, seqs):
    for seq in seqs:
        def body(c):
            h = Hist(c, None)
            done = []
            for op, t in seq:
                h.step(op, t)
                done.append("%s(%d)@%d" % (op[0], op[1], t))
                h.look(" ".join(done))
            for x in h.v:
                c.call("mv_del", x)
            leaks(c, "after destruction")
        ctx(r, key, "history %s" % " ".join("%s(%d)@%d" % (o[0], o[1], t) for o, t in seq), body, steps=400000)


def j_life(r, key, P, i, j):
    """build, dispose, rebuild by swap, destroy: no block lost or released twice"""
    sh = shapes(P)

    def body(c):
        a, b = sh[i][1](c), sh[j][1](c)
        c.call(P + "_swap", a, b)
        c.call(P + "_dispose", a)
        c.call(P + "_swap", a, a)
        c.call(P + "_swap", a, b)
        c.call(P + "_del", b)
        c.call(P + "_del", a)
        leaks(c, "after destruction")
    ctx(r, key, "life cycle of %s: (%s) and (%s)" % (NAME[P], sh[i][0], sh[j][0]), body, steps=4000000)


WITNESS = r"""
#include "%s/harness/objs.cpp"
#include <type_traits>
#define NOCOPY(T) static_assert(!std::is_copy_constructible<T>::value, "OWN copy construction of " #T); \
                  static_assert(!std::is_copy_assignable<T>::value, "OWN copy assignment of " #T);
NOCOPY(bit_vector) NOCOPY(rs_bit_vector) NOCOPY(bp_vector) NOCOPY(darray1) NOCOPY(darray0) NOCOPY(darray64) NOCOPY(elias_fano)
NOCOPY(elias_fano_list) NOCOPY(elias_fano_compressed_list) NOCOPY(gamma_vector) NOCOPY(gamma_bit_vector) NOCOPY(nibble_vector)
NOCOPY(cartesian_tree) NOCOPY(TK) NOCOPY(TM) NOCOPY(MV) NOCOPY(MV16) NOCOPY(bit_vector_builder)
NOCOPY(util::auto_file)
"""


def static(res, tier):
    """compile-time witnesses: a program that copies an owner must not compile"""
    w = build.Work(1, 0)
    try:
        p = os.path.join(w.dir, "own.cpp")
        open(p, "w").write(WITNESS % build.VERIF)
        rc, o, e = build.run([build.CXX] + w.flags() + ["-w", "-fsyntax-only", p])
        n = WITNESS.count("NOCOPY(") - 1
        bad = [ln for ln in e.split("\n") if "error" in ln]
        own = [ln for ln in bad if "OWN " in ln]
        if not bad:
            res.proved += 2 * n
        for ln in own[:6]:
            res.viol.append(dict(kind="copyable", label="compile-fail witness", what=ln.split("OWN ")[1].split('"')[0] + " compiles", loc="type system"))
    finally:
        w.cleanup()
    return {"compile_time_witnesses": 2 * n, "compile_time_witnesses_failed": len(own)}


def jobs(tier):
    one = [(o, t) for o in OPS for t in (0, 1) if not (o[0] == "swap" and t)]
    seqs = []
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        seqs += [s for s in itertools.product(one, repeat=n) if s[0][1] == 0]
    out = [(j_hist, ("main", seqs[k::40])) for k in range(40)]
    out.append((j_hist, ("ndebug", [s for s in seqs if len(s) <= 2])))
    for P in TYPES:
        n = len(shapes(P))
        for i in range(n):
            out.append((j_life, ("main", P, i, (i * 3 + 1) % n)))
    return out
