"""Whole objects: building every persistent class with arbitrary contents, snapshots, the virtual file."""
from engine import dom as D
from engine.dom import GiveUp
from engine.interp import Ptr, PIte
from engine.models import Models
from engine import layout
from .codeclib import *
from . import common
from .common import ctx

NAME = {"bv": "bit_vector", "rs": "rs_bit_vector", "bp": "bp_vector", "d1": "darray1", "d0": "darray0", "d64": "darray64", "ef": "elias_fano",
        "el": "elias_fano_list", "ec": "elias_fano_compressed_list", "gv": "gamma_vector", "gb": "gamma_bit_vector", "nb": "nibble_vector",
        "ct": "cartesian_tree", "tk": "topk_vector<elias_fano_list>", "tm": "topk_vector<mappable_vector>", "mv": "mappable_vector<uint64_t>",
        "mh": "mappable_vector<uint16_t>"}
TYPES = list(NAME)


# ------------------------------------------------------------------ contents
def parens(c, m, kind="mix", name="x"):
    """m units of 4 balanced parentheses 1 x !x 0, nested/concatenated by a decided skeleton"""
    rnd = Lcg(m * 7 + len(kind))
    def unit(i):
        a = c.bits("%s%d" % (name, i), 1)[0]
        return [1, a, D.lnot(a), 0]
    if kind == "flat":
        return [b for i in range(m) for b in unit(i)]
    if kind == "deep":
        out = []
        for i in range(m):
            out += [1]
        for i in range(m):
            if rnd(4) == 0:
                out += unit(i)
            out += [0]
        return out
    out, depth = [], 0
    i = 0
    while i < m:
        if rnd(3) and not (depth and rnd(3) == 0):
            out.append(1)
            depth += 1
        elif depth and rnd(2):
            out.append(0)
            depth -= 1
        else:
            out += unit(i)
            i += 1
    return out + [0] * depth


def builder(c, bits):
    """a bit builder holding these literals (through the public interface)"""
    n = len(bits)
    b = c.call("hb_new", n, 0)
    if n:
        p = c.call("hb_data", b)
        for k in range(0, n, 64):
            ch = list(bits[k:k + 64])
            c.I.store(Ptr(p.r, k // 64 * 8), 8, D.from_bits(64, ch + [0] * (64 - len(ch))))
    return b


def sym_store(c, s, name="w"):
    return Store(c, s, "sym", name=name)


def values(c, ranks, low=8, name="v"):
    """64-bit values whose order is decided by ranks, lower bits arbitrary (shared by equal ranks)"""
    lows = {r: c.bits("%s%d" % (name, r), low) for r in set(ranks)}
    return [D.from_bits(64, lows[r] + [(r >> k) & 1 for k in range(64 - low)]) for r in ranks]


def mk_bits(P, n, arg=None, kind="free"):
    def f(c):
        bits = c.bits("b", n) if kind == "free" else parens(c, n, kind)
        b = builder(c, bits)
        if P in ("d1", "d0"):
            v = c.call("bv_new", b)
            o = c.call(P + "_new", v)
            c.call("bv_del", v)
        elif arg is None:
            o = c.call(P + "_new", b)
        else:
            o = c.call(P + "_new", b, arg)
        c.call("hb_del", b)
        return o
    return f


def mk_sparse(P, words, period):
    """bits decided at positions (k*period), the rest zero"""
    def f(c):
        n = words * 64 + 5
        bits = [0] * n
        for i in range(3, n, period):
            bits[i] = 1
        b = builder(c, bits if P != "d0" else [1 - x for x in bits])
        v = c.call("bv_new", b)
        o = c.call(P + "_new", v)
        c.call("bv_del", v)
        c.call("hb_del", b)
        return o
    return f


def mk_sym(P, s):
    def f(c):
        S = sym_store(c, s)
        o = c.call(P + "_new", S.b)
        c.call("hb_del", S.b)
        return o
    return f


def mk_ef(n, l, gaps):
    def f(c):
        pos, bits = 0, [0] * n
        for g in gaps:
            pos += g
            if pos < n:
                bits[pos] = 1
            pos += 1
        b = builder(c, bits)
        o = c.call("ef_new", b, l)
        c.call("hb_del", b)
        return o
    return f


def mk_list(P, ls, off):
    def f(c):
        vals = [gamma_val(c, "v%d" % i, l, off) for i, l in enumerate(ls)]
        a = array(c, vals)
        return c.call(P + "_new", a, len(vals))
    return f


def mk_el(n, h):
    def f(c):
        # arbitrary low halves below a decided highest bit keep every prefix sum's high part decided
        vals = [D.from_bits(64, [0] * 0 + c.bits("v%d" % i, 0) + [((i * h + 1) >> k) & 1 for k in range(64)]) for i in range(n)]
        a = array(c, vals)
        return c.call("el_new", a, len(vals))
    return f


def mk_arr(P, n, es, w=None):
    def f(c):
        a = array(c, [c.word("e%d" % i, es * 8) if w is None else D.from_bits(es * 8, c.bits("e%d" % i, w) + [0] * (es * 8 - w)) for i in range(n)], es)
        return c.call(P + "_new", a, n)
    return f


def mk_ranks(P, ranks, low=8):
    def f(c):
        a = array(c, values(c, ranks, low if P != "tk" else 0))
        return c.call(P + "_new", a, len(ranks))
    return f


def mk_d64(gaps):
    def f(c):
        b = c.call("d64b_new")
        for g in gaps:
            c.call("d64b_add", b, g)
        o = c.call("d64_new", b)
        c.call("d64b_del", b)
        return o
    return f


def shapes(P, tier="quick"):
    """[(label, build function)] of one class: empty, tiny, partial last word, several blocks"""
    th = tier == "thorough"
    if P == "bv":
        out = [("%d arbitrary bits" % n, mk_bits(P, n)) for n in (0, 1, 63, 64, 65, 200, 1000)]
        out += [("64*B+%d arbitrary bits, any B" % s, mk_sym(P, s)) for s in (0, 1, 37, 63)]
        return out
    if P == "rs":
        return [("%d arbitrary bits, hints %d" % (n, h), mk_bits(P, n, h)) for n in (0, 1, 64, 511, 512, 600) + ((1100,) if th else ()) for h in (0, 1, 2, 3)]
    if P == "bp":
        return [("%d %s parenthesis units, hints %d" % (m, k, h), mk_bits(P, m, h, k)) for m, k in ((0, "flat"), (1, "flat"), (16, "mix"), (70, "flat"), (70, "deep"), (70, "mix")) for h in (0, 3)] + \
            [("%d %s parenthesis units, hints %d" % (m, k, h), mk_bits(P, m, h, k)) for m, k in ((2100, "flat"),) for h in (2,)]
    if P in ("d1", "d0"):
        out = [("%d bits" % n, mk_bits(P, n)) for n in (0,)]
        return out + [("%d words, one position in %d" % (w, p), mk_sparse(P, w, p)) for w, p in ((1, 9), (8, 5), (20, 1), (80, 70))] + \
            ([("1100 words, one position in 67", mk_sparse(P, 1100, 67))] if th else [])
    if P == "d64":
        return [("%d ones" % len(g), mk_d64(g)) for g in ([], [0], [63, 0, 5], [i % 64 for i in range(70)], [i % 7 for i in range(1100)])]
    if P == "ef":
        return [("%d positions, rank index %d" % (n, r), mk_ef(n, r, g)) for r in (0, 1) for n, g in ((0, []), (1, [0]), (100, [3, 0, 0, 50]), (700, [5] * 80), (3000, [100] * 20))]
    if P == "el":
        return [("%d values" % n, mk_el(n, h)) for n, h in ((0, 1), (1, 1), (3, 5), (40, 7), (90, 1))]
    if P in ("ec", "gv", "gb"):
        off = {"ec": 1, "gv": 1, "gb": 2}[P]
        return [("bit lengths %s" % (ls if len(ls) < 8 else "(%d values)" % len(ls)), mk_list(P, ls, off)) for ls in ([], [1], [63, 1, 40], [3 + i % 30 for i in range(70)])]
    if P == "nb":
        return [("%d nibbles" % n, mk_arr(P, n, 1, 4)) for n in (0, 1, 2, 17)]
    if P in ("ct", "tk", "tm"):
        return [("%d values" % len(r), mk_ranks(P, r)) for r in ([], [1], [2, 1, 3], [5, 5, 1, 9, 9, 2, 2], [(i * 37) % 101 for i in range(90)]) if r or P != "tk"]
    if P == "mv":
        return [("%d arbitrary elements" % n, mk_arr(P, n, 8)) for n in (0, 1, 2, 40)]
    if P == "mh":
        return [("%d arbitrary elements" % n, mk_arr(P, n, 2)) for n in (0, 1, 3, 40)]
    raise KeyError(P)


# ------------------------------------------------------------------ snapshots
def root(P):
    for k, v in common.LAY.items():
        if k.endswith("lay_" + P):
            return v
    raise GiveUp("layout of " + P)


def havoc(c, P, o):
    """every array element and every scalar field of the object becomes arbitrary (array lengths stay)"""
    rt = root(P)
    vs = layout.vectors(rt)
    lens = {no for po, no, es, path in vs}
    for off, n, kind, path, ty in layout.leaves(rt):
        if kind == "int" and off not in lens:
            c.I.store(Ptr(o.r, D.add(c.I.o64(o.o), off, 64)), n, c.word("field%d" % off, n * 8) if ty not in ("bool", "_Bool") else D.from_bits(8, c.bits("field%d" % off, 1) + [0] * 7))
    for po, no, es, path in vs:
        p = peek(c, o, po, 8)
        if isinstance(p, Ptr) and p.r:
            r = c.I.st.reg(p.r, True)
            r.name = path
            r.segs = [(None, None, ("free",))]
            r.cells = {}


def peek(c, o, off, n):
    return c.I.load(Ptr(o.r, D.add(c.I.o64(o.o), off, 64)), n)


def snapshot(c, P, o):
    """(scalar fields, arrays) of an object"""
    rt = root(P)
    vs = layout.vectors(rt)
    sc = {}
    for off, n, kind, path, ty in layout.leaves(rt):
        if kind == "int":
            sc[path] = (peek(c, o, off, n), n * 8)
    arr = {}
    for po, no, es, path in vs:
        p, n = peek(c, o, po, 8), peek(c, o, no, 8)
        arr[path] = (p, n, es)
    return sc, arr


def contents(c, p, n, es, limit=4096):
    """values of an array of decided length, else at three symbolic places"""
    if type(n) is int:
        if n == 0:
            return []
        p = c.I.toptr(p)
        step = 1 if n <= limit else n // limit + 1
        return [(i, c.I.load(Ptr(p.r, D.add(c.I.o64(p.o), i * es, 64)), es)) for i in sorted(set(range(0, n, step)) | {n - 1})]
    p = c.I.toptr(p)
    j = D.mke(64, *D.exact(n))
    return [("last", c.I.load(Ptr(p.r, D.add(c.I.o64(p.o), D.mul(D.sub(j, 1, 64), es, 64), 64)), es)),
            ("first", c.I.load(Ptr(p.r, c.I.o64(p.o)), es))]


def full(c, P, o):
    sc, arr = snapshot(c, P, o)
    return sc, {k: (p, n, es, contents(c, p, n, es)) for k, (p, n, es) in arr.items()}


def same_state(c, what, a, b):
    """scalars and array contents equal (addresses may differ)"""
    for k, (v, w) in a[0].items():
        c.eq("%s: %s" % (what, k), b[0][k][0], v, w)
    for k, (p, n, es, xs) in a[1].items():
        p2, n2, es2, ys = b[1][k]
        if not D.same(n, n2, 64) or len(xs) != len(ys):
            continue                       # reported through the scalar length field
        for (i, x), (i2, y) in zip(xs, ys):
            c.eq("%s: %s[%s]" % (what, k, i), y, x, es * 8)


# ------------------------------------------------------------------ the virtual file
class File:
    """an output stream that collects the written bytes in a region"""

    def __init__(self, c):
        self.c = c
        self.rid = c.I.new_region("file", "file", 1 << 60, "uninit")
        self.cur = 0
        self.st = c.I.new_region("ofstream", "input", 512)
        self.writes = 0

    def model(self, I, a, ins):
        n = a[2]
        if type(n) is int and n >> 63:
            I.event("oob", "negative write length", ins)
        src = a[1]
        if not (type(n) is int and n == 0):
            I.memcpy(Ptr(self.rid, self.cur), src, n, ins)
        self.cur = D.add(self.cur, n, 64)
        self.writes += 1
        return a[0]

    @property
    def stream(self):
        return Ptr(self.st, 0)

    def close(self):
        """from now on the bytes are a read-only mapping of exactly the written size"""
        r = self.c.I.st.reg(self.rid, True)
        r.size = self.cur if type(self.cur) is int else D.exact(self.cur)
        r.ro = True
        r.name = "mapped file"
        return Ptr(self.rid, 0)


class Out:
    """Models with one or more virtual files, dispatching on the stream object"""

    def __init__(self):
        self.files = {}
        self.models = Models({"_ZNSo5writeEPKcl": self.write})

    def open(self, c):
        f = File(c)
        self.files[f.st] = f
        return f

    def write(self, I, a, ins):
        s = I.toptr(a[0])
        return self.files[s.r].model(I, a, ins)


def leaks(c, what, keep=()):
    """every heap block allocated in this context has been released (keep: regions still owned)"""
    n = 0
    for rid, r in c.I.st.mem.items():
        if r.kind in ("new", "new[]", "malloc") and rid not in keep:
            lv = D.lval(r.alive)
            if lv is None:
                c.unknown.append((c.label, what, "liveness of %s undecided" % r.name))
            else:
                n += 1
                c.true("%s: %s" % (what, "no leaked block"), lv == 0, "" if lv == 0 else "block %s (%s bytes) is never released" % (r.name, r.size))
    return n
