"""Models of library functions outside the analysed repository (allocator, libstdc++ vectors, libc)."""
import re
from . import dom as D
from .dom import GiveUp, Sym
from .interp import Ptr, PIte, NULL, Dead, Unwind, M64, Fn

SIZES = {"a": 1, "h": 1, "c": 1, "b": 1, "s": 2, "t": 2, "i": 4, "j": 4, "l": 8, "m": 8, "x": 8, "y": 8}


def size_of_region(sz):
    if type(sz) is int:
        return sz
    return D.exact(sz)


def m_new(kind):
    def f(I, a, ins):
        n = a[0]
        rid = I.new_region("heap#%d" % (I.nreg + 1), kind, size_of_region(n))
        return Ptr(rid, 0)
    return f


def m_delete(kind):
    def f(I, a, ins):
        p = a[0]
        if isinstance(p, PIte):
            lv = D.lval(p.c)
            if lv is None:
                raise GiveUp("gated delete")
            p = p.a if lv else p.b
        p = I.toptr(p)
        if p.r == 0:
            return None
        r = I.st.mem.get(p.r)
        if r is None:
            I.event("badfree", "release of a local object", ins)
            raise Dead
        if r.kind not in ("new", "new[]", "malloc"):
            I.event("badfree", "release of storage that was not allocated (%s)" % r.name, ins)
            raise Dead
        if D.lval(r.alive) == 0:
            I.event("doublefree", "%s released twice" % r.name, ins)
            raise Dead
        if r.kind != kind:
            I.event("badfree", "%s allocated with %s but released as %s" % (r.name, r.kind, kind), ins)
        if type(p.o) is not int or p.o != 0:
            I.event("badfree", "release of an interior pointer of %s" % r.name, ins)
        if r.ro and r.ro is not True:
            I.event("ro", "release of unchanging %s" % r.name, ins)
            raise Dead
        r = I.st.reg(p.r, True)
        r.alive = 0
        return None
    return f


def m_assert(I, a, ins):
    I.event("assert", "assertion fails", ins)
    raise Dead


def m_throw(I, a, ins):
    if I.depth == 0:
        raise Unwind(a[0] if a and isinstance(a[0], Ptr) else NULL)
    I.event("throw", "exception thrown", ins)
    raise Dead


def m_first(I, a, ins):
    return a[0]


def m_rethrow(I, a, ins):
    return m_throw(I, [I.flying], ins)


def byte(I, p, k, ins):
    v = I.load(Ptr(p.r, D.add(I.o64(p.o), k, 64)), 1, ins)
    if isinstance(v, (Ptr, PIte, Fn)):
        raise GiveUp("byte of a pointer")
    return v


def m_strlen(I, a, ins):
    p = I.toptr(a[0])
    for k in range(1 << 17):
        lv = D.lval(D.eq_lit(byte(I, p, k, ins), 0, 8))
        if lv is None:
            raise GiveUp("string end")
        if lv:
            return k
    raise GiveUp("long string")


def m_cmp(kind):
    def f(I, a, ins):
        p, q = I.toptr(a[0]), I.toptr(a[1])
        n = a[2] if kind == "memcmp" else 1 << 16
        if type(n) is not int:
            raise GiveUp("memcmp length")
        for k in range(n):
            x, y = byte(I, p, k, ins), byte(I, q, k, ins)
            e = D.lval(D.eq_lit(x, y, 8))
            if e is None:
                raise GiveUp(kind)
            if not e:
                l = D.lval(D.icmp("ult", x, y, 8))
                if l is None:
                    raise GiveUp(kind)
                return 0xffffffff if l else 1
            if kind == "strcmp" and D.lval(D.eq_lit(x, 0, 8)):
                return 0
        return 0
    return f


def m_dead(I, a, ins):
    raise Dead


def m_nop(I, a, ins):
    return None


def m_zero(I, a, ins):
    return 0


def m_one(I, a, ins):
    return 1


def m_guard_acquire(I, a, ins):
    v = I.load(a[0], 1, ins)
    if type(v) is int and v & 1:
        return 0
    I.guarding += 1
    return 1


def m_guard_release(I, a, ins):
    I.guarding -= 1
    I.store(a[0], 1, 1, ins)
    return None


def m_memcpy(I, a, ins):
    I.memcpy(a[0], a[1], a[2], ins)
    return a[0]


def m_memset(I, a, ins):
    v = a[1]
    I.memset(a[0], v & 255 if type(v) is int else D.trunc(v, 32, 8), a[2], ins)
    return a[0]


def m_disjunct(I, a, ins):
    """std::string::_M_disjunct: does the argument lie outside this string's own buffer?"""
    p, q = I.toptr(a[0]), I.toptr(a[1])
    d = I.load(Ptr(p.r, p.o), 8, ins)
    if not isinstance(d, Ptr):
        return NotImplemented
    return 1 if d.r != q.r else NotImplemented


# ------------------------------------------------------------------ std::vector<builtin>
class Vec:
    def __init__(self, I, this, es, ins):
        self.I, self.p, self.es, self.ins = I, this, es, ins
        self.b = self.get(0)
        self.e = self.get(8)
        self.c = self.get(16)
        for x in (self.b, self.e, self.c):
            if not isinstance(x, Ptr):
                raise GiveUp("vector pointers")
        if not (self.b.r == self.e.r == self.c.r):
            raise GiveUp("vector shape")

    def get(self, o):
        q = I_add(self.I, self.p, o)
        v = self.I.load(q, 8, self.ins)
        return Ptr(0, v) if type(v) is int else v

    def put(self, b, e, c):
        for o, v in ((0, b), (8, e), (16, c)):
            self.I.store(I_add(self.I, self.p, o), 8, v, self.ins)
        self.b, self.e, self.c = b, e, c

    def size(self):
        return D.udiv(D.sub(self.I.o64(self.e.o), self.I.o64(self.b.o), 64), self.es, 64)

    def cap(self):
        return D.udiv(D.sub(self.I.o64(self.c.o), self.I.o64(self.b.o), 64), self.es, 64)

    def realloc(self, cap):
        I, es = self.I, self.es
        n = self.size()
        if I.st.mem.get(self.b.r) is None and self.b.r != 0:
            raise GiveUp("vector storage")
        rid = I.new_region("vec#%d" % (I.nreg + 1), "new", size_of_region(D.mul(cap, es, 64)))
        nb = Ptr(rid, 0)
        nbytes = D.mul(n, es, 64)
        if not (type(nbytes) is int and nbytes == 0):
            I.memcpy(nb, self.b, nbytes, self.ins)
        if self.b.r != 0:
            m_delete("new")(I, [self.b], self.ins)
        self.put(nb, Ptr(rid, nbytes), Ptr(rid, D.mul(cap, es, 64)))

    def ensure(self, extra):
        """room for `extra` more elements (libstdc++ growth: size + max(size, extra))"""
        n = self.size()
        need = D.add(n, extra, 64)
        l = D.icmp("ule", need, self.cap(), 64)
        lv = D.lval(l)
        if lv is None:
            raise GiveUp("capacity")
        if lv == 0:
            g = D.lval(D.icmp("uge", n, extra, 64))
            # libstdc++ grows to size + max(size, extra); undecided: exactly what is needed (also legal)
            self.realloc(D.add(n, n if g else extra, 64))

    def append(self, v):
        self.ensure(1)
        self.I.store(self.e, self.es, v, self.ins)
        self.put(self.b, Ptr(self.e.r, D.add(self.I.o64(self.e.o), self.es, 64)), self.c)

    def fill_end(self, cnt, v):
        """append cnt copies"""
        I, es = self.I, self.es
        if type(cnt) is int and cnt == 0:
            return
        if D.lval(D.icmp("eq", cnt, 0, 64)) == 1:
            return
        self.ensure(cnt)
        if type(cnt) is int and cnt <= 4096:
            o = self.e.o
            for k in range(cnt):
                I.store(Ptr(self.e.r, D.add(I.o64(o), k * es, 64)), es, v, self.ins)
        else:
            nf = D.exact(D.mul(cnt, es, 64))
            I.chk_range(self.e, nf, "write", self.ins)
            r = I.st.reg(self.e.r, True)
            s = D.sexact(I.o64(self.e.o), 64)
            e = D.ladd(s, nf)
            I.drop_cells(r, s, e)
            r.segs.append((s, e, ("zero",) if type(v) is int and v == 0 else ("fill", v, es)))
        self.put(self.b, Ptr(self.e.r, D.add(I.o64(self.e.o), D.mul(cnt, es, 64), 64)), self.c)

    def resize(self, n, v):
        cur = self.size()
        l = D.lval(D.icmp("ugt", n, cur, 64))
        if l is None:
            raise GiveUp("resize direction")
        if l:
            self.fill_end(D.sub(n, cur, 64), v)
        else:
            self.put(self.b, Ptr(self.b.r, D.add(self.I.o64(self.b.o), D.mul(n, self.es, 64), 64)), self.c)


def I_add(I, p, o):
    if isinstance(p, PIte):
        raise GiveUp("gated this")
    p = I.toptr(p)
    return Ptr(p.r, D.add(I.o64(p.o), o, 64))


def v_push(es):
    def f(I, a, ins):
        v = I.load(a[1], es, ins)
        Vec(I, a[0], es, ins).append(v)
        return None
    return f


def v_emplace(es):
    def f(I, a, ins):
        v = I.load(a[1], es, ins)
        vec = Vec(I, a[0], es, ins)
        vec.append(v)
        return Ptr(vec.e.r, D.sub(I.o64(vec.e.o), es, 64))
    return f


def v_resize(es):
    def f(I, a, ins):
        Vec(I, a[0], es, ins).resize(a[1], 0)
        return None
    return f


def v_resize_v(es):
    def f(I, a, ins):
        v = I.load(a[2], es, ins)
        Vec(I, a[0], es, ins).resize(a[1], v)
        return None
    return f


def v_reserve(es):
    def f(I, a, ins):
        vec = Vec(I, a[0], es, ins)
        l = D.lval(D.icmp("ugt", a[1], vec.cap(), 64))
        if l is None:
            raise GiveUp("reserve")
        if l:
            vec.realloc(a[1])
        return None
    return f


def v_insert_n(es):
    def f(I, a, ins):
        # insert(const_iterator pos, size_type n, const T& v): modelled at end only
        vec = Vec(I, a[0], es, ins)
        pos = I.toptr(a[1])
        if not (pos.r == vec.e.r and D.same(I.o64(pos.o), I.o64(vec.e.o), 64)):
            return NotImplemented
        v = I.load(a[3], es, ins)
        off = D.sub(I.o64(vec.e.o), I.o64(vec.b.o), 64)
        vec.fill_end(a[2], v)
        return Ptr(vec.b.r, D.add(I.o64(vec.b.o), off, 64))
    return f


VEC = [
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE9push_backERKS?\d?_?\w?$"), v_push),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE9push_backEO\w$"), v_push),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE12emplace_backIJ(?:RK|R|)\1EEERT?\w*"), v_emplace),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE6resizeEm$"), v_resize),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE6resizeEmRK\w$"), v_resize_v),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE7reserveEm$"), v_reserve),
    (re.compile(r"^_ZNSt6vectorI(\w)SaI\1EE6insertEN9__gnu_cxx17__normal_iteratorIPK\1S1_EEmRS4_$"), v_insert_n),
]

FIXED = {
    "_Znwm": m_new("new"), "_Znam": m_new("new[]"), "malloc": m_new("malloc"),
    "_ZdlPv": m_delete("new"), "_ZdlPvm": m_delete("new"), "_ZdaPv": m_delete("new[]"), "_ZdaPvm": m_delete("new[]"),
    "free": m_delete("malloc"),
    "__assert_fail": m_assert, "abort": m_dead, "exit": m_dead,
    "memcpy": m_memcpy, "memmove": m_memcpy, "memset": m_memset,
    "__cxa_atexit": m_zero, "__cxa_guard_acquire": m_guard_acquire, "__cxa_guard_release": m_guard_release,
    "_ZNSt8ios_base4InitC1Ev": m_nop, "_ZNSt8ios_base4InitD1Ev": m_nop,
    "__cxa_throw": m_throw, "__cxa_allocate_exception": m_new("malloc"), "__clang_call_terminate": m_dead,
    "_ZSt9terminatev": m_dead, "__cxa_begin_catch": m_first, "__cxa_end_catch": m_nop, "__cxa_rethrow": m_rethrow,
    "__cxa_free_exception": m_delete("malloc"), "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc": m_disjunct,
    "strlen": m_strlen, "strcmp": m_cmp("strcmp"), "memcmp": m_cmp("memcmp"),
}


class Models:
    def __init__(self, extra=None):
        self.extra = extra or {}

    def lookup(self, I, name):
        m = self.extra.get(name)
        if m is not None:
            return m
        m = FIXED.get(name)
        if m is not None:
            return m
        if name.startswith("_ZSt") and "__throw_" in name:
            return m_throw
        if name.startswith("_ZNSt6vectorI"):
            for rx, mk in VEC:
                k = rx.match(name)
                if k and k.group(1) in SIZES and k.group(1) != "b":
                    return mk(SIZES[k.group(1)])
        return None
