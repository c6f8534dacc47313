"""Abstract interpretation of LLVM IR over the domain of dom.py.

Control flow: a branch whose condition is decided by the domain is followed; otherwise both arms are
analysed up to the immediate post-dominator and their states are joined (gated by the branch literal).
Nothing is executed, no solver is consulted, no path is enumerated past a join.
"""
import re
from . import dom as D
from . import ir
from .dom import Sym, GiveUp


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=0):
        self.r, self.o = r, o          # region id (0 = null), offset (int or 64-bit Sym)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.r, self.o)


class PIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Bad:
    """a value that could not be joined; using it gives up"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


NULL = Ptr(0, 0)
M64 = (1 << 64) - 1


class Region:
    __slots__ = ("id", "name", "kind", "size", "alive", "cells", "segs", "owner", "ro", "esz")

    def __init__(self, id, name, kind, size, segs=None):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.alive = 1                # literal: 1 alive, 0 freed, or a literal
        self.cells = {}               # symkey -> {constoff: (n, value)}
        self.segs = segs or []        # later segments shadow earlier ones
        self.owner = None
        self.ro = False

    def clone(self, owner):
        r = Region.__new__(Region)
        r.id, r.name, r.kind, r.size, r.alive = self.id, self.name, self.kind, self.size, self.alive
        r.cells = {k: dict(v) for k, v in self.cells.items()}
        r.segs = list(self.segs)
        r.owner, r.ro = owner, self.ro
        return r


class Tab:
    """a constant table as an evaluable function of the byte offset"""

    def __init__(self, vals):
        self.vals = vals

    def __call__(self, o):
        return self.vals.get(signed(o, 64), 0)


class Event:
    def __init__(self, kind, msg, loc, guards, data=None):
        self.kind, self.msg, self.loc, self.guards, self.data = kind, msg, loc, tuple(guards), data

    def __repr__(self):
        return "Event(%s %s @%s guards=%d)" % (self.kind, self.msg, self.loc, len(self.guards))


class Unwind(Exception):
    """a C++ exception leaving a frame (only while nothing is forked)"""

    def __init__(self, obj):
        self.obj = obj


class Dead(Exception):
    """the arm ends (abort, throw, infeasible)"""


class State:
    __slots__ = ("mem", "guards", "tok", "dead")

    def __init__(self):
        self.mem = {}
        self.guards = ()
        self.tok = object()
        self.dead = False

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.guards = self.guards
        self.tok = object()           # our regions are shared now
        return s

    def reg(self, rid, write=False):
        r = self.mem[rid]
        if write and r.owner is not self.tok:
            r = self.mem[rid] = r.clone(self.tok)
        return r


def offform(o):
    """offset -> (symkey, terms, const)"""
    if type(o) is int:
        if o >> 63:
            o -= 1 << 64
        return None, None, o
    c, t = D.sexact(o, 64)
    return frozenset(t.items()), t, c


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Interp:
    def __init__(self, mod, models=None, step_limit=3000000, depth_limit=160):
        self.m = mod
        self.models = models or {}
        self.model_cache = {}
        self.events = []
        self.nreg = 0
        self.steps = 0
        self.step_limit = step_limit
        self.depth_limit = depth_limit
        self.depth = 0
        self.naccess = self.nstore = self.narith = self.nassert = 0
        self.watch = False            # queries only: every store to a mutable global is reported
        self.guarding = 0             # inside the one-time initialisation of a function-local static
        self.globals = {}
        self.st = State()
        self.fnreg = {}
        self.widecell = False
        self.regfn = {}
        self.called = set()
        self.bases = {}
        self.baseatom = {}
        self.merges = 0
        self.stack = []
        self.trust_params = True
        self.uninit_reads = 0
        self.noassert = False
        self.inputs = {}
        self.tabs = {}
        self.dead = []                # guard conjunctions under which the program ends early

    # -------------------------------------------------------------- events
    def event(self, kind, msg, ins=None, lit=None):
        loc = self.where(ins)
        for e in self.events:
            if e.kind == kind and e.loc == loc and e.guards == self.st.guards:
                return
        e = Event(kind, msg, loc, self.st.guards)
        e.lit = lit
        self.events.append(e)

    def where(self, ins=None):
        """innermost frame location that lies in the analysed repository, if any"""
        cand = []
        if ins is not None:
            cand.append(ins.dbg)
        for fr in reversed(self.stack):
            if fr[1] is not None:
                cand.append(fr[1].dbg)
        first = None
        for d in cand:
            l = self.m.loc(d)
            if l and l[0]:
                if first is None:
                    first = l
                if l[0].startswith("/repo/"):
                    return "%s:%d" % (l[0][6:], l[1])
        return "%s:%d" % first if first else "?"

    # -------------------------------------------------------------- memory
    def new_region(self, name, kind, size, default="uninit"):
        self.nreg += 1
        rid = self.nreg
        r = Region(rid, name, kind, size, [(None, None, (default,))])
        r.owner = self.st.tok
        self.st.mem[rid] = r
        return rid

    def base(self, rid):
        b = self.bases.get(rid)
        if b is None:
            b = self.bases[rid] = D.free("addr(%d)" % rid, 1, 1 << 43, tag="addr")
            self.baseatom[b] = rid
        return b

    def global_ptr(self, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        if name in self.m.funcs:
            return Fn(name)
        rid = self.globals.get(name)
        if rid is None:
            g = ir.global_def(self.m, name)
            if g is None:
                raise GiveUp("global " + name)
            _, t, init, const, tls = g
            self.nreg += 1
            rid = self.nreg
            r = Region(rid, name, "global", t.sizeof(), [(None, None, ("zero" if init is not None else "free",))])
            r.ro = const
            # globals are visible in every state: create directly in the current one, and remember
            self.globals[name] = rid
            r.owner = None
            dyn = self.m.dyninit
            if dyn is False and not const and not tls:
                raise GiveUp("dynamic initialisation not analysed")
            if dyn and name in dyn:
                r.cells = {None: dict(dyn[name])}
            elif init is not None:
                self.init_cells(r, 0, t, init)
            self.ginit = getattr(self, "ginit", {})
            self.ginit[rid] = r
            self.st.mem[rid] = r
        elif rid not in self.st.mem:
            self.st.mem[rid] = self.ginit[rid]
        return Ptr(rid, 0)

    def init_cells(self, r, off, t, v):
        k = v[0]
        cs = r.cells.setdefault(None, {})
        if k == "z" or k == "u":
            return
        if k == "agg":
            if t.k == "struct":
                for o, ft, (et, ev) in zip(t.offsets(), t.fields, v[2]):
                    self.init_cells(r, off + o, ft, ev)
            else:
                sz = t.el.sizeof()
                for i, (et, ev) in enumerate(v[2]):
                    self.init_cells(r, off + i * sz, t.el, ev)
        elif k == "s":
            raw = v[1][2:-1] if v[1][0] == "c" else v[1][1:-1]
            i, j = 0, off
            while i < len(raw):
                if raw[i] == "\\":
                    b = int(raw[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(raw[i])
                    i += 1
                cs[j] = (1, b)
                j += 1
        else:
            cs[off] = (t.sizeof(), self.const(v, t))

    def find(self, r, key, t, c, n, ins):
        """value of n bytes at symbolic-base key + c in region r"""
        cs = r.cells.get(key)
        if cs:
            v = cs.get(c)
            if v is not None and v[0] == n:
                return v[1]
            over = [(o, m, x) for o, (m, x) in self.near(cs, c, n) if o < c + n and c < o + m]
        else:
            over = []
        # cells under other symbolic bases must be provably elsewhere
        for k2, cs2 in r.cells.items():
            if k2 == key or not cs2:
                continue
            d = self.keydiff(key, k2)
            lo, hi = D.brng(0, d)
            for o, (m, x) in cs2.items():
                # our start - their start = d + c - o
                if hi + c - o + n <= 0 or lo + c - o >= m:
                    continue
                raise GiveUp("alias")
        if not over:
            return self.default(r, key, t, c, n, ins)
        # assemble bytes
        parts = []
        pos = c
        end = c + n
        over.sort(key=lambda z: z[0])
        for o, m, x in over:
            if o > pos:
                parts.append((pos - c, o - pos, self.default(r, key, t, pos, o - pos, ins)))
                pos = o
            s = max(pos, o)
            e = min(end, o + m)
            parts.append((s - c, e - s, self.slice(x, m, s - o, e - s)))
            pos = e
        if pos < end:
            parts.append((pos - c, end - pos, self.default(r, key, t, pos, end - pos, ins)))
        return self.glue(parts, n)

    def glue(self, parts, n):
        w = n * 8
        if all(type(v) is int or isinstance(v, Sym) for _, _, v in parts):
            if all(type(v) is int or v.b is not None for _, _, v in parts):
                b = []
                for o, m, v in parts:
                    b.extend(D.bits(v, m * 8))
                return D.from_bits(w, b)
            f = (0, {})
            for o, m, v in parts:
                f = D.ladd(f, D.lscale(D.exact(v), 1 << (8 * o)))
            return D.mke(w, *f)
        raise GiveUp("glue pointers")

    def slice(self, v, m, s, n):
        if s == 0 and n == m:
            return v
        if isinstance(v, (Ptr, PIte, Fn)):
            if v is NULL or (isinstance(v, Ptr) and v.r == 0):
                return 0
            v = self.ptr2int(v)
        if type(v) is int or isinstance(v, Sym):
            return D.trunc(D.lshr(v, 8 * s, 8 * m), 8 * m, 8 * n)
        raise GiveUp("slice")

    def keydiff(self, k1, k2):
        d = dict(k1) if k1 else {}
        for a, v in (k2 or ()):
            n = d.get(a, 0) - v
            if n:
                d[a] = n
            else:
                d.pop(a, None)
        return d

    def default(self, r, key, t, c, n, ins):
        for start, end, src in reversed(r.segs):
            if start is not None:
                # inside iff start <= off and off+n <= end
                off = (c, t or {})
                a = D.decide_ge(*D.lsub(off, start))
                if a is None:
                    raise GiveUp("segment")
                e = D.lsub(end, (c + n, t or {}))
                b = D.decide_ge(*e)
                if a == 1 and b == 1:
                    pass
                else:
                    # outside entirely?
                    if a == 0:
                        if D.decide_ge(*D.lsub(start, (c + n, t or {}))) == 1:
                            continue
                    if b == 0 or b is None:
                        if D.decide_ge(*D.lsub(off, end)) == 1:
                            continue
                    # partial overlap: bytewise
                    if n > 1:
                        parts = [(i, 1, self.find(r, key, t, c + i, 1, ins)) for i in range(n)]
                        return self.glue(parts, n)
                    raise GiveUp("segment")
            k = src[0]
            if k == "zero":
                return 0
            if k == "uninit":
                return self.fresh(r, key, t, c, n, "uninit", ins)
            if k == "free":
                return self.fresh(r, key, t, c, n, "in", ins)
            if k == "fn":
                return src[1](self, r, key, t, c, n)
            if k == "fill":
                # repeated element value
                val, es = src[1], src[2]
                if n == es:
                    return val
                if es == 1 and type(val) is int:
                    return int.from_bytes(bytes([val]) * n, "little")
                if val == 0:
                    return 0
                raise GiveUp("fill width")
            if k == "view":
                snap, delta = src[1], src[2]
                f = D.ladd((c, t or {}), delta)
                key2 = frozenset(f[1].items()) if f[1] else None
                return self.find(snap, key2, f[1], f[0], n, ins)
            raise GiveUp("default " + k)
        raise GiveUp("no default")

    def fresh(self, r, key, t, c, n, tag, ins):
        """unknown content: one atom per bit, one cell per aligned 8-byte granule where possible"""
        ck = (id(r.segs[0]) if tag == "in" else r.id, tag, key)
        b = []
        for i in range(c, c + n):
            for j in range(8):
                kk = ("mem", r.id, tag, key, i, j)
                a = D._key.get(kk)
                if a is None:
                    nm = "%s[%s%d].%d" % (r.name, "+".join("%d*%s" % (v, D.NAME[x]) for x, v in (key or ())) + ("+" if key else ""), i, j)
                    a = D.free(nm, 0, 1, tag="uninit" if tag == "uninit" else ("in", r.id))
                    D._key[kk] = a
                b.append(a)
        return D.from_bits(8 * n, b)

    def chk_access(self, p, n, what, ins):
        """range/liveness obligations of an access; raises Dead on a definite violation"""
        self.naccess += 1
        if p.r == 0:
            self.event("null", "%s through a null pointer" % what, ins)
            raise Dead
        if p.r == -1:
            self.event("uninit", "%s through an uninitialised pointer" % what, ins)
            raise Dead
        r = self.st.mem.get(p.r)
        if r is None:
            self.event("uaf", "%s of a local object after its function returned" % what, ins)
            raise Dead
        if r.alive != 1:
            lv = D.lval(r.alive)
            if lv == 0:
                self.event("uaf", "%s of %d bytes in %s after it was released" % (what, n, r.name), ins)
                raise Dead
            if lv is None:
                self.gevent("uaf", "%s of %d bytes in %s after it was released" % (what, n, r.name), ins, D.lnot(r.alive))
        key, t, c = offform(p.o)
        if r.size is not None:
            off = (c, t or {})
            l1 = D.ge(*off)
            sz = r.size if isinstance(r.size, tuple) else (r.size, {})
            l2 = D.ge(*D.lsub(D.lsub(sz, off), (n, {})))
            for l, side in ((l1, "before the start"), (l2, "past the end")):
                lv = D.lval(l)
                if lv == 0:
                    self.event("oob", "%s of %d bytes %s of %s (offset %s)" % (what, n, side, r.name, D.show(p.o)), ins)
                    raise Dead
                if lv is None:
                    self.gevent("oob", "%s of %d bytes %s of %s (offset %s)" % (what, n, side, r.name, D.show(p.o)), ins, D.lnot(l))
        return r, key, t, c

    def gevent(self, kind, msg, ins, lit):
        """event under an extra guard literal"""
        old = self.st.guards
        self.st.guards = old + (lit,)
        self.event(kind, msg, ins)
        self.st.guards = old

    def under(self, l, f):
        """f() under one more guard; Dead if that arm ends"""
        old = self.st.guards
        und = self.snap()
        self.st.guards = old + (l,)
        self.assume(l)
        try:
            return f()
        except Dead:
            self.dead.append(self.st.guards)
            return Dead
        finally:
            self.restore(und)
            self.st.guards = old

    def load(self, p, n, ins=None):
        if isinstance(p, PIte):
            lv = D.lval(p.c)
            if lv is not None:
                return self.load(p.a if lv else p.b, n, ins)
            a = self.under(p.c, lambda: self.load(p.a, n, ins))
            b = self.under(D.lnot(p.c), lambda: self.load(p.b, n, ins))
            if a is Dead and b is Dead:
                raise Dead
            if a is Dead or b is Dead:
                return b if a is Dead else a
            return self.join(p.c, a, b, n * 8)
        p = self.toptr(p)
        if D.SMALL and type(p.o) is not int:
            return self.load_few(p, n, ins)
        r, key, t, c = self.chk_access(p, n, "read", ins)
        if key is not None and r.cells.get(None) and self.tabular(r, key):
            return self.table(r, t, c, n, ins)
        return self.find(r, key, t, c, n, ins)

    def load_few(self, p, n, ins):
        """the offset depends on few bits: read at each possible offset"""
        key, t, c = offform(p.o)
        f = D.form_tt(c, t) if t else None
        r = self.st.mem.get(p.r)
        if f is None or r is None or not r.cells.get(None):
            r, key, t, c = self.chk_access(p, n, "read", ins)
            if key is not None and r.cells.get(None) and self.tabular(r, key):
                return self.table(r, t, c, n, ins)
            return self.find(r, key, t, c, n, ins)
        offs = sorted({f[1][m] for m in D.feasible(f[0])})
        if len(offs) == 1:
            r, key, t, c = self.chk_access(Ptr(p.r, offs[0]), n, "read", ins)
            return self.find(r, key, t, c, n, ins)
        self.chk_access(p, n, "read", ins)
        if len(offs) > 40:
            raise GiveUp("many offsets")
        vals = {}
        for o in offs:
            if type(r.size) is int and not 0 <= o <= r.size - n:
                continue
            vals[o] = self.find(r, None, None, o, n, ins)
        if not vals:
            raise Dead
        if all(type(v) is int for v in vals.values()):
            return D.mke(n * 8, *D.mkform(f[0], [vals.get(o, 0) for o in f[1]]))
        res = None
        for o, v in vals.items():
            if res is None:
                res = v
            else:
                res = self.join(D.mklit(f[0], tuple(int(x == o) for x in f[1])), v, res, n * 8)
        return res

    def tabular(self, r, key):
        """contents known cell by cell at constant offsets (a lookup table)"""
        return r.kind == "global" and type(r.size) is int and r.size <= 65536 and \
            len([k for k, v in r.cells.items() if v]) == 1

    def table(self, r, t, c, n, ins):
        atoms = sorted(t)
        lo, hi = D.brng(c, t)
        lo, hi = max(lo, 0), min(hi, r.size - n)
        nv = 1
        for a in atoms:
            nv *= D.HI[a] - D.LO[a] + 1
            if nv > 4096:
                break
        if nv <= 4096:
            offs = {c}
            for a in atoms:
                k = t[a]
                offs = {o + k * v for o in offs for v in range(D.LO[a], D.HI[a] + 1)}
        else:
            g = 0
            for k in t.values():
                g = D.gcd(g, k)
            offs = range(lo + (c - lo) % g, hi + 1, g)
        vals = {}
        for o in offs:
            if 0 <= o <= r.size - n:
                vals[o] = self.find(r, None, None, o, n, ins)
        if not vals:
            raise GiveUp("table index")
        vs = list(vals.values())
        if any(type(v) is not int for v in vs):
            raise GiveUp("symbolic table")
        if min(vs) == max(vs):
            return vs[0]
        if nv <= 16 and all(D.LO[a] == 0 and D.HI[a] == 1 for a in atoms) and len(vals) == len(offs) and max(vs) < 1 << 62:
            # few binary unknowns: the exact multilinear form
            co = {}
            for m in range(1 << len(atoms)):
                co[m] = vals[c + sum(t[a] for i, a in enumerate(atoms) if m >> i & 1)]
            for i in range(len(atoms)):
                for m in range(1 << len(atoms)):
                    if m >> i & 1:
                        co[m] -= co[m ^ (1 << i)]
            f = (co[0], {})
            for m, k in co.items():
                if m and k:
                    l = D.land_all([a for i, a in enumerate(atoms) if m >> i & 1])
                    f = D.ladd(f, D.lscale(D.lit_form(l), k))
            return D.mk(n * 8, *f)
        key = ("table", r.id, n, tuple(sorted(vals.items())))
        fn = self.tabs.get(key)
        if fn is None:
            fn = self.tabs[key] = Tab(vals)
        return D.opaque(fn, (D.mke(64, c, t),), n * 8, min(vs), max(vs))

    def store(self, p, n, v, ins=None):
        if isinstance(p, PIte):
            lv = D.lval(p.c)
            if lv is not None:
                return self.store(p.a if lv else p.b, n, v, ins)
            def one(q, l):
                old = self.under(l, lambda: self.load(q, n, ins))
                if old is Dead:
                    return
                nv = self.join(l, v, old, n * 8)
                self.under(l, lambda: self.store(q, n, nv, ins))
            one(p.a, p.c)
            one(p.b, D.lnot(p.c))
            return
        p = self.toptr(p)
        r, key, t, c = self.chk_access(p, n, "write", ins)
        self.chk_ro(r, ins)
        r = self.st.reg(p.r, True)
        for k2, cs2 in r.cells.items():
            if k2 == key or not cs2:
                continue
            d = self.keydiff(key, k2)
            lo, hi = D.brng(0, d)
            for o, (m, x) in cs2.items():
                if hi + c - o + n <= 0 or lo + c - o >= m:
                    continue
                raise GiveUp("alias store")
        cs = r.cells.setdefault(key, {})
        if c not in cs or cs[c][0] != n:
            if n > 16:
                self.widecell = True
            for o, (m, x) in self.near(cs, c, n):
                if o < c + n and c < o + m:
                    del cs[o]
                    if o < c:
                        cs[o] = (c - o, self.slice(x, m, 0, c - o))
                    if o + m > c + n:
                        cs[c + n] = (o + m - c - n, self.slice(x, m, c + n - o, o + m - c - n))
        cs[c] = (n, v)

    def chk_ro(self, r, ins):
        self.nstore += 1
        if r.ro:
            self.event("ro", "write to %s %s" % ("constant" if r.ro is True else "unchanging", r.name), ins)
            raise Dead
        if self.watch and r.kind == "global" and not self.guarding and not r.name.startswith("_ZGV"):
            self.event("ro", "a query writes the global %s" % r.name, ins)

    def near(self, cs, c, n):
        """cells that may overlap [c, c+n) (no cell is wider than 16 bytes unless noted)"""
        if len(cs) < 48 or n > 16 or self.widecell:
            return list(cs.items())
        out = []
        for o in range(c - 15, c + n):
            x = cs.get(o)
            if x is not None:
                out.append((o, x))
        return out

    def toptr(self, p):
        if isinstance(p, Ptr):
            return p
        if isinstance(p, Fn):
            raise GiveUp("data access to code")
        if isinstance(p, Bad):
            raise GiveUp(p.why)
        if type(p) is int:
            return Ptr(0, p)
        if isinstance(p, Sym):
            return self.int2ptr(p)
        raise GiveUp("pointer %r" % (p,))

    def ptr2int(self, p):
        if isinstance(p, PIte):
            return self.join(p.c, self.ptr2int(p.a), self.ptr2int(p.b), 64)
        if isinstance(p, Fn):
            r = self.fnreg.get(p.name)
            if r is None:
                self.nreg += 1
                r = self.fnreg[p.name] = self.nreg
                self.regfn[r] = p.name
            return D.mk(64, 0, {self.base(r): 16})
        if isinstance(p, Ptr):
            if p.r <= 0:
                return p.o & M64 if type(p.o) is int else p.o
            return D.add(D.mk(64, 0, {self.base(p.r): 16}), p.o, 64)
        if type(p) is int or isinstance(p, Sym):
            return p
        raise GiveUp("ptrtoint")

    def int2ptr(self, v):
        if type(v) is int:
            return Ptr(0, v)
        c, t = v.lin()
        bs = [a for a in t if a in self.baseatom]
        if len(bs) == 1 and t[bs[0]] == 16:
            t = dict(t)
            del t[bs[0]]
            rid = self.baseatom[bs[0]]
            if rid in self.regfn:
                if not t and c == 0:
                    return Fn(self.regfn[rid])
                raise GiveUp("fn ptr arithmetic")
            return Ptr(rid, D.mk(64, c, t))
        raise GiveUp("inttoptr")

    # -------------------------------------------------------------- joins
    def join(self, c, x, y, w=None):
        if x is y:
            return x
        lv = D.lval(c)
        if lv is not None:
            return x if lv else y
        tx, ty = type(x), type(y)
        if (tx is int or tx is Sym) and (ty is int or ty is Sym):
            if w is None:
                w = x.w if tx is Sym else y.w if ty is Sym else None
                if w is None:
                    if x == y:
                        return x
                    w = 64
            return D.ite(c, x, y, w)
        if isinstance(x, (Ptr, PIte, Fn)) or isinstance(y, (Ptr, PIte, Fn)):
            if tx is int and x == 0:
                x = NULL
            if ty is int and y == 0:
                y = NULL
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                if type(x.o) is int and type(y.o) is int and x.o == y.o:
                    return x
                if D.same(x.o, y.o, 64):
                    return x
            if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name:
                return x
            if isinstance(x, (Ptr, PIte, Fn)) and isinstance(y, (Ptr, PIte, Fn)):
                return PIte(c, x, y)
            return Bad("join of pointer and integer")
        if isinstance(x, Agg) and isinstance(y, Agg) and len(x.v) == len(y.v):
            return Agg([self.join(c, p, q) for p, q in zip(x.v, y.v)])
        if x is None or y is None:
            return Bad("join with undefined")
        return Bad("join")

    def merge(self, c, s1, s0, base_guards):
        """join two states; c is the literal under which s1 holds"""
        self.merges += 1
        out = State()
        out.guards = base_guards
        for rid in set(s1.mem) | set(s0.mem):
            a, b = s1.mem.get(rid), s0.mem.get(rid)
            if a is b:
                out.mem[rid] = a
                continue
            if a is None or b is None:
                out.mem[rid] = a or b
                continue
            if len(a.segs) != len(b.segs) or any(p is not q for p, q in zip(a.segs, b.segs)):
                raise GiveUp("join of differently shaped regions")
            r = a.clone(out.tok)
            r.alive = D.lite(c, a.alive, b.alive)
            if a.size is not b.size and a.size != b.size:
                raise GiveUp("join sizes")
            r.cells = {}
            for key in set(a.cells) | set(b.cells):
                ca, cb = a.cells.get(key, {}), b.cells.get(key, {})
                n = r.cells[key] = {}
                t = dict(key) if key else {}
                for o in set(ca) | set(cb):
                    va, vb = ca.get(o), cb.get(o)
                    if va is vb:
                        n[o] = va
                        continue
                    m = max(va[0] if va else 0, vb[0] if vb else 0)
                    if va is not None and vb is not None and va[0] == vb[0]:
                        x, y = va[1], vb[1]
                    else:
                        try:
                            x = va[1] if va and va[0] == m else self.find(a, key, t, o, m, None)
                            y = vb[1] if vb and vb[0] == m else self.find(b, key, t, o, m, None)
                        except GiveUp as e:
                            n[o] = (m, Bad(str(e)))
                            continue
                    if x is y:
                        n[o] = (m, x)
                    else:
                        n[o] = (m, self.join(c, x, y, m * 8))
                # overlapping cells of different shapes
                offs = sorted(n)
                for i in range(len(offs) - 1):
                    if offs[i] + n[offs[i]][0] > offs[i + 1]:
                        raise GiveUp("join cell shapes")
            out.mem[rid] = r
        return out

    # -------------------------------------------------------------- operands
    def const(self, v, ty=None):
        k = v[0]
        if k == "i":
            return v[1] & ((1 << v[2]) - 1)
        if k == "n":
            return NULL
        if k == "g":
            return self.global_ptr(v[1])
        if k == "u" or k == "z":
            t = v[1]
            if k == "z":
                return self.zero(t)
            if t.k == "int":
                a = D.free("undef", 0, (1 << t.n) - 1, tag="uninit")
                return D.mke(t.n, 0, {a: 1})
            if t.k == "struct":
                return Agg([self.const(("u", f)) for f in t.fields])
            return NULL if t.k == "ptr" else None
        if k == "cgep":
            p = None
            ops = v[2]
            p = self.const(ops[0][1])
            return self.gep(p, v[1], [self.const(o[1]) for o in ops[1:]], [o[0] for o in ops[1:]])
        if k == "ccast":
            x = self.const(v[3])
            if v[1] == "ptrtoint":
                return self.ptr2int(x)
            if v[1] == "inttoptr":
                return self.int2ptr(x)
            return x
        if k == "cbin":
            a, b = [self.const(o[1]) for o in v[2]]
            w = v[2][0][0].n
            return {"add": D.add, "sub": D.sub, "mul": D.mul, "and": D.and_, "or": D.or_, "xor": D.xor_}[v[1]](a, b, w)
        if k == "agg":
            return Agg([self.const(e[1]) for e in v[2]])
        if k == "m":
            return None
        raise GiveUp("const " + k)

    def zero(self, t):
        if t.k == "int":
            return 0
        if t.k == "ptr":
            return NULL
        if t.k == "struct":
            return Agg([self.zero(f) for f in t.fields])
        if t.k == "array":
            return Agg([self.zero(t.el) for _ in range(t.n)])
        raise GiveUp("zero")

    def gep(self, p, bt, idx, tys):
        if isinstance(p, PIte):
            return PIte(p.c, self.gep(p.a, bt, idx, tys), self.gep(p.b, bt, idx, tys))
        p = self.toptr(p)
        off = p.o
        t = bt
        for i, (ix, ity) in enumerate(zip(idx, tys)):
            if i == 0:
                sz = bt.sizeof()
            elif t.k == "struct":
                off = D.add(off, t.offsets()[ix], 64)
                t = t.fields[ix]
                continue
            else:
                t = t.el
                sz = t.sizeof()
            if ity.n < 64:
                ix = D.sext(ix, ity.n, 64)
            if type(ix) is int:
                off = D.add(off, signed(ix, 64) * sz & M64, 64)
            else:
                off = D.add(off, D.mul(ix, sz, 64), 64)
        if type(off) is int and off >> 63:
            off -= 1 << 64
            # keep negative offsets as signed ints
            return Ptr(p.r, off & M64)
        return Ptr(p.r, off)

    def op(self, regs, v):
        k = v[0]
        if k == "l":
            x = regs[v[1]]
            if type(x) is Bad:
                raise GiveUp(x.why)
            return x
        if k == "i":
            return v[1] & ((1 << v[2]) - 1)
        return self.const(v)

    # -------------------------------------------------------------- execution
    def call(self, name, args, ins=None):
        f = self.m.get(name)
        if f is None:
            raise GiveUp("unknown function " + name)
        mod = self.model_cache.get(name, 0)
        if mod == 0:
            mod = self.model_cache[name] = self.models.lookup(self, name) if self.models else None
        if mod is not None:
            r = mod(self, args, ins)
            if r is not NotImplemented:
                return r
        if f.is_decl:
            raise GiveUp("external " + name)
        self.called.add(name)
        if len(self.stack) > self.depth_limit:
            raise GiveUp("call depth")
        regs = {}
        for (t, nm), a in zip(f.params, args):
            regs[nm] = a
        entry = next(iter(f.blocks.values()))
        self.stack.append([f, ins])
        allocas = []
        regs["\0allocas"] = allocas
        try:
            kind, val, _, _ = self.run(f, entry, None, regs, None)
        except Unwind:
            for rid in allocas:
                self.st.mem.pop(rid, None)
            raise
        finally:
            self.stack.pop()
        for rid in allocas:
            self.st.mem.pop(rid, None)
        return val

    def run(self, f, b, prev, regs, stop):
        """run from block b; returns ('ret', value, ..) or ('stop', None, prev, regs)"""
        while True:
            if stop is not None and b is stop:
                return ("stop", None, prev, regs)
            if b.phis:
                if type(prev) is tuple:
                    regs.update(prev[1])
                else:
                    vals = [(i.res, self.op(regs, i.x[prev])) for i in b.phis]
                    for k, v in vals:
                        regs[k] = v
            nxt = None
            for i in b.ins:
                self.steps += 1
                op = i.op
                h = self.DISPATCH.get(op)
                if h is not None:
                    regs[i.res] = h(self, regs, i)
                    continue
                if op == "store":
                    self.store(self.op(regs, i.a[1]), i.ty.sizeof(), self.wr(self.op(regs, i.a[0]), i.ty), i)
                elif op == "call" or op == "invoke":
                    if op == "invoke":
                        depth = len(self.stack)
                        try:
                            v = self.do_call(regs, i)
                            nxt = i.x["normal"]
                        except Unwind as e:
                            del self.stack[depth:]
                            self.flying = e.obj
                            nxt = i.x["unwind"]
                            continue
                    else:
                        v = self.do_call(regs, i)
                    if i.res:
                        regs[i.res] = v
                elif op == "br":
                    if len(i.x) == 1:
                        nxt = i.x[0]
                    else:
                        l = D.as_lit(self.op(regs, i.a[0]))
                        if b.asserts:
                            self.nassert += 1
                        self.note_branch(l, i)
                        v = D.lval(l)
                        if v is not None:
                            nxt = i.x[0] if v else i.x[1]
                        else:
                            return self.fork(f, b, i, regs, stop, [(l, i.x[0]), (D.lnot(l), i.x[1])])
                elif op == "switch":
                    v = self.op(regs, i.a[0])
                    d, cases = i.x
                    if type(v) is int:
                        nxt = d
                        for cv, dest in cases:
                            if cv & ((1 << i.ty.n) - 1) == v:
                                nxt = dest
                                break
                    else:
                        arms = []
                        rest = 1
                        for cv, dest in cases:
                            e = D.eq_lit(v, cv & ((1 << i.ty.n) - 1), i.ty.n)
                            if D.lval(e) == 0:
                                continue
                            arms.append((e, dest))
                            rest = D.land(rest, D.lnot(e))
                        if D.lval(rest) != 0:
                            arms.append((rest, d))
                        if len(arms) == 1:
                            nxt = arms[0][1]
                        elif len(arms) == 2:
                            return self.fork(f, b, i, regs, stop, arms)
                        else:
                            raise GiveUp("switch")
                elif op == "ret":
                    v = self.op(regs, i.a[0]) if i.a else None
                    return ("ret", v, None, None)
                elif op == "unreachable":
                    raise Dead
                elif op == "resume":
                    v = self.op(regs, i.a[0])
                    raise Unwind(v.v[0])
                elif op == "fence":
                    pass
                else:
                    raise GiveUp("instr " + op)
            if self.steps > self.step_limit:
                raise GiveUp("step limit")
            prev = b.name
            b = f.blocks[nxt]

    def note_branch(self, l, i):
        if l in (0, 1):
            return
        a = l if l > 0 else ~l
        if any(D.TAG[x] == "uninit" for x in D.deps_free([a])):
            self.event("uninit", "branch depends on an uninitialised value", i, l)

    def assume(self, l):
        a = l if l > 0 else ~l
        D._assume[a] = int(l > 0)
        d = D.DEP[a]
        if d is not None:
            if d[0] == "ge":
                D._assume_ge.append(D.ge_form(l))
            elif d[0] == "and" and l > 0:
                for x in d[1]:
                    self.assume(x)

    def snap(self):
        return dict(D._assume), len(D._assume_ge)

    def restore(self, s):
        D._assume.clear()
        D._assume.update(s[0])
        del D._assume_ge[s[1]:]

    def fork(self, f, b, i, regs, stop, arms):
        """analyse both arms up to the join point, merge, continue"""
        if self.depth >= 90:
            raise GiveUp("nesting")
        jn = b.ipdom
        j = f.blocks.get(jn) if jn and jn != "<exit>" else None
        base = self.st
        outs = []
        self.depth += 1
        try:
            for l, dest in arms:
                s = base.fork()
                s.guards = base.guards + (l,)
                self.st = s
                und = self.snap()
                self.assume(l)
                r2 = dict(regs)
                try:
                    tgt = f.blocks[dest]
                    if tgt is j:
                        res = ("stop", None, b.name, r2)
                    else:
                        res = self.run(f, tgt, b.name, r2, j)
                    outs.append((l, self.st, res))
                except Dead:
                    self.dead.append(self.st.guards)
                finally:
                    self.restore(und)
        finally:
            self.depth -= 1
        if not outs:
            self.st = base
            raise Dead
        if len(outs) == 1:
            l, s, res = outs[0]
            s2 = s
            s2.guards = base.guards + (l,)     # the other arm ended: the rest runs under l
            self.st = s2
            self.assume(l)                      # holds from here on for this trace
            if res[0] == "ret":
                return res
            return self.run(f, j, res[2], res[3], stop)
        (l1, s1, r1), (l0, s0, r0) = outs
        if r1[0] != r0[0]:
            raise GiveUp("arms end differently")
        if r1[0] == "ret":
            self.st = self.merge(l1, s1, s0, base.guards)
            v = self.join(l1, r1[1], r0[1]) if r1[1] is not None or r0[1] is not None else None
            return ("ret", v, None, None)
        # values needed at the join
        g1, g0 = r1[3], r0[3]
        phi = []
        for p in j.phis:
            w = p.ty.n if p.ty.k == "int" else None
            try:
                phi.append((p.res, self.join(l1, self.phival(p, r1[2], g1), self.phival(p, r0[2], g0), w)))
            except GiveUp as e:
                phi.append((p.res, Bad(str(e))))
        self.st = self.merge(l1, s1, s0, base.guards)
        out = {}
        for k, v in g1.items():
            if k not in g0:
                continue
            u = g0[k]
            if u is v or k == "\0allocas":
                out[k] = v
            else:
                try:
                    out[k] = self.join(l1, v, u)
                except GiveUp as e:
                    out[k] = Bad(str(e))
        # the phis of j are already evaluated: pass them on as a pseudo predecessor
        return self.run(f, j, ("\0phi", dict(phi)), out, stop)

    def phival(self, p, prev, regs):
        if type(prev) is tuple:
            return prev[1][p.res]
        return self.op(regs, p.x[prev])

    def wr(self, v, ty):
        if type(v) is Bad:
            raise GiveUp(v.why)
        return v

    def do_call(self, regs, i):
        c = i.x["callee"]
        if c[0] == "g":
            name = c[1]
        else:
            fv = self.op(regs, c)
            if isinstance(fv, PIte):
                lv = D.lval(fv.c)
                if lv is not None:
                    fv = fv.a if lv else fv.b
            if isinstance(fv, Fn):
                name = fv.name
            elif isinstance(fv, Ptr) and fv.r == 0:
                self.event("null", "call through a null function pointer", i)
                raise Dead
            else:
                raise GiveUp("indirect call")
        if name.startswith("llvm."):
            return self.intrinsic(name, regs, i)
        args = []
        for t, a in i.a:
            args.append(self.op(regs, a) if t is not ir.META else None)
        return self.call(name, args, i)

    def intrinsic(self, name, regs, i):
        n = name.split(".")
        k = n[1]
        a = [self.op(regs, x) if t is not ir.META else None for t, x in i.a]
        if k in ("lifetime", "dbg", "assume", "prefetch", "invariant", "experimental", "stacksave", "stackrestore", "donothing", "trap"):
            if k == "trap":
                raise Dead
            return None
        if k in ("memcpy", "memmove"):
            self.memcpy(a[0], a[1], a[2], i)
            return None
        if k == "memset":
            self.memset(a[0], a[1], a[2], i)
            return None
        w = i.ty.n if i.ty is not None and i.ty.k == "int" else None
        if k == "ctpop":
            return self.ctpop(a[0], w)
        if k == "ctlz" or k == "cttz":
            return self.cnt(k, a[0], w, a[1], i)
        if k == "bswap":
            x = a[0]
            if type(x) is int:
                return int.from_bytes(x.to_bytes(w // 8, "little"), "big")
            n8 = w // 8
            if x.b is None and x.lz is None and D.quick_bits(x) is None:
                f = x.exact()
                acc = (0, {})
                for j in range(n8):
                    f, lane = D.split(*f, 256) if j < n8 - 1 else ((0, {}), f)
                    acc = D.ladd(acc, D.lscale(lane, 1 << (8 * (n8 - 1 - j))))
                return D.mke(w, *acc)
            b = x.bits()
            return D.from_bits(w, sum((b[8 * j:8 * j + 8] for j in reversed(range(n8))), ()))
        if k == "expect":
            return a[0]
        if k in ("umax", "umin", "smax", "smin"):
            l = D.icmp(("ugt" if k == "umax" else "ult" if k == "umin" else "sgt" if k == "smax" else "slt"), a[0], a[1], w)
            lv = D.lval(l)
            if lv is not None:
                return a[0] if lv else a[1]
            return D.ite(l, a[0], a[1], w)
        if k in ("fshl", "fshr") and type(a[2]) is int:
            s = a[2] % w
            if s == 0:
                return a[0] if k == "fshl" else a[1]
            if k == "fshr":
                s = w - s
            return D.or_(D.shl(a[0], s, w), D.lshr(a[1], w - s, w), w)
        if k == "abs":
            f = D.sexact(a[0], w)
            if D.brng(*f)[0] >= 0:
                return a[0]
            if D.brng(*f)[1] <= 0:
                return D.sub(0, a[0], w)
            return D.ite(D.ge(*f), a[0], D.sub(0, a[0], w), w)
        if k in ("uadd", "umul", "usub", "sadd", "smul", "ssub") and "overflow" in name:
            w = int(n[-1][1:])
            x, y = a
            u = n[1][0] == "u"
            fx = D.exact(x) if u else D.sexact(x, w)
            fy = D.exact(y) if u else D.sexact(y, w)
            o = n[1][1:]
            if o == "mul":
                if fy[1] and fx[1]:
                    raise GiveUp("mul overflow")
                r = D.lscale(fx, fy[0]) if not fy[1] else D.lscale(fy, fx[0])
                v = D.mul(x, y, w)
            else:
                r = D.ladd(fx, fy) if o == "add" else D.lsub(fx, fy)
                v = (D.add if o == "add" else D.sub)(x, y, w)
            lo, hi = (0, (1 << w) - 1) if u else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            ov = D.lor(D.lnot(D.ge(r[0] - lo, r[1])), D.lnot(D.ge(hi - r[0], {q: -z for q, z in r[1].items()})))
            return Agg([v, D.from_lit(ov)])
        raise GiveUp("intrinsic " + name)

    def ctpop(self, x, w):
        if type(x) is int:
            return bin(x).count("1")
        f = (0, {})
        for l in x.bits():
            f = D.ladd(f, D.lit_form(l))
        return D.mke(w, *f)

    def cnt(self, k, x, w, zu, i):
        if type(x) is int:
            if x == 0:
                if zu:
                    self.event("ubcount", "bit scan of zero", i)
                    raise Dead
                return w
            return (x & -x).bit_length() - 1 if k == "cttz" else w - x.bit_length()
        b = x.bits()
        seq = b if k == "cttz" else tuple(reversed(b))
        for j, l in enumerate(seq):
            v = D.lval(l)
            if v == 0:
                continue
            if v == 1:
                return j
            break
        else:
            return w
        if D.SMALL:
            # each later bit matters only where the earlier ones are zero
            und = self.snap()
            ch, full = [], False
            for j, l in enumerate(seq):
                v = D.lval(l)
                if v == 0:
                    continue
                if v == 1:
                    ch.append((1, j))
                    full = True
                    break
                ch.append((l, j))
                self.assume(D.lnot(l))
                if len(ch) > 16:
                    break
            self.restore(und)
            if len(ch) <= 16:
                r = w if not full else 0
                for l, j in reversed(ch):
                    r = D.ite(l, j, r, w)
                return r
        # undecided: gated cascade is possible but rarely useful
        # (only as far as the bits seen so far do not already cover every case)
        seen, last, none = 0, w, 1
        for j, l in enumerate(seq):
            if l == 0:
                continue
            seen += 1
            last = j
            none = D.land(none, D.lnot(l))
            if none == 0 or seen > 12:
                break
        if none == 0 and seen <= 12:
            r = last
            for j in range(last - 1, -1, -1):
                l = seq[j]
                if l == 0:
                    continue
                r = D.ite(l, j, r, w)
            return r
        if seen <= 12:
            r = w
            for j in range(w - 1, -1, -1):
                l = seq[j]
                if l == 0:
                    continue
                r = D.ite(l, j, r, w)
            return r
        return D.opaque(k, (x,), w, 0, w)

    def memcpy(self, d, s, n, ins):
        if type(n) is int:
            if n == 0:
                return
            if isinstance(d, (Ptr,)) and isinstance(s, Ptr) and n <= 262144:
                r, key, t, c = self.chk_access(s, n, "read", ins)
                self.chk_access(d, n, "write", ins)
                # cell-shaped copy
                pieces = []
                cs = r.cells.get(key) or {}
                pos = c
                offs = sorted(o for o, (m, x) in cs.items() if o < c + n and c < o + m)
                for o in offs:
                    m, x = cs[o]
                    if o >= c and o + m <= c + n:
                        if pos < o:
                            pieces.append((pos, o - pos, None))
                        pieces.append((o, m, x))
                        pos = o + m
                    else:
                        if pos < max(o, c):
                            pieces.append((pos, max(o, c) - pos, None))
                            pos = max(o, c)
                        e = min(o + m, c + n)
                        pieces.append((pos, e - pos, self.slice(x, m, pos - o, e - pos)))
                        pos = e
                if pos < c + n:
                    pieces.append((pos, c + n - pos, None))
                out = []
                for o, m, x in pieces:
                    if x is None:
                        q = o
                        while q < o + m:
                            stp = 8 if q % 8 == 0 and q + 8 <= o + m else 1
                            if stp == 1 and q + 8 <= o + m and o % 8:
                                stp = min(8 - q % 8, o + m - q)
                            out.append((q, stp, self.find(r, key, t, q, stp, ins)))
                            q += stp
                    else:
                        out.append((o, m, x))
                for o, m, x in out:
                    self.store(Ptr(d.r, D.add(d.o, (o - c) & M64, 64)), m, x, ins)
                return
            raise GiveUp("memcpy")
        # symbolic length: whole-prefix copy as a view
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise GiveUp("memcpy ptr")
        nf = D.exact(n)
        if D.brng(*nf)[1] == 0:
            return
        src = self.st.mem.get(s.r)
        if s.r == 0:
            raise GiveUp("memcpy null")
        self.chk_range(s, nf, "read", ins)
        self.chk_range(d, nf, "write", ins)
        self.copy_view(d, s, nf)

    def chk_range(self, p, nf, what, ins):
        r = self.st.mem[p.r]
        self.naccess += 1
        if D.lval(r.alive) == 0:
            self.event("uaf", "%s in %s after it was released" % (what, r.name), ins)
            raise Dead
        if what == "write":
            self.chk_ro(r, ins)
        if r.size is not None:
            sz = r.size if isinstance(r.size, tuple) else (r.size, {})
            off = D.sexact(p.o, 64)
            l = D.ge(*D.lsub(D.lsub(sz, off), nf))
            lv = D.lval(l)
            if lv == 0:
                self.event("oob", "%s past the end of %s" % (what, r.name), ins)
                raise Dead
            if lv is None:
                self.gevent("oob", "%s past the end of %s" % (what, r.name), ins, D.lnot(l))

    def copy_view(self, d, s, nf):
        snap = self.st.mem[s.r]
        if s.r == d.r:
            raise GiveUp("overlapping symbolic copy")
        self.st.tok = object()        # freeze the snapshot
        r = self.st.reg(d.r, True)
        do, so = D.sexact(d.o, 64), D.sexact(s.o, 64)
        end = D.ladd(do, nf)
        self.drop_cells(r, do, end)
        r.segs.append((do, end, ("view", snap, D.lsub(so, do))))

    def drop_cells(self, r, start, end):
        """remove explicit cells covered by [start,end)"""
        for key, cs in r.cells.items():
            t = dict(key) if key else {}
            for o, (m, x) in list(cs.items()):
                a = D.decide_ge(*D.lsub((o, t), start))
                b = D.decide_ge(*D.lsub(end, (o + m, t)))
                if a == 1 and b == 1:
                    del cs[o]
                    continue
                if D.decide_ge(*D.lsub(start, (o + m, t))) == 1 or D.decide_ge(*D.lsub((o, t), end)) == 1:
                    continue
                raise GiveUp("partial overwrite")

    def memset(self, d, v, n, ins):
        if type(n) is int:
            if n == 0:
                return
            d = self.toptr(d)
            if type(v) is not int:
                raise GiveUp("memset")
            i = 0
            if n > 4096:
                self.chk_access(d, n, "write", ins)
                r = self.st.reg(d.r, True)
                s = D.sexact(d.o, 64)
                e = (s[0] + n, s[1])
                self.drop_cells(r, s, e)
                r.segs.append((s, e, ("fill", v, 1) if v else ("zero",)))
                return
            while i < n:
                stp = 8 if n - i >= 8 else 1
                self.store(Ptr(d.r, D.add(d.o, i, 64)), stp, int.from_bytes(bytes([v]) * stp, "little"), ins)
                i += stp
            return
        nf = D.exact(n)
        d = self.toptr(d)
        if D.brng(*nf)[1] == 0:
            return
        self.chk_range(d, nf, "write", ins)
        r = self.st.reg(d.r, True)
        s = D.sexact(d.o, 64)
        e = D.ladd(s, nf)
        self.drop_cells(r, s, e)
        r.segs.append((s, e, ("zero",) if v == 0 else ("fill", v, 1)))

    # -------------------------------------------------------------- instructions
    def i_bin(self, regs, i):
        x, y = self.op(regs, i.a[0]), self.op(regs, i.a[1])
        op = i.op
        t = i.ty
        if t.k != "int":
            raise GiveUp("vector/float " + op)
        w = t.n
        if not (type(x) is int or type(x) is Sym):
            x = self.ptr2int(x)
        if not (type(y) is int or type(y) is Sym):
            y = self.ptr2int(y)
        if op == "add":
            if "nsw" in i.x:
                self.chk_signed(D.ladd(D.sexact(x, w), D.sexact(y, w)), w, "signed addition overflows", i)
            return D.add(x, y, w)
        if op == "sub":
            if "nsw" in i.x:
                self.chk_signed(D.lsub(D.sexact(x, w), D.sexact(y, w)), w, "signed subtraction overflows", i)
            return D.sub(x, y, w)
        if op == "and":
            return D.and_(x, y, w)
        if op == "or":
            return D.or_(x, y, w)
        if op == "xor":
            return D.xor_(x, y, w)
        if op in ("shl", "lshr", "ashr"):
            self.narith += 1
            f = D.exact(y)
            l = D.ge(f[0] - w, f[1])
            lv = D.lval(l)
            if lv == 1:
                self.event("ubshift", "shift amount %s is not below the width %d" % (D.show(y), w), i)
                if type(y) is int:
                    # what the target's instruction does (amount taken modulo the width)
                    y = y % w
                else:
                    raise GiveUp("undefined shift")
            elif lv is None:
                self.gevent("ubshift", "shift amount %s may reach the width %d" % (D.show(y), w), i, l)
            return {"shl": D.shl, "lshr": D.lshr, "ashr": D.ashr}[op](x, y, w)
        if op == "mul":
            if "nsw" in i.x:
                sx, sy = D.sexact(x, w), D.sexact(y, w)
                if not sy[1]:
                    self.chk_signed(D.lscale(sx, sy[0]), w, "signed multiplication overflows", i)
                elif not sx[1]:
                    self.chk_signed(D.lscale(sy, sx[0]), w, "signed multiplication overflows", i)
            return D.mul(x, y, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.narith += 1
            e = D.eq_lit(y, 0, w)
            lv = D.lval(e)
            if lv == 1:
                self.event("ubdiv", "division by zero", i)
                raise Dead
            if lv is None:
                self.gevent("ubdiv", "division by zero", i, e)
            return {"udiv": D.udiv, "urem": D.urem, "sdiv": D.sdiv, "srem": D.srem}[op](x, y, w)
        raise GiveUp("op " + op)

    def chk_signed(self, f, w, msg, i):
        self.narith += 1
        H = 1 << (w - 1)
        if not f[1]:
            if not -H <= f[0] < H:
                self.event("ubsigned", msg, i)
            return
        lo, hi = D.rng(*f)
        if lo >= -H and hi < H:
            return
        over = D.ge(f[0] - H, f[1])
        under = D.ge(-f[0] - H - 1, {a: -k for a, k in f[1].items()})
        for l in (over, under):
            lv = D.lval(l)
            if lv == 1:
                self.event("ubsigned", msg, i)
            elif lv is None:
                self.gevent("ubsigned", msg, i, l)

    def i_icmp(self, regs, i):
        x, y = self.op(regs, i.a[0]), self.op(regs, i.a[1])
        if i.ty.k == "ptr":
            return D.from_lit(self.pcmp(i.x, x, y))
        if i.ty.k != "int":
            raise GiveUp("icmp type")
        return D.from_lit(D.icmp(i.x, x, y, i.ty.n))

    def pcmp(self, pred, x, y):
        if isinstance(x, PIte):
            return D.lite(x.c, self.pcmp(pred, x.a, y), self.pcmp(pred, x.b, y))
        if isinstance(y, PIte):
            return D.lite(y.c, self.pcmp(pred, x, y.a), self.pcmp(pred, x, y.b))
        if isinstance(x, Fn) or isinstance(y, Fn):
            if pred in ("eq", "ne"):
                s = isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name
                return int(s == (pred == "eq"))
            raise GiveUp("fn compare")
        x, y = self.toptr(x), self.toptr(y)
        if x.r == y.r:
            if pred in ("eq", "ne"):
                return D.icmp(pred, x.o if type(x.o) is not int else x.o & M64, y.o if type(y.o) is not int else y.o & M64, 64)
            return D.icmp("s" + pred[1:], self.o64(x.o), self.o64(y.o), 64)
        if pred == "eq":
            return 0
        if pred == "ne":
            return 1
        if x.r == 0 and x.o == 0:
            return int(pred in ("ult", "ule"))
        if y.r == 0 and y.o == 0:
            return int(pred in ("ugt", "uge"))
        raise GiveUp("ordering of unrelated pointers")

    def o64(self, o):
        return o & M64 if type(o) is int else o

    def i_load(self, regs, i):
        p = self.op(regs, i.a[0])
        t = i.ty
        if t.k == "int":
            n = t.sizeof()
            v = self.load(p, n, i)
            if isinstance(v, (Ptr, PIte, Fn)):
                v = self.ptr2int(v)
            if t.n < n * 8:
                v = D.trunc(v, n * 8, t.n)
            if D.SMALL and D._assume and type(v) is Sym:
                v = D.restrict(v, t.n)
            return v
        if t.k == "ptr":
            v = self.load(p, 8, i)
            if type(v) is int:
                v = Ptr(0, v)
            elif type(v) is Sym:
                if any(D.TAG[a] == "uninit" for a in D.deps_free(D.atoms_of(v))):
                    self.uninit_reads += 1
                    return Ptr(-1, v)
                v = self.int2ptr(v)
            return v
        if t.k == "struct":
            return Agg([self.i_load_at(p, o, f, i) for o, f in zip(t.offsets(), t.fields)])
        if t.k == "float":
            return self.load(p, t.sizeof(), i)
        raise GiveUp("load type")

    def i_load_at(self, p, o, t, i):
        q = self.gep(p, ir.INT(8), [o], [ir.INT(64)])
        if t.k == "int":
            v = self.load(q, t.sizeof(), i)
            if isinstance(v, (Ptr, PIte, Fn)):
                v = self.ptr2int(v)
            return D.trunc(v, t.sizeof() * 8, t.n) if t.n < t.sizeof() * 8 else v
        if t.k == "ptr":
            v = self.load(q, 8, i)
            return Ptr(0, v) if type(v) is int else self.int2ptr(v) if type(v) is Sym else v
        raise GiveUp("load field")

    def i_alloca(self, regs, i):
        n = self.op(regs, i.a[0])
        if type(n) is not int:
            raise GiveUp("vla")
        rid = self.new_region(i.res[1:], "stack", i.ty.sizeof() * n)
        regs["\0allocas"].append(rid)
        return Ptr(rid, 0)

    def i_gep(self, regs, i):
        p = self.op(regs, i.a[0][1])
        return self.gep(p, i.ty, [self.op(regs, v) for t, v in i.a[1:]], [t for t, v in i.a[1:]])

    def i_cast(self, regs, i):
        x = self.op(regs, i.a[0])
        op = i.op
        if op == "ptrtoint":
            v = self.ptr2int(x)
            return v if i.ty.n == 64 else D.trunc(v, 64, i.ty.n)
        if op == "inttoptr":
            return self.int2ptr(x) if type(x) is Sym else Ptr(0, x)
        if op == "bitcast":
            return x
        if i.ty.k != "int" or i.x.k != "int":
            raise GiveUp("float cast")
        w0, w = i.x.n, i.ty.n
        if op == "zext":
            return D.zext(x, w0, w)
        if op == "sext":
            return D.sext(x, w0, w)
        if op == "trunc":
            return D.trunc(x, w0, w)
        raise GiveUp(op)

    def i_select(self, regs, i):
        l = D.as_lit(self.op(regs, i.a[0]))
        lv = D.lval(l)
        if lv is not None:
            return self.op(regs, i.a[1] if lv else i.a[2])
        return self.join(l, self.op(regs, i.a[1]), self.op(regs, i.a[2]), i.ty.n if i.ty.k == "int" else None)

    def i_extract(self, regs, i):
        v = self.op(regs, i.a[0])
        for k in i.x:
            v = v.v[k]
        return v

    def i_insert(self, regs, i):
        v = self.op(regs, i.a[0])
        e = self.op(regs, i.a[1])
        idx = i.x[1]
        if v is None:
            v = Agg([None] * 2)
        n = Agg(list(v.v))
        cur = n
        for k in idx[:-1]:
            cur.v[k] = Agg(list(cur.v[k].v))
            cur = cur.v[k]
        cur.v[idx[-1]] = e
        return n

    def i_freeze(self, regs, i):
        return self.op(regs, i.a[0])

    def i_landing(self, regs, i):
        return Agg([self.flying, 1])

    def i_rmw(self, regs, i):
        """one thread of execution: an atomic update is a load followed by a store"""
        p, v, w = self.op(regs, i.a[0]), self.op(regs, i.a[1]), i.ty.n
        old = self.load(p, w // 8, i)
        f = {"add": D.add, "sub": D.sub, "and": D.and_, "or": D.or_, "xor": D.xor_}.get(i.x)
        if f is None and i.x != "xchg":
            raise GiveUp("atomicrmw " + i.x)
        self.store(p, w // 8, f(old, v, w) if f else v, i)
        return old

    def i_cmpxchg(self, regs, i):
        p, e, v, w = self.op(regs, i.a[0]), self.op(regs, i.a[1]), self.op(regs, i.a[2]), i.ty.n
        old = self.load(p, w // 8, i)
        ok = D.lval(D.eq_lit(old, e, w))
        if ok is None:
            raise GiveUp("cmpxchg")
        if ok:
            self.store(p, w // 8, v, i)
        return Agg([old, ok])

    DISPATCH = {}


for _o in ("add sub mul udiv sdiv urem srem shl lshr ashr and or xor").split():
    Interp.DISPATCH[_o] = Interp.i_bin
for _o in "trunc zext sext ptrtoint inttoptr bitcast".split():
    Interp.DISPATCH[_o] = Interp.i_cast
Interp.DISPATCH.update({"icmp": Interp.i_icmp, "load": Interp.i_load, "alloca": Interp.i_alloca, "gep": Interp.i_gep,
                        "select": Interp.i_select, "extractvalue": Interp.i_extract, "insertvalue": Interp.i_insert,
                        "freeze": Interp.i_freeze, "landingpad": Interp.i_landing, "atomicrmw": Interp.i_rmw, "cmpxchg": Interp.i_cmpxchg})


def static_init(mod, models):
    """interpret the module's static initialisers once; their results are the initial contents of the globals"""
    D.reset()
    D.small(0)
    mod.dyninit = None
    ctors = [f for f in mod.funcs if f.startswith("_GLOBAL__sub_I_")]
    if not ctors:
        return
    I = Interp(mod, models, step_limit=6000000)
    try:
        for f in ctors:
            I.call(f, [])
    except (GiveUp, Dead, Unwind, RecursionError):
        mod.dyninit = False
        return
    out = {}
    for name, rid in I.globals.items():
        r = I.st.mem.get(rid)
        if r is None or r is I.ginit.get(rid):
            continue
        cells = r.cells.get(None, {})
        if any(k is not None and v for k, v in r.cells.items()) or len(r.segs) > 1 or I.events or \
                any(type(v) is not int for _, v in cells.values()):
            mod.dyninit = False
            return
        out[name] = dict(cells)
    mod.dyninit = out
