"""Abstract value domain: bit provenance + affine forms over atoms.

A concrete machine integer is a plain Python int.  A symbolic one is a Sym: an affine form
c + sum(coef * atom) taken modulo 2**w, and/or a vector of bit literals.  Atoms are either free
(input bits, a block number, ...) with a range, or dependent (an indicator of a linear inequality,
a floor quotient, a conjunction of literals, a table entry, ...), in which case their value is a
function of other atoms.  Literals: 0, 1, a (atom id >= 2) or ~a (its complement).
"""
from math import gcd


class GiveUp(Exception):
    """The domain cannot express this; the obligation stays undecided (never an alarm)."""


LO, HI, DEP, NAME, TAG, KIDS = [0, 1], [0, 1], [None, None], ["0", "1"], [None, None], [None, None]
_key = {}
_assume = {}          # atom -> 0/1, the assumptions of the arm being analysed
_assume_ge = []       # linear forms known to be >= 0 in the arm being analysed


def reset():
    del LO[2:], HI[2:], DEP[2:], NAME[2:], TAG[2:], KIDS[2:]
    _key.clear()
    _SPLIT.clear()
    _ANDGE.clear()
    _assume.clear()
    del _assume_ge[:]
    _TT.clear()
    _IDX.clear()
    _POLY.clear()


def free(name, lo=0, hi=1, tag=None):
    LO.append(lo)
    HI.append(hi)
    DEP.append(None)
    NAME.append(name)
    TAG.append(tag)
    KIDS.append(None)
    return len(LO) - 1


def dep(key, lo, hi, name=None):
    a = _key.get(key)
    if a is None:
        LO.append(lo)
        HI.append(hi)
        DEP.append(key)
        NAME.append(name or key[0])
        TAG.append(None)
        KIDS.append(None)
        a = _key[key] = len(LO) - 1
    return a


# ------------------------------------------------------------------ Boolean functions of few inputs
# With SMALL = K > 0 every literal over at most K input bits is represented by its truth table and every integer
# function of at most K input bits by its (unique) multilinear polynomial.
SMALL = 0
_TT = {}
_IDX = {}
_POLY = {}


def small(k):
    global SMALL
    SMALL = k


def tt(a):
    """(inputs, values) of an atom depending on few bits, or None"""
    r = _TT.get(a, 0)
    if r == 0:
        r = _TT[a] = _tt(a)
    return r


def _tt(a):
    d = DEP[a]
    if d is None:
        return ((a,), (0, 1)) if LO[a] == 0 and HI[a] == 1 else None
    k = d[0]
    if k == "tt":
        return d[1], d[2]
    if k in ("ge", "fdiv"):
        f = form_tt(d[1], d[2])
        if f is None:
            return None
        return f[0], tuple(int(v >= 0) for v in f[1]) if k == "ge" else tuple(v // d[3] for v in f[1])
    if k == "fn":
        S = set()
        for v in KIDS[a]:
            x = val_sup(v)
            if x is None:
                return None
            S |= x
        if len(S) > SMALL:
            return None
        S = tuple(sorted(S))
        return S, tuple(worlds(S, lambda env: env.fn(d[1], KIDS[a], d[3])))
    ls = d[1] if k in ("and", "xor") else d[1:]
    S = union([l if l > 0 else ~l for l in ls if l not in (0, 1)])
    if S is None:
        return None
    vs = [lit_vals(l, S) for l in (ls if k == "itb" else tuple(ls))]
    if k == "and":
        return S, tuple(int(all(x)) for x in zip(*vs))
    if k == "xor":
        return S, tuple(sum(x) & 1 for x in zip(*vs))
    return S, tuple(y if x else z for x, y, z in zip(*vs))


def worlds(S, f):
    out = []
    for m in range(1 << len(S)):
        asg = {x: m >> i & 1 for i, x in enumerate(S)}
        out.append(f(Env(asg.__getitem__)))
    return out


def union(atoms):
    S = set()
    for a in atoms:
        r = tt(a)
        if r is None:
            return None
        S.update(r[0])
        if len(S) > SMALL:
            return None
    return tuple(sorted(S))


def index(S, s):
    """positions in a table over s of the assignments to S"""
    k = (S, s)
    r = _IDX.get(k)
    if r is None:
        ps = [S.index(x) for x in s]
        r = _IDX[k] = [sum((m >> p & 1) << i for i, p in enumerate(ps)) for m in range(1 << len(S))]
    return r


def lit_vals(l, S):
    if l == 0 or l == 1:
        return (l,) * (1 << len(S))
    s, v = tt(l if l > 0 else ~l)
    r = v if s == S else [v[i] for i in index(S, s)]
    return r if l > 0 else [1 - x for x in r]


def form_tt(c, t):
    S = union(t)
    if S is None:
        return None
    out = [c] * (1 << len(S))
    for a, k in t.items():
        s, v = tt(a)
        if s == S:
            for m in range(len(out)):
                out[m] += k * v[m]
        else:
            for m, i in enumerate(index(S, s)):
                out[m] += k * v[i]
    return S, out


def val_sup(v):
    """few input bits a value depends on, or None"""
    if type(v) is int:
        return set()
    S = union(atoms_of(v))
    return None if S is None else set(S)


def reduce(S, v):
    """drop inputs that do not matter"""
    i = 0
    while i < len(S):
        b = 1 << i
        if all(v[m] == v[m ^ b] for m in range(len(v)) if m & b):
            v = tuple(v[m] for m in range(len(v)) if not m & b)
            S = S[:i] + S[i + 1:]
        else:
            i += 1
    return S, tuple(v)


def mklit(S, v):
    """the literal with this truth table"""
    S, v = reduce(S, v)
    if not S:
        return v[0]
    if v[0]:
        return ~mklit(S, tuple(1 - x for x in v))
    if len(S) == 1:
        return S[0]
    if sum(v) == 1 and v[-1]:
        return dep(("and", frozenset(S)), 0, 1)
    return dep(("tt", S, v), 0, 1)


def mkform(S, v):
    """the multilinear polynomial with these values"""
    v = list(v)
    n = len(S)
    for i in range(n):
        b = 1 << i
        for m in range(len(v)):
            if m & b:
                v[m] -= v[m ^ b]
    t = {}
    for m in range(1, len(v)):
        if v[m]:
            xs = [S[i] for i in range(n) if m >> i & 1]
            t[xs[0] if len(xs) == 1 else dep(("and", frozenset(xs)), 0, 1)] = v[m]
    return v[0], t


def poly(a):
    """polynomial of a truth-table atom"""
    r = _POLY.get(a)
    if r is None:
        r = _POLY[a] = mkform(*tt(a))
    return r


def small_rng(c, t):
    """exact range of a form, inputs grouped into independent components"""
    comp = []
    for a, k in t.items():
        r = tt(a)
        if r is None:
            lo, hi = k * LO[a], k * HI[a]
            comp.append((None, min(lo, hi), max(lo, hi)))
            continue
        s = set(r[0])
        mine = [(s, {a: k})]
        rest = []
        for e in comp:
            if e[0] is not None and e[0] & s:
                mine.append(e)
            else:
                rest.append(e)
        S, T = set(), {}
        for e in mine:
            S |= e[0]
            T.update(e[1])
        comp = rest + [(S, T)]
    lo = hi = c
    for e in comp:
        if e[0] is None:
            lo += e[1]
            hi += e[2]
        elif len(e[0]) > SMALL:
            x, y = rng(0, e[1])
            lo += x
            hi += y
        else:
            v = form_tt(0, e[1])[1]
            lo += min(v)
            hi += max(v)
    return lo, hi


def feasible(S):
    """assignments to S (as masks) compatible with the assumptions of this arm"""
    ms = range(1 << len(S))
    if not _assume:
        return list(ms)
    S0 = set(S)
    rel = []
    grow = set(S)
    for _ in range(2):
        for a, v in _assume.items():
            r = tt(a)
            if r is not None and grow & set(r[0]) and (a, v) not in rel and len(grow | set(r[0])) <= 12:
                grow |= set(r[0])
                rel.append((a, v))
    if not rel:
        return list(ms)
    U = tuple(sorted(grow))
    ix = index(U, tuple(S))
    ok = [True] * (1 << len(U))
    for a, v in rel:
        s, tv = tt(a)
        for m, i in enumerate(index(U, s)):
            if tv[i] != v:
                ok[m] = False
    return sorted({ix[m] for m in range(len(ok)) if ok[m]})


def restrict(v, w):
    """the value as it is in this arm: inputs that cannot matter here are dropped (only where uninitialised storage is involved)"""
    if v.b is None:
        return v
    out, chg = [], False
    memo = {}
    for l in v.b:
        if l in (0, 1):
            out.append(l)
            continue
        r = tt(l if l > 0 else ~l)
        if r is None or not any(TAG[x] == "uninit" for x in r[0]):
            out.append(l)
            continue
        S, tv = r
        F = memo.get(S)
        if F is None:
            F = memo[S] = feasible(S)
        n = _project(S, tv, F)
        n = n if l > 0 else lnot(n)
        chg = chg or n != l
        out.append(n)
    return from_bits(w, out) if chg else v


def _project(S, tv, F):
    d = {m: tv[m] for m in F}
    S = list(S)
    i = 0
    while i < len(S):
        if TAG[S[i]] == "uninit":
            n = {}
            ok = True
            for m, x in d.items():
                k = (m & ((1 << i) - 1)) | (m >> (i + 1) << i)
                if n.setdefault(k, x) != x:
                    ok = False
                    break
            if ok:
                d = n
                del S[i]
                continue
        i += 1
    return mklit(tuple(S), tuple(d.get(m, 0) for m in range(1 << len(S))))


# ------------------------------------------------------------------ linear forms (c, dict)
def rng(c, t):
    lo = hi = c
    for a, k in t.items():
        if k >= 0:
            lo += k * LO[a]
            hi += k * HI[a]
        else:
            lo += k * HI[a]
            hi += k * LO[a]
    return lo, hi


_CARRY = {}


def brng(c, t, depth=0):
    """range, using what is known about carry atoms (R - d*floor(R/d) lies in [0,d))"""
    if SMALL and any(DEP[a] is not None for a in t):
        return small_rng(c, t)
    lo, hi = rng(c, t)
    for a in [x for x in t if DEP[x] is not None and DEP[x][0] in ("fdiv", "ge", "and")]:
        k = t.get(a, 0)
        d = DEP[a]
        if d[0] == "and":
            g = and_ge(a)
            if g is None:
                continue
            d = ("ge", g[0], g[1])
        cand = []
        if d[0] == "fdiv":
            rc, rt, dd = d[1], d[2], d[3]
            cand.append((dd, 0, dd - 1))
        else:
            # [rc + rt >= 0] as the carry of something over a divisor: the divisors that appear, then the threshold
            rc, rt = d[1], d[2]
            f = dict(rt)
            flo, fhi = rng(rc, f)
            m0 = None
            for x, y in f.items():
                z = t.get(x)
                if z is not None and z % y == 0:
                    m0 = z // y
                    break
            ds = []
            if m0 and k % m0 == 0:
                ds.append(-(k // m0))
            if flo == rc and -rc not in ds:
                ds.append(-rc)
            for dd in ds:
                if dd > 0:
                    # F = rc+rt;  F - dd*[F>=0] lies in [min(flo,-dd), max(-1, fhi-dd)]
                    cand.append((dd, min(flo, -dd), max(-1, fhi - dd)))
        for dd, rlo, rhi in cand:
            if k % dd:
                continue
            m = -k // dd
            if m == 0:
                continue
            c2, t2 = c - m * rc, dict(t)
            del t2[a]
            for x, y in dict(rt).items():
                v = t2.get(x, 0) - m * y
                if v:
                    t2[x] = v
                else:
                    t2.pop(x, None)
            l2, h2 = rng(c2, t2) if len(t2) >= len(t) and depth > 1 else brng(c2, t2, depth + 1)
            if m > 0:
                l2 += m * rlo
                h2 += m * rhi
            else:
                l2 += m * rhi
                h2 += m * rlo
            lo, hi = max(lo, l2), min(hi, h2)
    ands = [x for x in t if DEP[x] is not None and DEP[x][0] == "and"]
    if 0 < len(ands) <= 6:
        # a conjunction that holds fixes its literals
        for a in ands:
            c1, t1 = c + t[a], dict(t)
            del t1[a]
            r0 = rng(c, t1)
            for l in DEP[a][1]:
                x = l if l > 0 else ~l
                k = t1.pop(x, 0)
                if l > 0:
                    c1 += k
            r1 = rng(c1, t1)
            lo, hi = max(lo, min(r0[0], r1[0])), min(hi, max(r0[1], r1[1]))
    return lo, hi


_ANDGE = {}


def and_ge(a):
    """a conjunction of independent bits as a linear indicator"""
    r = _ANDGE.get(a, 0)
    if r == 0:
        ls = DEP[a][1]
        c, t = -len(ls), {}
        r = None
        if len(ls) <= 1100:
            for l in ls:
                x = l if l > 0 else ~l
                if DEP[x] is not None:
                    break
                if l > 0:
                    t[x] = 1
                else:
                    t[x] = -1
                    c += 1
            else:
                r = (c, t)
        _ANDGE[a] = r
    return r


def fkey(c, t):
    return (c, frozenset(t.items()))


class Sym:
    __slots__ = ("w", "c", "t", "b", "lz", "_ex")

    def __init__(self, w, c=0, t=None, b=None, lz=None):
        self.w, self.c, self.t, self.b, self.lz, self._ex = w, c, t, b, lz, None

    # affine form (natural integers, meaningful modulo 2**w)
    def lin(self):
        if self.t is None:
            b = self.bits()
            c, t = 0, {}
            for i, l in enumerate(b):
                if l == 0:
                    continue
                p = 1 << i
                if l == 1:
                    c += p
                elif SMALL and DEP[l if l > 0 else ~l] is not None:
                    fc, ft = lit_form(l)
                    c += fc * p
                    for a, k in ft.items():
                        t[a] = t.get(a, 0) + k * p
                elif l > 0:
                    t[l] = t.get(l, 0) + p
                else:
                    c += p
                    t[~l] = t.get(~l, 0) - p
            self.c, self.t = c, {a: k for a, k in t.items() if k}
            self._ex = (c, self.t)
        return self.c, self.t

    def exact(self):
        """integer form equal to the unsigned value"""
        if self._ex is None:
            c, t = self.lin()
            if self._ex is None:
                self._ex = _exact(c, t, self.w)
        return self._ex

    def range(self):
        lo, hi = brng(*self.exact())
        M = (1 << self.w) - 1
        return max(lo, 0), min(hi, M)

    def bit(self, j):
        if self.b is not None:
            return self.b[j]
        if self.lz is not None:
            cache, op, x, y = self.lz
            r = cache.get(j)
            if r is None:
                bx, by = bit(x, j), bit(y, j)
                r = cache[j] = {"and": land, "or": lor, "xor": lxor}[op](bx, by)
            return r
        c, t = self.exact()
        _, (c1, t1) = split(c, t, 1 << (j + 1))
        (q, qt), _ = split(c1, t1, 1 << j)
        return to_lit(q, qt)

    def bits(self):
        if self.b is None:
            if self.lz is None:
                b = quick_bits(self)
                if b is not None:
                    self.b = b
                    return b
            self.b = tuple(self.bit(j) for j in range(self.w))
        return self.b

    def __repr__(self):
        return "<i%d %s>" % (self.w, show(self))


def quick_bits(s):
    c, t = s.exact()
    m = 0
    used = 0
    for a, k in t.items():
        if LO[a] != 0 or HI[a] != 1:
            return None
        p = abs(k)
        if p & (p - 1) or used & p:
            return None
        used |= p
        if k < 0:
            m |= p
    if c & used != m:
        return None
    b = [(c >> i) & 1 for i in range(s.w)]
    for a, k in t.items():
        b[abs(k).bit_length() - 1] = a if k > 0 else ~a
    return tuple(b)


def _exact(c, t, w):
    M = 1 << w
    lo, hi = rng(c, t)
    k = lo // M
    if hi // M == k:
        return (c - k * M, t)
    if any(DEP[a] is not None for a in t):
        lo, hi = brng(c, t)
        k = lo // M
        if hi // M == k:
            return (c - k * M, t)
    # other representatives of the coefficients
    H = M >> 1
    cands = []
    tb = {}
    for a, v in t.items():
        v %= M
        if v > H:
            v -= M
        if v:
            tb[a] = v
    cands.append(tb)
    amb = [a for a, v in tb.items() if v == H]
    if amb:
        t2 = dict(tb)
        for a in amb:
            t2[a] = -H
        cands.append(t2)
    t3 = {a: v % M for a, v in t.items() if v % M}
    if t3 != tb:
        cands.append(t3)
    cands.append({a: v - M for a, v in t3.items()})
    best = None
    for t2 in cands:
        c2 = c % M
        lo, hi = brng(c2, t2)
        k = lo // M
        if hi // M == k:
            return (c2 - k * M, t2)
        n = hi // M - k
        if best is None or n < best[0]:
            best = (n, c2, t2)
    _, c2, t2 = best
    q = fdiv(c2, t2, M)
    return lsub((c2, t2), lscale(q, M))


def lscale(f, k):
    if k == 0:
        return (0, {})
    return (f[0] * k, {a: v * k for a, v in f[1].items()})


def ladd(f, g):
    c, t = f
    d, u = g
    if len(t) < len(u):
        t, u = u, t
    t = dict(t)
    for a, v in u.items():
        n = t.get(a, 0) + v
        if n:
            t[a] = n
        else:
            t.pop(a, None)
    return (c + d, t)


def lsub(f, g):
    c, t = f
    d, u = g
    t = dict(t)
    for a, v in u.items():
        n = t.get(a, 0) - v
        if n:
            t[a] = n
        else:
            t.pop(a, None)
    return (c - d, t)


def fdiv(c, t, d):
    """floor((c+t)/d) as a linear form"""
    lo, hi = brng(c, t)
    k0, k1 = lo // d, hi // d
    if k0 == k1:
        return (k0, {})
    if SMALL:
        f = form_tt(c, t)
        if f is not None:
            return mkform(f[0], [v // d for v in f[1]])
    c -= k0 * d
    if k1 == k0 + 1:
        l = ge(c - d, t)
        return ladd((k0, {}), lit_form(l))
    a = dep(("fdiv", c, Fz(t), d), 0, k1 - k0)
    return (k0, {a: 1})


class Fz(dict):
    """hashable dict for atom keys"""
    __slots__ = ("h",)

    def __init__(self, d):
        dict.__init__(self, d)
        self.h = hash(frozenset(d.items()))

    def __hash__(self):
        return self.h


def split(c, t, d):
    """(c+t) = d*Q + R with 0 <= R < d;  returns (Q, R) forms"""
    if d == 1:
        return (c, t), (0, {})
    # 1: non-negative residues
    best = None
    for mode in (0, 1, 2):
        q, r = {}, {}
        rc = c % d
        qc = c // d
        chg = False
        for a, v in t.items():
            x = v % d
            if x == 0:
                q[a] = v // d
                continue
            if mode == 1 and v < 0:
                x -= d
                chg = True
            elif mode == 2 and 2 * x > d:
                x -= d
                chg = True
            r[a] = x
            y = (v - x) // d
            if y:
                q[a] = y
        if mode and not chg:
            continue
        lo, hi = rng(rc, r)
        k = lo // d
        n = hi // d - k
        if n and len(r) <= 3000 and any(DEP[a] is not None for a in r):
            lo, hi = brng(rc, r)
            k = lo // d
            n = hi // d - k
        if n == 0:
            return (qc + k, q), (rc - k * d, r)
        if best is None or n < best[0]:
            best = (n, qc, q, rc, r)
    if 8 < len(t) <= 3000 and d >= 32 and best[4]:
        z = _lanes(c, t, d)
        if z is not None:
            return z
    _, qc, q, rc, r = best
    k = fdiv(rc, r, d)
    return ladd((qc, q), k), lsub((rc, r), lscale(k, d))


def _lanes(c, t, d):
    """packed fields: peel a low field that provably stays inside its own window, then split the rest"""
    nb = d.bit_length() - 1
    if 1 << nb != d:
        return None
    for s in range(nb - 1, 3, -1):
        e = 1 << s
        h = e >> 1
        for sign in (0, 1):
            lo, hi = {}, {}
            amb = False
            for a, v in t.items():
                x = v & (e - 1)
                if x > h or (x == h and sign):
                    x -= e
                if x == h or x == -h:
                    amb = True
                if x:
                    lo[a] = x
                y = (v - x) >> s
                if y:
                    hi[a] = y
            if not lo or not hi:
                break
            cl = c & (e - 1)
            ch = c >> s
            l, u = rng(cl, lo)
            k = l >> s
            if u >> s != k:
                if u - l < 4 * e and any(DEP[a] is not None for a in lo):
                    l, u = brng(cl, lo)
                    k = l >> s
                if u >> s != k:
                    if amb:
                        continue
                    break
            q, r = split(ch + k, hi, d >> s)
            return q, ladd((cl - k * e, lo), lscale(r, e))
    return None


# ------------------------------------------------------------------ literals
def lit_form(l):
    if l == 0 or l == 1:
        return (l, {})
    if SMALL:
        a = l if l > 0 else ~l
        if DEP[a] is not None and DEP[a][0] == "tt":
            f = poly(a)
            return f if l > 0 else (1 - f[0], {x: -k for x, k in f[1].items()})
    if l > 0:
        return (0, {l: 1})
    return (1, {~l: -1})


def lnot(l):
    if l == 0 or l == 1:
        return 1 - l
    return ~l


def to_lit(c, t):
    """form known to be in [0,1] -> literal"""
    if not t:
        assert c in (0, 1), c
        return c
    if len(t) == 1:
        (a, k), = t.items()
        if c == 0 and k == 1:
            return a
        if c == 1 and k == -1:
            return ~a
    return ge(c - 1, t)


def decide_ge(c, t, assume=False):
    """1 / 0 / None: is c+t >= 0 ?  (assumptions only on request: values are cached across arms)"""
    if not t:
        return 1 if c >= 0 else 0
    lo, hi = rng(c, t)
    if lo >= 0:
        return 1
    if hi < 0:
        return 0
    if any(DEP[a] is not None for a in t):
        lo, hi = brng(c, t)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
    if SMALL and assume:
        f = form_tt(c, t)
        if f is not None:
            vs = {f[1][m] >= 0 for m in feasible(f[0])}
            return None if len(vs) != 1 else int(vs.pop())
    for ac, at in (_assume_ge if assume else ()):
        d = lsub((c, t), (ac, at))
        if brng(*d)[0] >= 0:
            return 1
        d = lsub((-c - 1, {a: -k for a, k in t.items()}), (ac, at))
        if brng(*d)[0] >= 0:
            return 0
    return None


def ge(c, t):
    """literal for [c + t >= 0]"""
    d = decide_ge(c, t)
    if d is not None:
        return d
    if SMALL:
        f = form_tt(c, t)
        if f is not None:
            return mklit(f[0], tuple(int(v >= 0) for v in f[1]))
    g = 0
    for k in t.values():
        g = gcd(g, k)
    if g > 1:
        t = {a: k // g for a, k in t.items()}
        c = c // g
    if len(t) == 1:
        (a, k), = t.items()
        if LO[a] == 0 and HI[a] == 1:
            return a if k > 0 else ~a
    elif len(t) > 1:
        r = _drop_low(c, t)
        if r is not None:
            return ge(*r)
    # orientation
    if t[min(t)] < 0:
        return lnot(_ge(-c - 1, {a: -k for a, k in t.items()}))
    return _ge(c, t)


def _drop_low(c, t):
    """c + L + d*U >= 0  <=>  k + U >= 0  when floor((c+L)/d) is the constant k"""
    it = sorted((abs(k), a) for a, k in t.items())
    lo = hi = 0
    n = len(it)
    for i, (m, a) in enumerate(it):
        if i and m != it[i - 1][0] and hi - lo < m:
            k = (c + lo) // m
            if (c + hi) // m == k and all(x % m == 0 for x, _ in it[i:]):
                return k, {b: t[b] // m for _, b in it[i:]}
        v = t[a]
        if v >= 0:
            lo += v * LO[a]
            hi += v * HI[a]
        else:
            lo += v * HI[a]
            hi += v * LO[a]
    return None


def _ge(c, t):
    # disjunction / conjunction patterns over bits
    ok = True
    pos = neg = 0
    mn = None
    for a, k in t.items():
        if LO[a] != 0 or HI[a] != 1:
            ok = False
            break
        if k > 0:
            pos += k
        else:
            neg += k
        mn = abs(k) if mn is None else min(mn, abs(k))
    if ok:
        # form ranges over [c+neg, c+pos]
        # every single move from the minimum makes it true  -> OR ; from the maximum makes it false -> AND
        if c + neg < 0 and c + neg + mn >= 0:
            return lnot(land_all([(~a if k > 0 else a) for a, k in t.items()]))
        if c + pos >= 0 and c + pos - mn < 0:
            return land_all([(a if k > 0 else ~a) for a, k in t.items()])
    lo, hi = brng(c, t)
    return dep(("ge", c, Fz(t)), 0, 1)


def lval(l):
    """1/0/None under the current assumptions"""
    if l == 0 or l == 1:
        return l
    a = l if l > 0 else ~l
    v = _assume.get(a)
    if v is None and SMALL and _assume:
        r = tt(a)
        if r is not None:
            vs = {r[1][m] for m in feasible(r[0])}
            if len(vs) == 1:
                v = vs.pop()
                return v if l > 0 else 1 - v
            return None
    if v is None and DEP[a] is not None:
        d = DEP[a]
        if d[0] == "ge" and _assume_ge:
            v = decide_ge(d[1], d[2], True)
        elif d[0] == "and":
            vs = [lval(x) for x in d[1]]
            if any(x == 0 for x in vs):
                v = 0
            elif all(x == 1 for x in vs):
                v = 1
    if v is None:
        return None
    return v if l > 0 else 1 - v


def land_all(ls):
    s = set()
    if SMALL:
        ls = list(ls)
        if 0 in ls:
            return 0
        ls = [l for l in ls if l != 1]
        S = union([l if l > 0 else ~l for l in ls])
        if S is not None:
            vs = [lit_vals(l, S) for l in ls]
            return mklit(S, tuple(int(all(x)) for x in zip(*vs))) if vs else 1
    for l in ls:
        if l == 1:
            continue
        if l == 0:
            return 0
        if l > 1 and DEP[l] is not None and DEP[l][0] == "and":
            s |= DEP[l][1]
        else:
            s.add(l)
    for l in s:
        if ~l in s:
            return 0
    # a complemented conjunction with a literal of s negated inside is implied
    drop = set()
    for l in s:
        if l < 0 and DEP[~l] is not None and DEP[~l][0] == "and":
            inner = DEP[~l][1]
            if inner <= s:
                return 0
            if any(~x in s for x in inner):
                drop.add(l)
    s -= drop
    # linear implications between indicators
    gs = [l for l in s if DEP[l if l > 0 else ~l] is not None and DEP[l if l > 0 else ~l][0] == "ge"]
    if len(gs) > 1 and len(gs) <= 40:
        fs = [(l, ge_form(l)) for l in gs]
        for l, f in fs:
            for m, g in fs:
                if l == m or l in drop or m in drop:
                    continue
                d = lsub(g, f)
                if len(d[1]) > 64:
                    continue
                if rng(*d)[0] >= 0:        # l implies m
                    drop.add(m)
                else:
                    e = ladd(f, g)
                    if rng(*e)[1] < 0:     # f>=0 and g>=0 impossible
                        return 0
        s -= drop
    if not s:
        return 1
    if len(s) == 1:
        return next(iter(s))
    return _decided(dep(("and", frozenset(s)), 0, 1))


def ge_form(l):
    """form that is >=0 iff the ge-literal is true"""
    d = DEP[l if l > 0 else ~l]
    if l > 0:
        return (d[1], d[2])
    return (-d[1] - 1, {a: -k for a, k in d[2].items()})


def land(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1 or x == y:
        return x
    if x == ~y:
        return 0
    return land_all((x, y))


def lor(x, y):
    return lnot(land(lnot(x), lnot(y)))


def lxor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == 1:
        return lnot(y)
    if y == 1:
        return lnot(x)
    if x == y:
        return 0
    if x == ~y:
        return 1
    if SMALL:
        S = union([x if x > 0 else ~x, y if y > 0 else ~y])
        if S is not None:
            return mklit(S, tuple(p ^ q for p, q in zip(lit_vals(x, S), lit_vals(y, S))))
    inv = False
    if x < 0:
        x, inv = ~x, not inv
    if y < 0:
        y, inv = ~y, not inv
    # parity sets flatten
    s = set()
    for l in (x, y):
        d = DEP[l]
        s ^= d[1] if d is not None and d[0] == "xor" else {l}
    if not s:
        r = 0
    elif len(s) == 1:
        r = next(iter(s))
    else:
        r = _decided(dep(("xor", frozenset(s)), 0, 1))
    return lnot(r) if inv else r


_SPLIT = {}


def _decided(a):
    """a boolean combination of linear indicators: constant if it is so in every feasible case"""
    v = _SPLIT.get(a)
    if v is None:
        v = _SPLIT[a] = _case_split(a)
    return v


def _leaves(a, out, depth=0):
    d = DEP[a]
    if d is None or depth > 6 or len(out) > 6:
        return d is not None and False
    k = d[0]
    if k == "ge" or (k == "and" and and_ge(a)):
        if a not in out:
            for x in (d[2] if k == "ge" else ()):
                e = DEP[x]
                if e is not None and (e[0] == "ge" or e[0] == "and") and not _leaves(x, out, depth + 1):
                    return False
            out.append(a)
        return len(out) <= 6
    if k in ("and", "xor"):
        return all(_leaves(x if x > 0 else ~x, out, depth + 1) for x in d[1])
    return False


def _case_split(a):
    out = []
    if not _leaves(a, out) or len(out) < 2:
        return a
    inner = set()
    for g in out:
        if DEP[g][0] == "ge":
            for x in DEP[g][2]:
                if x in out:
                    inner.add(x)
    base = [g for g in out if g in inner] or out[:2]
    if len(base) > 3:
        return a
    F = {g: (DEP[g][1:3] if DEP[g][0] == "ge" else and_ge(g)) for g in out}
    got = None
    for m in range(1 << len(base)):
        asg = {g: (m >> i) & 1 for i, g in enumerate(base)}
        forms = []
        ok = True
        for g in base:
            c, t = subst(F[g][0], F[g][1], asg, g)
            f = (c, t) if asg[g] else (-c - 1, {x: -k for x, k in t.items()})
            if rng(*f)[1] < 0:
                ok = False
                break
            forms.append(f)
        if ok:
            for i in range(len(forms)):
                for j in range(i):
                    if rng(*ladd(forms[i], forms[j]))[1] < 0:
                        ok = False
        if not ok:
            continue
        v = _case_val(a, asg, forms)
        if v is None or (got is not None and v != got):
            return a
        got = v
    return a if got is None else got


def subst(c, t, asg, skip=None):
    t2 = {}
    for x, k in t.items():
        v = asg.get(x)
        if v is None or x == skip:
            t2[x] = k
        else:
            c += k * v
    return c, t2


def _case_val(a, asg, forms):
    v = asg.get(a)
    if v is not None:
        return v
    d = DEP[a]
    if d is None:
        return None
    k = d[0]
    if k == "ge" or (k == "and" and and_ge(a)):
        if k == "and":
            d = (0,) + and_ge(a)
        c, t = subst(d[1], d[2], asg)
        lo, hi = rng(c, t)
        if lo >= 0:
            return 1
        if hi < 0:
            return 0
        for f in forms:
            if rng(*lsub((c, t), f))[0] >= 0:
                return 1
            if rng(*lsub((-c - 1, {x: -y for x, y in t.items()}), f))[0] >= 0:
                return 0
        return None
    vs = []
    for x in d[1]:
        y = _case_val(x if x > 0 else ~x, asg, forms)
        if y is None:
            if k == "xor":
                return None
        elif x < 0:
            y = 1 - y
        vs.append(y)
    if k == "and":
        if any(y == 0 for y in vs):
            return 0
        return None if any(y is None for y in vs) else 1
    return sum(vs) & 1


def lite(c, x, y):
    if c == 1 or x == y:
        return x
    if c == 0:
        return y
    if x == c:
        x = 1
    elif x == ~c:
        x = 0
    if y == c:
        y = 0
    elif y == ~c:
        y = 1
    if x == y:
        return x
    if x == 1 and y == 0:
        return c
    if x == 0 and y == 1:
        return lnot(c)
    if x == 0:
        return land(lnot(c), y)
    if x == 1:
        return lor(c, y)
    if y == 0:
        return land(c, x)
    if y == 1:
        return lor(lnot(c), x)
    if SMALL:
        S = union([l if l > 0 else ~l for l in (c, x, y)])
        if S is not None:
            return mklit(S, tuple(q if p else r for p, q, r in zip(lit_vals(c, S), lit_vals(x, S), lit_vals(y, S))))
    if c < 0:
        c, x, y = ~c, y, x
    inv = False
    if x < 0 and y < 0:
        x, y, inv = ~x, ~y, True
    r = dep(("itb", c, x, y), 0, 1)
    return lnot(r) if inv else r


# ------------------------------------------------------------------ values
def mk(w, c, t):
    M = 1 << w
    bad = None
    for k in t.values():
        if not -M < k < M or k == 0:
            bad = 1
            break
    if bad:
        n = {}
        for a, k in t.items():
            if not -M < k < M:
                k %= M
            if k:
                n[a] = k
        t = n
    if not t:
        return c % M
    return Sym(w, c, t)


def mke(w, c, t):
    """as mk, but c+t is known to be the exact unsigned value"""
    if not t:
        return c % (1 << w)
    s = Sym(w, c, t)
    s._ex = (c, t)
    return s


def from_bits(w, b):
    for l in b:
        if l != 0 and l != 1:
            break
    else:
        r = 0
        for i, l in enumerate(b):
            r |= l << i
        return r
    return Sym(w, b=tuple(b))


def from_lit(l, w=1):
    if l == 0 or l == 1:
        return l
    return Sym(w, b=(l,) + (0,) * (w - 1))


def lin(v):
    return v.lin() if isinstance(v, Sym) else (v, {})


def exact(v):
    return v.exact() if isinstance(v, Sym) else (v, {})


def bit(v, j):
    return v.bit(j) if isinstance(v, Sym) else (v >> j) & 1


def bits(v, w):
    return v.bits() if isinstance(v, Sym) else tuple((v >> i) & 1 for i in range(w))


def vrange(v):
    return v.range() if isinstance(v, Sym) else (v, v)


def as_lit(v):
    """i1 value -> literal"""
    if isinstance(v, Sym):
        if v.b is not None:
            return v.b[0]
        return v.bit(0)
    return v & 1


def add(x, y, w):
    if type(x) is int and type(y) is int:
        return (x + y) & ((1 << w) - 1)
    if type(y) is int and y == 0:
        return x
    if type(x) is int and x == 0:
        return y
    if type(y) is int and y >> (w - 1):
        y -= 1 << w                      # adding a "negative" constant
    if type(x) is int and x >> (w - 1):
        x -= 1 << w
    f = ladd(lin(x), lin(y))
    return mk(w, *f)


def sub(x, y, w):
    if type(x) is int and type(y) is int:
        return (x - y) & ((1 << w) - 1)
    if type(y) is int and y == 0:
        return x
    if type(y) is int and y >> (w - 1):
        y -= 1 << w
    return mk(w, *lsub(lin(x), lin(y)))


def mul(x, y, w):
    if type(x) is int and type(y) is int:
        return (x * y) & ((1 << w) - 1)
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == 1:
            return x
        if y & (y - 1) == 0:
            return shl(x, y.bit_length() - 1, w)
        if y >> (w - 1):
            y -= 1 << w
        c, t = lin(x)
        f = mk(w, c * y, {a: k * y for a, k in t.items()})
        return f
    # literal * value
    for u, v in ((x, y), (y, x)):
        c, t = exact(u)
        if len(t) == 1 and c in (0, 1):
            (a, k), = t.items()
            if LO[a] == 0 and HI[a] == 1 and ((c == 0 and k == 1) or (c == 1 and k == -1)):
                return ite(a if c == 0 else ~a, v, 0, w)
    return opaque("mul", (x, y), w)


def opaque(op, args, w, lo=0, hi=None):
    key = ("fn", op, tuple(vkey(a) for a in args), w)
    a = _key.get(key)
    if a is None:
        a = dep(key, lo, (1 << w) - 1 if hi is None else hi)
        KIDS[a] = args
    if SMALL:
        r = tt(a)
        if r is not None:
            return mke(w, *mkform(*r))
    return mke(w, 0, {a: 1})


def vkey(v):
    if isinstance(v, Sym):
        if v.b is not None and v.t is None:
            return (v.w, "b", v.b)
        c, t = v.lin()
        M = 1 << v.w
        return (v.w, c % M, frozenset((a, k % M) for a, k in t.items()))
    return v


def same(x, y, w):
    """provably equal modulo 2**w"""
    if type(x) is int and type(y) is int:
        return (x - y) & ((1 << w) - 1) == 0
    if isinstance(x, Sym) and isinstance(y, Sym) and x.b is not None and y.b is not None and x.b == y.b:
        return True
    c, t = lsub(lin(x), lin(y))
    M = 1 << w
    return c % M == 0 and all(k % M == 0 for k in t.values())


def shl(x, k, w):
    if type(k) is int:
        if k >= w:
            raise GiveUp("shift")
        if type(x) is int:
            return (x << k) & ((1 << w) - 1)
        if k == 0:
            return x
        if x.b is not None:
            return from_bits(w, (0,) * k + x.b[:w - k])
        if x.lz is not None:
            x.bits()
            return shl(x, k, w)
        c, t = x.lin()
        M = 1 << w
        n = {}
        for a, v in t.items():
            v <<= k
            if not -M < v < M:
                v %= M
            if v:
                n[a] = v
        return mk(w, c << k, n)
    c, t = exact(k)
    cs = cases(c, t, 16)
    if cs is not None:
        # sum over the few possible amounts
        r = None
        for lit, val in cs:
            z = shl(x, val, w) if val < w else 0
            r = z if r is None else ite(lit, z, r, w)
        return r
    return opaque("shl", (x, k), w)


def cases(c, t, limit):
    """a form over few bit atoms -> [(literal, value)] ; the first entry is the default"""
    if len(t) == 1:
        (a, k), = t.items()
        if LO[a] == 0 and HI[a] == 1:
            return [(1, c), (a, c + k)]
    if SMALL:
        f = form_tt(c, t)
        if f is not None:
            fs = {f[1][m] for m in feasible(f[0])}
            if 0 < len(fs) <= limit:
                return [(1 if i == 0 else mklit(f[0], tuple(int(x == v) for x in f[1])), v) for i, v in enumerate(sorted(fs))]
    return None


def lshr(x, k, w):
    if type(k) is int:
        if k >= w:
            raise GiveUp("shift")
        if type(x) is int:
            return x >> k
        if k == 0:
            return x
        if x.b is not None:
            return from_bits(w, x.b[k:] + (0,) * k)
        if x.lz is not None:
            return from_bits(w, x.bits()[k:] + (0,) * k)
        (c, t), _ = split(*x.exact(), 1 << k)
        return mke(w, c, t)
    c, t = exact(k)
    cs = cases(c, t, 16)
    if cs is not None:
        r = None
        for lit, val in cs:
            z = lshr(x, val, w) if val < w else 0
            r = z if r is None else ite(lit, z, r, w)
        return r
    return opaque("lshr", (x, k), w)


def sexact(x, w):
    """integer form of the signed value"""
    if type(x) is int:
        return (x - (1 << w) if x >> (w - 1) else x, {})
    c, t = x.lin()
    M, H = 1 << w, 1 << (w - 1)
    for f in ((c, t), x.exact()):
        lo, hi = brng(*f)
        k = (lo + H) // M
        if (hi + H) // M == k:
            return (f[0] - k * M, f[1])
    s = x.bit(w - 1)
    f = x.exact()
    return lsub(f, lscale(lit_form(s), M))


def ashr(x, k, w):
    if type(k) is not int:
        return opaque("ashr", (x, k), w)
    if k >= w:
        raise GiveUp("shift")
    if type(x) is int:
        s = x - (1 << w) if x >> (w - 1) else x
        return (s >> k) & ((1 << w) - 1)
    if x.b is not None:
        return from_bits(w, x.b[k:] + (x.b[-1],) * k)
    q, _ = split(*sexact(x, w), 1 << k)
    return mk(w, *q)


def udiv(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return x // y
        if y & (y - 1) == 0:
            return lshr(x, y.bit_length() - 1, w)
        (c, t), _ = split(*x.exact(), y)
        return mke(w, c, t)
    return opaque("udiv", (x, y), w)


def urem(x, y, w):
    if type(y) is int:
        if type(x) is int:
            return x % y
        if y & (y - 1) == 0:
            return and_(x, y - 1, w)
        _, (c, t) = split(*x.exact(), y)
        return mke(w, c, t)
    return opaque("urem", (x, y), w)


def sdiv(x, y, w):
    xs, ys = sexact(x, w), sexact(y, w)
    if ys[1] or ys[0] == 0:
        return opaque("sdiv", (x, y), w)
    d = ys[0]
    if not xs[1]:
        q = abs(xs[0]) // abs(d)
        return (q if (xs[0] < 0) == (d < 0) else -q) & ((1 << w) - 1)
    if d < 0:
        return opaque("sdiv", (x, y), w)
    q, r = split(*xs, d)
    if brng(*xs)[0] >= 0 or not r[1] and r[0] == 0:
        return mk(w, *q)
    return opaque("sdiv", (x, y), w)


def srem(x, y, w):
    xs, ys = sexact(x, w), sexact(y, w)
    if not xs[1] and not ys[1] and ys[0]:
        r = abs(xs[0]) % abs(ys[0])
        return (-r if xs[0] < 0 else r) & ((1 << w) - 1)
    if not ys[1] and ys[0] > 0 and brng(*xs)[0] >= 0:
        return mk(w, *split(*xs, ys[0])[1])
    return opaque("srem", (x, y), w)


def support(v, w):
    """mask of bits that may be non-zero"""
    if type(v) is int:
        return v
    if v.b is not None:
        m = 0
        for i, l in enumerate(v.b):
            if l != 0:
                m |= 1 << i
        return m
    c, t = v.exact()
    lo, hi = brng(c, t)
    m = (1 << max(hi, 0).bit_length()) - 1
    g = c
    for k in t.values():
        g = gcd(g, k)
    if g:
        low = (g & -g) - 1
        m &= ~low
    # lanes
    if c >= 0 and all(k > 0 and LO[a] == 0 and HI[a] == 1 and k & (k - 1) == 0 for a, k in t.items()):
        s, p = 0, c
        tot = {}
        for a, k in t.items():
            tot[k] = tot.get(k, 0) + 1
        if all(n == 1 for n in tot.values()) and not any(k & c for k in tot):
            m &= c | sum(tot)
    return m


def and_(x, y, w):
    if type(x) is int and type(y) is int:
        return x & y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        M = (1 << w) - 1
        if y == M:
            return x
        if x.b is not None:
            return from_bits(w, tuple(l if (y >> i) & 1 else 0 for i, l in enumerate(x.b)))
        if x.lz is not None:
            return from_bits(w, tuple(x.bit(i) if (y >> i) & 1 else 0 for i in range(w)))
        # runs of ones
        f = x.exact()
        nrun = bin(y ^ (y << 1)).count("1")
        if nrun > 4:
            b = quick_bits(x)
            if b is not None:
                x.b = b
                return and_(x, y, w)
        c, t = 0, {}
        i = 0
        rest = f              # value of bits >= base, scaled down
        base = 0
        acc = (0, {})
        while y >> i:
            if not (y >> i) & 1:
                i += 1
                continue
            j = i
            while (y >> j) & 1:
                j += 1
            rest, _ = split(*rest, 1 << (i - base))
            rest, lane = split(*rest, 1 << (j - i)) if j < w else ((0, {}), rest)
            base = j
            acc = ladd(acc, lscale(lane, 1 << i))
            i = j
        return mke(w, *acc)
    if x is y:
        return x
    if support(x, w) & support(y, w) == 0:
        return 0
    return lazy("and", x, y, w)


def lazy(op, x, y, w):
    s = Sym(w, lz=({}, op, x, y))
    bx = x.b if isinstance(x, Sym) else True
    by = y.b if isinstance(y, Sym) else True
    if bx is not None and by is not None:
        return from_bits(w, [s.bit(j) for j in range(w)])
    return s


def or_(x, y, w):
    if type(x) is int and type(y) is int:
        return x | y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if x.b is not None:
            return from_bits(w, tuple(1 if (y >> i) & 1 else l for i, l in enumerate(x.b)))
        if support(x, w) & y == 0:
            c, t = x.exact()
            return mke(w, c + y, t)
        z = and_(x, ~y & ((1 << w) - 1), w)
        c, t = exact(z)
        return mke(w, c + y, t)
    if x is y:
        return x
    if x.b is None or y.b is None:
        if support(x, w) & support(y, w) == 0:
            f = ladd(x.exact(), y.exact())
            return mke(w, *f)
    return lazy("or", x, y, w)


def xor_(x, y, w):
    if type(x) is int and type(y) is int:
        return x ^ y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return x
        if x.b is not None:
            return from_bits(w, tuple(lnot(l) if (y >> i) & 1 else l for i, l in enumerate(x.b)))
        M = (1 << w) - 1
        if y == M:
            c, t = x.exact()
            return mke(w, M - c, {a: -k for a, k in t.items()})
        if support(x, w) & y == 0:
            c, t = x.exact()
            return mke(w, c + y, t)
        return from_bits(w, [lnot(x.bit(i)) if (y >> i) & 1 else x.bit(i) for i in range(w)])
    if x is y:
        return 0
    if (x.b is None or y.b is None) and support(x, w) & support(y, w) == 0:
        return mke(w, *ladd(x.exact(), y.exact()))
    return lazy("xor", x, y, w)


def trunc(x, w0, w):
    if type(x) is int:
        return x & ((1 << w) - 1)
    if x.b is not None:
        return from_bits(w, x.b[:w])
    if x.lz is not None:
        return from_bits(w, [x.bit(j) for j in range(w)])
    if w == 1:
        return from_lit(x.bit(0), 1)
    c, t = x.exact()
    return mk(w, c, t)


def zext(x, w0, w):
    if type(x) is int:
        return x
    if x.b is not None:
        return from_bits(w, x.b + (0,) * (w - w0))
    return mke(w, *x.exact())


def sext(x, w0, w):
    if type(x) is int:
        return (x | ((1 << w) - (1 << w0))) if x >> (w0 - 1) else x
    if x.b is not None:
        return from_bits(w, x.b + (x.b[-1],) * (w - w0))
    return mk(w, *sexact(x, w0))


def eq_lit(x, y, w):
    if type(x) is int and type(y) is int:
        return int(x == y)
    if same(x, y, w):
        return 1
    if isinstance(x, Sym) and x.b is not None and (type(y) is int or y.b is not None):
        by = bits(y, w)
        ls = []
        for p, q in zip(x.b, by):
            l = lnot(lxor(p, q))
            if l == 0:
                return 0
            if l != 1:
                ls.append(l)
        return land_all(ls)
    if isinstance(y, Sym) and y.b is not None and type(x) is int:
        return eq_lit(y, x, w)
    d = lsub(exact(x), exact(y))
    lo, hi = brng(*d)
    if lo > 0 or hi < 0:
        return 0
    g = 0
    for k in d[1].values():
        g = gcd(g, k)
    if g and d[0] % g:
        return 0
    if lo == 0:
        return lnot(ge(d[0] - 1, d[1]))
    neg = (-d[0], {a: -k for a, k in d[1].items()})
    if hi == 0:
        return lnot(ge(neg[0] - 1, neg[1]))
    return land(ge(*d), ge(*neg))


def icmp(pred, x, y, w):
    """literal"""
    if pred == "eq":
        return eq_lit(x, y, w)
    if pred == "ne":
        return lnot(eq_lit(x, y, w))
    if pred[0] == "s":
        f, g = sexact(x, w), sexact(y, w)
    else:
        f, g = exact(x), exact(y)
    p = pred[1:]
    if p == "lt":
        d = lsub(g, f)
        return ge(d[0] - 1, d[1])
    if p == "le":
        d = lsub(g, f)
        return ge(*d)
    if p == "gt":
        d = lsub(f, g)
        return ge(d[0] - 1, d[1])
    d = lsub(f, g)
    return ge(*d)


def times(c, d):
    """literal * form, monomial by monomial"""
    f = lscale(lit_form(c), d[0])
    for a, k in d[1].items():
        S = union([c if c > 0 else ~c, a])
        if S is None:
            return None
        s, v = tt(a)
        va = v if s == S else [v[i] for i in index(S, s)]
        f = ladd(f, mkform(S, [k * p * q for p, q in zip(lit_vals(c, S), va)]))
    return f


def ite(c, x, y, w):
    """c literal"""
    if c == 1 or x is y:
        return x
    if c == 0:
        return y
    if type(x) is int and type(y) is int:
        if x == y:
            return x
        l = lit_form(c)
        f = ladd((y, {}), lscale(l, x - y))
        return mke(w, *f)
    if same(x, y, w):
        return x
    bx = True if type(x) is int else x.b is not None
    by = True if type(y) is int else y.b is not None
    if bx and by:
        return from_bits(w, [lite(c, p, q) for p, q in zip(bits(x, w), bits(y, w))])
    d = lsub(exact(x), exact(y))
    if not d[1]:
        return mk(w, *ladd(exact(y), lscale(lit_form(c), d[0])))
    if SMALL and tt(c if c > 0 else ~c) is not None:
        z = times(c, d)
        if z is not None:
            f = ladd(exact(y), z)
            return mke(w, *f)
    if len(d[1]) <= 4 and all(LO[a] == 0 and HI[a] == 1 for a in d[1]):
        f = exact(y)
        f = ladd(f, lscale(lit_form(c), d[0]))
        for a, k in d[1].items():
            f = ladd(f, lscale(lit_form(land(c, a)), k))
        return mk(w, *f)
    (l1, h1), (l0, h0) = vrange(x), vrange(y)
    if c < 0:
        c, x, y = ~c, y, x
    return opaque("ite", (from_lit(c), x, y), w, min(l1, l0), max(h1, h0))


# ------------------------------------------------------------------ evaluation at a point (witnesses)
class Env:
    def __init__(self, choose):
        self.v = {0: 0, 1: 1}
        self.choose = choose

    def atom(self, a):
        r = self.v.get(a)
        if r is None:
            # iterative to avoid deep recursion on long chains
            d = DEP[a]
            if d is None:
                r = self.choose(a)
            elif d[0] == "ge":
                r = int(self.form((d[1], d[2])) >= 0)
            elif d[0] == "fdiv":
                r = self.form((d[1], d[2])) // d[3]
            elif d[0] == "tt":
                r = d[2][sum(self.atom(x) << i for i, x in enumerate(d[1]))]
            elif d[0] == "and":
                r = int(all(self.lit(l) for l in d[1]))
            elif d[0] == "xor":
                r = 0
                for l in d[1]:
                    r ^= self.lit(l)
            elif d[0] == "itb":
                r = self.lit(d[2]) if self.lit(d[1]) else self.lit(d[3])
            elif d[0] == "fn":
                r = self.fn(d[1], KIDS[a], d[3])
            else:
                raise GiveUp("eval " + d[0])
            self.v[a] = r
        return r

    def lit(self, l):
        if l >= 0:
            return self.atom(l)
        return 1 - self.atom(~l)

    def form(self, f):
        s = f[0]
        for a, k in f[1].items():
            s += k * self.atom(a)
        return s

    def val(self, v):
        if type(v) is int:
            return v
        if v.b is not None:
            r = 0
            for i, l in enumerate(v.b):
                if self.lit(l):
                    r |= 1 << i
            return r
        if v.lz is not None and v.t is None:
            _, op, x, y = v.lz
            p, q = self.val(x), self.val(y)
            return p & q if op == "and" else p | q if op == "or" else p ^ q
        return self.form(v.lin()) & ((1 << v.w) - 1)

    def fn(self, op, args, w):
        M = (1 << w) - 1
        if callable(op):
            return op(*[self.val(a) for a in args]) & M
        if op == "ite":
            return self.val(args[1]) if self.val(args[0]) else self.val(args[2])
        x = [self.val(a) for a in args]
        if op == "mul":
            return x[0] * x[1] & M
        if op == "shl":
            return x[0] << x[1] & M if x[1] < w else 0
        if op == "lshr":
            return x[0] >> x[1] if x[1] < w else 0
        if op == "ashr":
            s = x[0] - (1 << w) if x[0] >> (w - 1) else x[0]
            return s >> min(x[1], w - 1) & M
        if op == "udiv":
            return x[0] // x[1] if x[1] else 0
        if op == "urem":
            return x[0] % x[1] if x[1] else 0
        if op in ("sdiv", "srem"):
            s = [v - (1 << w) if v >> (w - 1) else v for v in x]
            if not s[1]:
                return 0
            q = abs(s[0]) // abs(s[1])
            if (s[0] < 0) != (s[1] < 0):
                q = -q
            return (q if op == "sdiv" else s[0] - q * s[1]) & M
        if op == "cttz":
            return (x[0] & -x[0]).bit_length() - 1 if x[0] else w
        if op == "ctlz":
            return w - x[0].bit_length()
        if op == "ctpop":
            return bin(x[0]).count("1")
        raise GiveUp("eval fn " + str(op))


# ------------------------------------------------------------------ diagnostics
def deps_free(atoms, out=None, seen=None):
    """free atoms a collection of atoms depends on"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    st = list(atoms)
    while st:
        a = st.pop()
        if a in seen or a < 2:
            continue
        seen.add(a)
        d = DEP[a]
        if d is None:
            out.add(a)
        elif d[0] in ("ge", "fdiv"):
            st += list(d[2])
        elif d[0] in ("and", "xor", "tt"):
            st += [l if l > 0 else ~l for l in d[1]]
        elif d[0] == "itb":
            st += [l if l > 0 else ~l for l in d[1:]]
        elif d[0] == "fn":
            for v in KIDS[a]:
                st += atoms_of(v)
    return out


def atoms_of(v):
    if type(v) is int:
        return []
    if v.b is not None:
        return [l if l > 0 else ~l for l in v.b if l not in (0, 1)]
    if v.lz is not None and v.t is None:
        return atoms_of(v.lz[2]) + atoms_of(v.lz[3])
    return list(v.lin()[1])


def show_lit(l):
    if l in (0, 1):
        return str(l)
    return NAME[l] if l > 0 else "!" + NAME[~l]


def show(v, limit=6):
    if type(v) is int:
        return "%d" % v if v < 65536 else hex(v)
    if v.b is not None:
        i = 0
        out = []
        b = v.b
        n = len(b)
        for i in range(n - 1, -1, -1):
            out.append(show_lit(b[i]))
        if n > 8:
            out = out[:4] + ["..."] + out[-4:]
        return "{" + ",".join(out) + "}"
    c, t = v.lin()
    it = sorted(t.items())[:limit]
    s = " + ".join("%s*%s" % (k if abs(k) < 65536 else hex(k), NAME[a]) for a, k in it)
    if len(t) > limit:
        s += " + ...(%d)" % len(t)
    return "%s + %d" % (s, c)
