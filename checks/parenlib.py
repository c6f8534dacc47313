"""Balanced parentheses with free choices: 1 x S !x 0 is balanced for x = 0 and x = 1; the oracle answers from the definition."""
from .objlib import *


class Paren:
    """tokens: 0, 1, +k+2 (the free bit k), -(k+2) (its complement)"""

    def __init__(self, phases, seed, unit=(1, 9), far=(1, 400), nest=2, maxu=400, tree=False):
        """phases: (ups per 1000 steps, steps), or ("at", depth, steps): stay around a depth;
        unit: chance of a short free unit, far: of a long one"""
        rnd = self.rnd = Lcg(seed)
        T, st, units = [], [], []
        depth = 0

        def opn(kind):
            if kind == "n":
                T.append(1)
                st.append(None)
            else:
                k = len(units)
                units.append([len(T), None, kind])
                T.extend((1, k + 2))
                st.append(k)

        def cls():
            k = st.pop()
            if k is None:
                T.append(0)
            else:
                T.extend((-(k + 2), 0))
                units[k][1] = len(T) - 1
        if tree:
            opn("n")
        for ph in phases:
            up, steps = ph[:2]
            if up == "up":
                for _ in range(steps):
                    opn("n")
                continue
            if up == "down":
                for _ in range(steps):
                    cls()
                continue
            if up == "fill":
                # pairs, some of them free units, up to a position
                while len(T) + 1 < steps:
                    if len(T) + 4 <= steps and len(units) < maxu and rnd(unit[1]) < unit[0]:
                        opn("s")
                        cls()
                    else:
                        opn("n")
                        cls()
                continue
            if up == "at":
                target, end = ph[1:]
            for z in range(steps if up != "at" else 10 ** 9):
                if ph[0] == "at":
                    if len(T) >= end:
                        break
                    up = 1000 if len(st) < target else 0 if len(st) > target else 500
                nf = sum(1 for k in st if k is not None)
                if len(units) < maxu and rnd(unit[1]) < unit[0]:
                    opn("s")
                    cls()
                elif len(units) < maxu and nf < nest and rnd(far[1]) < far[0]:
                    opn("f")
                elif rnd(1000) < up or len(st) <= int(tree):
                    opn("n")
                else:
                    cls()
        while st:
            cls()
        self.T, self.units = T, [(p, e) for p, e, _ in units]
        self.n = len(T)
        self.cache = {}
        self.sym = set()
        for p, e in self.units:
            self.sym.update((p + 1, e - 1))
        # far units first, so that the list of units containing a position is short to compute
        self.far = [k for k, (p, e) in enumerate(self.units) if e - p > 3]
        self.at = {}
        for k, (p, e) in enumerate(self.units):
            if e - p == 3:
                for q in range(p, e + 2):
                    self.at.setdefault(q, []).append(k)

    def bits(self, c):
        a = [c.bits("x%d" % k, 1)[0] for k in range(len(self.units))]
        self.atoms = a
        return [t if t in (0, 1) else a[t - 2] if t > 0 else D.lnot(a[-t - 2]) for t in self.T]

    def about(self, pos):
        """units whose bits surround this position"""
        return sorted([k for k in self.far if self.units[k][0] <= pos <= self.units[k][1] + 1] + self.at.get(pos, []))

    def world(self, on):
        """(bits, match, enclosing open, excess) with the units in `on` set to 1 and the others to 0"""
        w = self.cache.get(on)
        if w is None:
            B = [t if t in (0, 1) else int((t - 2) in on) if t > 0 else 1 - int((-t - 2) in on) for t in self.T]
            M, E, X = [0] * self.n, [None] * self.n, [0] * (self.n + 1)
            st = []
            for i, b in enumerate(B):
                X[i + 1] = X[i] + (1 if b else -1)
                if b:
                    E[i] = st[-1] if st else None
                    st.append(i)
                else:
                    j = st.pop()
                    M[i], M[j] = j, i
            assert not st and min(X) >= 0
            w = self.cache[on] = (B, M, E, X)
        return w

    def form(self, ks, f, w=64):
        """the answer f(world) as an exact form in the free bits ks"""
        co = {}
        for m in range(1 << len(ks)):
            v = f(self.world(frozenset(k for i, k in enumerate(ks) if m >> i & 1)))
            if v is None:
                return None
            co[m] = v
        for i in range(len(ks)):
            for m in range(1 << len(ks)):
                if m >> i & 1:
                    co[m] -= co[m ^ (1 << i)]
        g = (co[0], {})
        for m, k in co.items():
            if m and k:
                l = D.land_all([self.atoms[ks[i]] for i in range(len(ks)) if m >> i & 1])
                g = D.ladd(g, D.lscale(D.lit_form(l), k))
        return D.mk(w, *g)

    # ---- oracles (None: not a valid question for every choice)
    def close(self, i):
        if i >= self.n or i in self.sym or self.T[i] != 1:
            return None
        return self.form(self.about(i), lambda w: w[1][i])

    def open(self, i):
        if i >= self.n or i in self.sym or self.T[i] != 0:
            return None
        return self.form(self.about(i), lambda w: w[1][i])

    def enclose(self, i):
        if i >= self.n or i in self.sym or self.T[i] != 1:
            return None
        return self.form(self.about(i), lambda w: w[2][i])

    def excess(self, i):
        return self.form(self.about(i), lambda w: w[3][i])

    def rmq(self, a, b):
        ks = self.about(a)

        def f(w):
            s = w[3][a:b + 1]
            return a + s.index(min(s))

        def g(w):
            return min(w[3][a:b + 1])
        return self.form(ks, f), self.form(ks, g)
