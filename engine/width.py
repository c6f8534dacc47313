"""Width analysis: quantities that grow with the input (lengths, positions, ranks, counts) must not pass through narrow integers.

A value is marked with s when it can reach M / 2^s, M being the size in bits of an input that fits in memory.  Marks come from
the harness (parameters named g_*), from container sizes, and from counters and sums of loops that run over such a range; they
follow arithmetic, fields, variables, parameters and results, and get lost where a value may be small for another reason
(differences, remainders, masks, clamps).  Unmarked values are never reported."""
import re

LIMIT = 39     # narrowing that only shows on inputs of 2^39 bits (64 GiB) or more is not reported
ELEM = {"h": 3, "a": 3, "c": 3, "b": 0, "t": 4, "s": 4, "j": 5, "i": 5, "m": 6, "l": 6, "y": 6, "x": 6}
CAP = 40


def const(v):
    return v[1] if v[0] == "i" else None


def dominators(f):
    names = list(f.blocks)
    succ = {}
    for n in names:
        b = f.blocks[n]
        t = b.ins[-1]
        succ[n] = list(b.succ) + ([t.x["unwind"]] if t.op == "invoke" else [])
    pred = {n: [] for n in names}
    for n in names:
        for s in succ[n]:
            pred[s].append(n)
    dom = {n: set(names) for n in names}
    dom[names[0]] = {names[0]}
    ch = True
    while ch:
        ch = False
        for n in names[1:]:
            ps = [dom[p] for p in pred[n]]
            new = (set.intersection(*ps) if ps else set()) | {n}
            if new != dom[n]:
                dom[n] = new
                ch = True
    return succ, pred, dom


class Fn:
    """per-function facts"""

    def __init__(self, m, f):
        self.f = f
        self.defs, self.users, self.where = {}, {}, {}
        for n, b in f.blocks.items():
            for ins in b.phis + b.ins:
                self.where[id(ins)] = n
                if ins.res:
                    self.defs[ins.res] = ins
        for b in f.blocks.values():
            for ins in b.phis + b.ins:
                for v in operands(ins):
                    if v[0] == "l":
                        self.users.setdefault(v[1], []).append(ins)
        succ, pred, dom = dominators(f)
        self.dom = dom
        self.loops = []
        heads = {}
        for n in f.blocks:
            for s in succ[n]:
                if s in dom[n]:
                    heads.setdefault(s, set()).add(n)
        for h, tails in heads.items():
            body, st = {h}, list(tails)
            while st:
                x = st.pop()
                if x not in body:
                    body.add(x)
                    st.extend(pred[x])
            self.loops.append((h, body))
        self.stores = {}
        self.fstores = []
        for b in f.blocks.values():
            for ins in b.ins:
                if ins.op == "store" and ins.a[1][0] == "l":
                    d = self.defs.get(ins.a[1][1])
                    if d is not None and d.op == "alloca":
                        self.stores.setdefault(ins.a[1][1], []).append(ins)


def operands(ins):
    if ins.op == "phi":
        return list(ins.x.values())
    if ins.op in ("call", "invoke"):
        return [v for _, v in ins.a] + [ins.x["callee"]]
    if ins.op == "gep":
        return [v for _, v in ins.a]
    return list(ins.a)


def intw(t):
    return t.n if t is not None and t.k == "int" else None


class Width:
    def __init__(self, m, repo, roots=None):
        self.m, self.repo = m, repo
        self.fns = {}
        self.val, self.field, self.ret, self.uf, self.elem = {}, {}, {}, {}, {}
        self.changed = False
        self.own = {}
        todo = []
        for n, f in m.funcs.items():
            if f.is_decl:
                continue
            todo.append(n)
        for n in todo:
            fi = self.file(n)
            if fi is None or not (fi.startswith(repo) or "/harness/" in fi):
                continue
            f = m.get(n)
            if f.blocks:
                self.fns[n] = Fn(m, f)
                self.own[n] = fi.startswith(repo)
        self.sites = self.narrow = 0
        for n, F in self.fns.items():
            for i, p in enumerate(F.f.params):
                nm = p[1] if isinstance(p, tuple) else p
                if not self.own[n] and re.match(r"%g_[a-z]", str(nm)):
                    self.val[n, nm] = 0
        for n, F in self.fns.items():
            if not self.own[n] and re.match(r"g_", n):
                for b in F.f.blocks.values():
                    t = b.ins[-1]
                    d = F.defs.get(t.a[0][1]) if t.op == "ret" and t.a and t.a[0][0] == "l" else None
                    if d is not None and d.op in ("call", "invoke") and intw(d.ty) == 64 and self.own.get(d.x["callee"][1]):
                        self.ret[d.x["callee"][1]] = 0
        self.solve()

    def file(self, n):
        f = self.m.funcs[n]
        if f.dbg is not None:
            return self.m.scope_file(f.dbg)
        for ln in f.body_src or ():
            k = re.search(r"!dbg (![0-9]+)", ln)
            if k:
                l = self.m.loc(k.group(1))
                # inlined-at does not occur without inlining
                return l[0] if l else None
        return None

    # ---- containers: one class per variable or field, merged when passed on, stolen or exchanged
    def find(self, x):
        while x in self.uf:
            x = self.uf[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b or a is None or b is None:
            return
        self.uf[a] = b
        if a in self.elem:
            s = self.elem.pop(a)
            self.elem[b] = min(s, self.elem.get(b, CAP))
        self.changed = True

    def cont(self, fn, F, v):
        """the class of the container a pointer refers to"""
        if v[0] != "l":
            return None
        k = self.fkey(F, v)
        if k is not None:
            return self.find(("f",) + k)
        d = F.defs.get(v[1])
        if d is None:
            return self.find(("p", fn, v[1]))
        if d.op == "alloca":
            return self.find(("a", fn, v[1]))
        return None

    def elemptr(self, fn, F, v):
        """the container whose element a pointer refers to"""
        d = F.defs.get(v[1]) if v[0] == "l" else None
        if d is not None and d.op in ("call", "invoke") and d.x["callee"][0] == "g":
            c = d.x["callee"][1]
            if re.search(r"(NSt|NKSt)6vectorI.*E(ixEm|2atEm|4backEv|5frontEv)$", c) or re.search(r"mappable_vectorI.*E(ixEm|2atEm|4backEv|5frontEv)$", c):
                return self.cont(fn, F, d.a[0][1])
        return None

    # ---- transfer
    def get(self, fn, v):
        if v[0] == "l":
            return self.val.get((fn, v[1]))
        return None

    def put(self, fn, res, s):
        if s is None:
            return
        s = min(s, CAP)
        k = (fn, res)
        o = self.val.get(k)
        if o is None or s < o:
            self.val[k] = s
            self.changed = True

    def size_result(self, callee):
        k = re.match(r"_ZNKSt6vectorI(.)", callee)
        if k and re.search(r"E4sizeEv$", callee):
            return ELEM.get(k.group(1), 6)
        if re.match(r"_ZNKSt(5dequeI|7__cxx1112basic_stringI).*(4size|6length)Ev$", callee):
            return 6 if "deque" in callee else 3
        if re.match(r"_ZN5boost(4size|8distance)I", callee) or re.match(r"_ZNK?5boost.*E4sizeEv$", callee) or re.match(r"_ZSt8distanceI", callee):
            return 6
        return None

    def fkey(self, F, ptr):
        """(struct, index path) of a field address"""
        if ptr[0] != "l":
            return None
        d = F.defs.get(ptr[1])
        if d is None or d.op != "gep" or d.ty.k != "struct" and getattr(d.ty, "name", None) is None:
            return None
        idx = [const(v) for _, v in d.a[1:]]
        if len(idx) < 2 or idx[0] != 0 or any(i is None for i in idx):
            return None
        return (d.ty.name, tuple(idx[1:]))

    def bounded(self, F, v, depth=0):
        """certainly small (below 2^16), for reasons visible in the function"""
        c = const(v)
        if c is not None:
            return 0 <= c < 65536
        if v[0] != "l" or depth > 8:
            return False
        d = F.defs.get(v[1])
        if d is None:
            return False
        if d.op in ("zext", "sext", "trunc"):
            w = intw(d.x)
            return w is not None and w <= 8 and d.op == "zext" or self.bounded(F, d.a[0], depth + 1)
        if d.op == "urem":
            c = const(d.a[1])
            return c is not None and c <= 65536
        if d.op == "and":
            return any(const(x) is not None and 0 <= const(x) < 65536 for x in d.a)
        if d.op == "lshr":
            c = const(d.a[1])
            return c is not None and c >= (intw(d.ty) or 64) - 16
        if d.op in ("call", "invoke"):
            n = d.x["callee"][1] if d.x["callee"][0] == "g" else ""
            return bool(re.match(r"llvm\.(ctpop|ctlz|cttz)\.", n)) or "broadword8popcount" in n
        if d.op in ("select", "phi"):
            vs = d.a[1:] if d.op == "select" else d.x.values()
            return all(self.bounded(F, x, depth + 1) for x in vs)
        return False

    def unsigned(self, F, v):
        """something added that has no reason to be negative"""
        if const(v) is not None:
            return const(v) >= 0
        d = F.defs.get(v[1]) if v[0] == "l" else None
        return v[0] == "l" and (d is None or d.op in ("load", "call", "invoke", "zext", "mul", "shl", "lshr", "and", "udiv", "urem"))

    def small32(self, F, v):
        if self.bounded(F, v):
            return True
        d = F.defs.get(v[1]) if v[0] == "l" else None
        return d is not None and d.op in ("zext", "sext") and (intw(d.x) or 64) <= 32

    def nonneg(self, F, v):
        c = const(v)
        if c is not None:
            return c > 0
        if v[0] != "l":
            return False
        d = F.defs.get(v[1])
        if d is None:
            return (F.f.name, v[1]) in self.val
        return self.bounded(F, v) or d.op in ("zext",) or (F.f.name, v[1]) in self.val or d.op == "mul" and self.nonneg(F, d.a[0]) and self.nonneg(F, d.a[1])

    def strip(self, F, v):
        """through casts"""
        while v[0] == "l":
            d = F.defs.get(v[1])
            if d is None or d.op not in ("zext", "sext", "trunc", "freeze"):
                break
            v = d.a[0]
        return v

    def is_var(self, F, v, var):
        """v reads the variable: the phi itself, or a load of the alloca"""
        v = self.strip(F, v)
        if v == ("l", var):
            return F.defs[var].op == "phi"
        if v[0] == "l":
            d = F.defs.get(v[1])
            return d is not None and d.op == "load" and d.a[0] == ("l", var)
        return False

    def increment(self, F, v, var, depth=0):
        """v = var + x with x certainly not negative -> x"""
        v = self.strip(F, v)
        if v[0] != "l":
            return None
        d = F.defs.get(v[1])
        if d is not None and d.op in ("phi", "select") and v[1] != var and depth < 4:
            inc = None
            for x in d.x.values() if d.op == "phi" else d.a[1:]:
                if self.is_var(F, x, var):
                    continue
                inc = self.increment(F, x, var, depth + 1)
                if inc is None:
                    return None
            return ("l", "") if inc is not None else None
        if d is None or d.op != "add":
            return None
        for a, b in (d.a, d.a[::-1]):
            if self.is_var(F, a, var) and self.nonneg(F, b):
                return b
        return None

    def variables(self, F):
        """(name, type, [(value stored, block)]) of phis and of variables in memory"""
        if not hasattr(F, "vars"):
            F.vars = []
            for n, d in F.defs.items():
                if d.op == "alloca" and intw(d.ty) and n in F.stores:
                    F.vars.append((n, intw(d.ty), [(s.a[0], F.where[id(s)]) for s in F.stores[n]]))
                elif d.op == "phi" and intw(d.ty) and any(h == F.where[id(d)] for h, _ in F.loops):
                    F.vars.append((n, intw(d.ty), [(v, l) for l, v in d.x.items()]))
        return F.vars

    def linear(self, fn, F, body):
        """the mark of a loop that runs over a growing range: an exit compares a steadily increasing variable with a marked value"""
        best = None
        for n in body:
            t = F.f.blocks[n].ins[-1]
            if t.op != "br" or not t.a or t.a[0][0] != "l" or all(s in body for s in t.x):
                continue
            c = F.defs.get(t.a[0][1])
            if c is None or c.op != "icmp" or c.x not in ("ult", "slt", "ule", "sle", "ugt", "sgt", "uge", "sge", "ne", "eq"):
                continue
            for x, y in (c.a, c.a[::-1]):
                s = self.get(fn, y)
                if s is None:
                    s = self.get(fn, self.strip(F, y))
                if s is None:
                    continue
                for var, w, st in self.variables(F):
                    if not self.is_var(F, x, var):
                        continue
                    ins = [v for v, b in st if b in body]
                    if ins and all(self.increment(F, v, var) is not None for v in ins):
                        k = [const(self.increment(F, v, var)) for v in ins]
                        if best is None or s < best[0]:
                            best = (s, var, w, c, all(q == 1 for q in k))
        return best

    def transfer(self, fn, F, ins):
        op = ins.op
        g = lambda v: self.get(fn, v)
        if op in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "or"):
            a, b = ins.a
            sa, sb = g(a), g(b)
            ca, cb = const(a), const(b)
            if op == "add":
                if sa is not None and sb is not None:
                    return min(sa, sb)
                for s, o in ((sa, b), (sb, a)):
                    if s is not None and (const(o) is not None or self.bounded(F, o) or self.unsigned(F, o)):
                        return s
                    h = F.defs.get(o[1]) if s is None and o[0] == "l" else None
                    if h is not None and h.op in ("lshr", "udiv") and const(h.a[1]) and h.a[0][0] == "l":
                        # a + (b - a) / 2
                        h = F.defs.get(h.a[0][1])
                        if h is not None and h.op == "sub" and g(h.a[0]) is not None:
                            return g(h.a[0])
            elif op == "or":
                ss = [s for s in (sa, sb) if s is not None]
                return min(ss) if ss else None
            elif op == "sub":
                if sa is not None and (cb is not None or self.small32(F, b)):
                    return sa
            elif op == "mul":
                for s, c in ((sa, cb), (sb, ca)):
                    if s is not None and c:
                        return max(0, s - (c.bit_length() - 1))
            elif op == "shl":
                if sa is not None and cb is not None:
                    return max(0, sa - cb)
            elif op == "lshr" and sa is not None and cb is None and b[0] == "l":
                h = F.defs.get(self.strip(F, b)[1])
                if h is not None and h.op == "load" and self.fkey(F, h.a[0]) is not None:
                    return sa
            elif sa is not None and cb:
                return sa + (cb if op in ("lshr", "ashr") else cb.bit_length() - 1 + (cb & (cb - 1) > 0))
            return None
        if op in ("zext", "sext", "freeze"):
            return g(ins.a[0]) if op == "freeze" or (intw(ins.x) or 0) >= 64 else None
        if op == "select":
            vs = [g(v) for v in ins.a[1:] if const(v) != 0]
            return max(vs) if vs and all(v is not None for v in vs) else None
        if op == "phi":
            vs = [g(v) for v in ins.x.values() if const(v) != 0]
            if vs and all(v is not None for v in vs):
                return max(vs)
            here = F.where[id(ins)]
            for h, body in F.loops:
                if h == here:
                    vs = [g(v) for l, v in ins.x.items() if l not in body]
                    if vs and all(v is not None for v in vs):
                        return max(vs)
            return None
        if op == "load":
            if intw(ins.ty) != 64:
                return None
            k = self.fkey(F, ins.a[0])
            if k is not None:
                return self.field.get(k)
            if ins.a[0][0] == "l":
                e = self.elemptr(fn, F, ins.a[0])
                if e is not None:
                    return self.elem.get(e)
                d = F.defs.get(ins.a[0][1])
                if d is not None and d.op == "alloca":
                    return self.varmark(fn, F, ins.a[0][1])
            return None
        if op in ("call", "invoke"):
            c = ins.x["callee"]
            if c[0] != "g":
                return None
            if intw(ins.ty) == 64:
                s = self.size_result(c[1])
                if s is not None:
                    return s
            if re.search(r"St6vectorI.*E(9push_backE(O|RK)?.|12emplace_back.*)$", c[1]) and len(ins.a) == 2:
                e = self.cont(fn, F, ins.a[0][1])
                v = ins.a[1][1]
                d = F.defs.get(v[1]) if v[0] == "l" else None
                s = None
                if d is not None and d.op == "alloca":
                    s = self.varmark(fn, F, v[1])
                elif self.elemptr(fn, F, v) is not None:
                    s = self.elem.get(self.elemptr(fn, F, v))
                if e is not None and s is not None and s < self.elem.get(e, CAP + 1):
                    self.elem[e] = s
                    self.changed = True
            if re.search(r"(vectorI.*E|4swapI.*)(5steal|4swap|aS|C[12])", c[1]) and len(ins.a) == 2 and "vector" in c[1]:
                a, b = (self.cont(fn, F, x[1]) for x in ins.a)
                if a is not None and b is not None:
                    self.union(a, b)
            t = c[1] if c[1] in self.fns else self.m.aliases.get(c[1])
            if t in self.fns:
                ps = self.fns[t].f.params
                for p, (_, v) in zip(ps, ins.a):
                    s = g(v)
                    pn = p[1] if isinstance(p, tuple) else p
                    if s is not None:
                        self.put(t, pn, s)
                    if v[0] == "l" and intw(_) is None and not re.search(r"visitor|^_ZNK?8succinct6mapper|7dispose|getterclE|[CD][12]E", t):
                        e = self.cont(fn, F, v)
                        if e is not None and (t, pn) not in self.merged.setdefault((fn, id(ins)), set()) and self.iscont(F, v):
                            self.merged[fn, id(ins)].add((t, pn))
                            self.union(e, ("p", t, pn))
                return self.ret.get(t) if intw(ins.ty) == 64 else None
        return None

    def plus(self, F, v, var):
        d = F.defs.get(v[1]) if v[0] == "l" else None
        return d is not None and d.op == "add" and any(self.is_var(F, a, var) and self.unsigned(F, b) for a, b in (d.a, d.a[::-1]))

    def varmark(self, fn, F, n):
        ss = [(self.get(fn, s.a[0]), s.a[0]) for s in F.stores.get(n, ())]
        if ss and any(s is not None for s, _ in ss) and all(s is not None or const(v) == 0 or self.plus(F, v, n) for s, v in ss):
            return min(s for s, _ in ss if s is not None)
        return self.val.get((fn, "var" + n))

    def iscont(self, F, v):
        """a pointer to a vector: a variable or a field of such a type, or a parameter"""
        d = F.defs.get(v[1])
        if d is None:
            return True
        if d.op == "alloca":
            return "vector" in str(getattr(d.ty, "name", ""))
        if d.op == "gep":
            t = d.ty
            for _, x in d.a[2:]:
                i = const(x)
                try:
                    t = (t.fields if t.fields is not None else self.m.types[t.name].fields)[i]
                except Exception:
                    return False
            return "vector" in str(getattr(t, "name", ""))
        return False

    def solve(self):
        self.merged = {}
        for rnd in range(30):
            self.changed = False
            newf = {}
            for fn, F in self.fns.items():
                rets = []
                for b in F.f.blocks.values():
                    for ins in b.phis + b.ins:
                        if ins.res:
                            s = self.transfer(fn, F, ins)
                            if s is not None:
                                self.put(fn, ins.res, s)
                        elif ins.op in ("call", "invoke"):
                            self.transfer(fn, F, ins)
                        elif ins.op == "store":
                            k = self.fkey(F, ins.a[1])
                            if k is not None and intw(ins.ty) == 64:
                                s = self.get(fn, ins.a[0])
                                if s is None and self.grows(F, ins.a[0], k):
                                    s = 0
                                newf.setdefault(k, []).append((s, ins.a[0]))
                        elif ins.op == "ret" and ins.a and intw(ins.ty) == 64:
                            rets.append((self.get(fn, ins.a[0]), ins.a[0]))
                # counters and sums of loops over growing ranges
                for h, body in F.loops:
                    l = self.linear(fn, F, body)
                    if l is None:
                        continue
                    for var, w, st in self.variables(F):
                        if w != 64:
                            continue
                        s = self.accumulates(F, body, var, st, l)
                        if s is not None:
                            self.put(fn, var if F.defs[var].op == "phi" else "var" + var, s)
                if rets and any(s is not None for s, _ in rets) and all(s is not None or const(v) is not None for s, v in rets):
                    s = min(s for s, _ in rets if s is not None)
                    if self.ret.get(fn, CAP + 1) > s:
                        self.ret[fn] = s
                        self.changed = True
            for k, ss in newf.items():
                known = [s for s, _ in ss if s is not None]
                if known and self.field.get(k, CAP + 1) > min(known) and not self.resets(k):
                    self.field[k] = min(known)
                    self.changed = True
            if not self.changed:
                break

    def accumulates(self, F, body, var, st, l):
        """var only grows in this loop: the mark of what it reaches"""
        ins = [v for v, b in st if b in body]
        if F.defs[var].op == "phi" and F.where[id(F.defs[var])] not in body:
            return None
        if not ins:
            return None
        inc = [self.increment(F, v, var) for v in ins]
        if any(x is None for x in inc):
            return None
        return l[0] if all(const(x) == 1 for x in inc) and l[4] else 0

    # ---- obligations
    def guarded(self, F, v):
        """the function compares this value with something small"""
        vs = {v}
        x = self.strip(F, v)
        vs.add(x)
        d = F.defs.get(x[1]) if x[0] == "l" else None
        roots = {x}
        if d is not None and d.op == "load":
            roots |= {("l", r) for r, q in F.defs.items() if q.op == "load" and q.a == d.a}
        for r in roots:
            if r[0] != "l":
                continue
            st = [r[1]]
            seen = set()
            while st:
                q = st.pop()
                if q in seen:
                    continue
                seen.add(q)
                for u in F.users.get(q, ()):
                    if u.op == "icmp":
                        o = [y for y in u.a if y != ("l", q)]
                        if any(const(y) not in (None, 0, 1) or const(y) is None and self.bounded(F, y) for y in o):
                            return True
                    elif u.op in ("zext", "sext", "trunc", "add", "sub") and u.res and len(seen) < 12:
                        st.append(u.res)
        return False

    def lowonly(self, F, ins, depth=0):
        """only low bits of the narrowed value are used, or its other part is kept elsewhere"""
        us = F.users.get(ins.res, [])
        if not us:
            return True
        for u in us:
            if u.op == "and" and any(const(x) is not None and const(x) >= 0 and const(x).bit_length() < intw(ins.ty) for x in u.a):
                continue
            if u.op == "urem" and const(u.a[1]) is not None and const(u.a[1]) & (const(u.a[1]) - 1) == 0:
                continue
            if u.op == "shl" and const(u.a[1]):
                continue
            if u.op in ("zext", "sext", "trunc") and depth < 4 and u.res and self.lowonly(F, u, depth + 1):
                continue
            return False
        return True

    def split(self, F, ins):
        """other parts of the same value are used as well"""
        v = ins.a[0]
        base = v
        d = F.defs.get(v[1]) if v[0] == "l" else None
        if d is not None and d.op in ("lshr", "ashr"):
            base = d.a[0]
        bases = {base}
        d = F.defs.get(base[1]) if base[0] == "l" else None
        if d is not None and d.op == "load":
            bases |= {("l", r) for r, q in F.defs.items() if q.op == "load" and q.a == d.a}
        w = intw(ins.ty)
        for b in bases:
            if b[0] != "l":
                continue
            for u in F.users.get(b[1], ()):
                if u is not ins and u is not F.defs.get(v[1] if v[0] == "l" else None):
                    if u.op in ("lshr", "ashr") and u.a[0] == b and const(u.a[1]) is not None and const(u.a[1]) >= w:
                        return True
        return False

    def modular(self, F, ins):
        """a difference of two quantities, computed modulo 2^w"""
        us = F.users.get(ins.res, [])

        def other(u):
            o = [y for y in u.a if y != ("l", ins.res)]
            d = F.defs.get(o[0][1]) if len(o) == 1 and o[0][0] == "l" else None
            return d is not None and (d.op in ("trunc", "mul", "shl", "call", "invoke", "phi", "load", "sub", "add"))
        return bool(us) and all(u.op == "sub" and other(u) for u in us)

    def bad(self, s, w):
        return s is not None and w is not None and 1 < w < 64 and s + w < LIMIT

    def report(self):
        out = []

        def add(F, ins, what):
            loc = self.m.locstr(ins.dbg)
            out.append((loc, F.f.name, what))
        for fn, F in self.fns.items():
            if not self.own[fn]:
                # the public results: declared to grow
                if re.match(r"g_", fn):
                    for b in F.f.blocks.values():
                        t = b.ins[-1]
                        if t.op == "ret" and t.a:
                            self.sites += 1
                            r = self.narrow_result(F, t.a[0])
                            if r:
                                add(F, r, "the result passes through a narrower integer")
            for b in F.f.blocks.values():
                for ins in b.ins:
                    if ins.op == "trunc" and intw(ins.ty) and intw(ins.ty) > 1:
                        self.narrow += 1
                        s = self.get(fn, ins.a[0])
                        if s is None:
                            continue
                        self.sites += 1
                        if self.bad(s, intw(ins.ty)) and not self.guarded(F, ins.a[0]) and not self.lowonly(F, ins) and not self.split(F, ins) and not self.modular(F, ins):
                            add(F, ins, "a quantity that grows with the input is cut to %d bits" % intw(ins.ty))
                    elif ins.res and (fn, ins.res) in self.val:
                        self.sites += 1
            if not self.own[fn]:
                continue
            for h, body in F.loops:
                l = self.linear(fn, F, body)
                if l is None:
                    continue
                self.sites += 1
                if self.bad(l[0], l[2]) and l[4]:
                    add(F, l[3], "a counter of %d bits runs over a range that grows with the input" % l[2])
                for var, w, st in self.variables(F):
                    if w >= 64 or var == l[1]:
                        continue
                    s = self.accumulates(F, body, var, st, l)
                    if self.bad(s, w) and not self.guarded(F, ("l", var)):
                        add(F, F.defs[var], "a sum over a range that grows with the input is kept in %d bits" % w)
            # sums kept in fields
            for b in F.f.blocks.values():
                for ins in b.ins:
                    if ins.op != "store":
                        continue
                    k = self.fkey(F, ins.a[1])
                    w = intw(ins.ty)
                    if k is None or w is None or not 8 < w < 64:
                        continue
                    x = self.strip(F, ins.a[0])
                    d = F.defs.get(x[1]) if x[0] == "l" else None
                    if d is None or d.op != "add":
                        continue
                    rd = [y for y in d.a if self.reads(F, y, k)]
                    ot = [y for y in d.a if y not in rd]
                    if len(rd) == 1 and len(ot) == 1 and self.nonneg(F, ot[0]):
                        self.sites += 1
                        if not self.resets(k) and not self.guarded(F, rd[0]):
                            add(F, ins, "a sum that grows with the input is kept in a field of %d bits" % w)
        return sorted(set(out))

    def grows(self, F, v, k):
        """v = field + something, the field never being set to something else"""
        x = self.strip(F, v)
        d = F.defs.get(x[1]) if x[0] == "l" else None
        if d is None or d.op != "add":
            return False
        rd = [y for y in d.a if self.reads(F, y, k)]
        ot = [y for y in d.a if y not in rd]
        if len(rd) != 1 or len(ot) != 1:
            return False
        c = const(ot[0])
        if c is not None:
            return 0 < c < 1 << 31 and not self.resets(k)
        e = F.defs.get(ot[0][1]) if ot[0][0] == "l" else None
        return (e is None or e.op not in ("sub", "select", "xor")) and not self.resets(k)

    def reads(self, F, v, k):
        v = self.strip(F, v)
        d = F.defs.get(v[1]) if v[0] == "l" else None
        return d is not None and d.op == "load" and self.fkey(F, d.a[0]) == k

    def resets(self, k):
        """outside constructors the field is also set to something else"""
        for fn, F in self.fns.items():
            if re.search(r"[CD][12][EI]", fn):
                continue
            for b in F.f.blocks.values():
                for ins in b.ins:
                    if ins.op == "store" and self.fkey(F, ins.a[1]) == k:
                        x = self.strip(F, ins.a[0])
                        d = F.defs.get(x[1]) if x[0] == "l" else None
                        if const(x) is not None or d is not None and d.op not in ("add", "load", "call", "invoke", "alloca") and self.get(fn, x) is None:
                            return True
        return False

    def narrow_result(self, F, v, depth=0):
        if v[0] != "l" or depth > 6:
            return None
        d = F.defs.get(v[1])
        if d is None:
            return None
        if d.op in ("zext", "sext"):
            w = intw(d.x)
            if w is not None and 8 < w < 64:
                x = d.a[0]
                e = F.defs.get(x[1]) if x[0] == "l" else None
                if e is not None and e.op in ("call", "invoke") and e.x["callee"][0] == "g" and self.own.get(e.x["callee"][1]):
                    # the value returned there: a remainder or a small count may well be narrow
                    G = self.fns[e.x["callee"][1]]
                    for b in G.f.blocks.values():
                        t = b.ins[-1]
                        if t.op == "ret" and t.a and not self.bounded(G, t.a[0]):
                            return e
            return None
        if d.op in ("call", "invoke") and d.x["callee"][0] == "g" and self.own.get(d.x["callee"][1]) and intw(d.ty) == 64:
            G = self.fns[d.x["callee"][1]]
            for b in G.f.blocks.values():
                t = b.ins[-1]
                if t.op == "ret" and t.a:
                    r = self.narrow_result(G, t.a[0], depth + 1)
                    if r:
                        return r
        return None
