"""Parser for the subset of textual LLVM 18 IR that clang emits for this repository."""
import re
from functools import lru_cache

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLMHR]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*:?)
 | (?P<p>\.\.\.|[][(){}<>,=*|:])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ("k", "n", "el", "name", "fields", "packed", "_off", "size", "align")

    def __init__(self, k, n=0, el=None, name=None, fields=None, packed=False):
        self.k, self.n, self.el, self.name, self.fields, self.packed = k, n, el, name, fields, packed
        self._off = self.size = self.align = None

    def layout(self):
        if self.size is not None:
            return
        k = self.k
        if k == "int":
            b = (self.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            self.size, self.align = a if self.n > 8 else 1, min(a, 16)
        elif k == "ptr":
            self.size = self.align = 8
        elif k == "float":
            self.size = self.align = self.n
            if self.n == 10:
                self.size = self.align = 16
        elif k in ("array", "vec"):
            self.el.layout()
            self.size, self.align = self.el.size * self.n, self.el.align
        elif k == "struct":
            off, al, offs = 0, 1, []
            for f in self.fields:
                f.layout()
                a = 1 if self.packed else f.align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size
                al = max(al, a)
            self.size = (off + al - 1) // al * al
            self.align, self._off = al, offs
        else:
            self.size, self.align = 0, 1

    def sizeof(self):
        self.layout()
        return self.size

    def offsets(self):
        self.layout()
        return self._off

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.fields))
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        return self.k


PTR = Type("ptr")
VOID = Type("void")
LABEL = Type("label")
META = Type("metadata")
_INTS = {}


def INT(n):
    t = _INTS.get(n)
    if t is None:
        t = _INTS[n] = Type("int", n)
    return t


FLOATS = {"half": 2, "float": 4, "double": 8, "x86_fp80": 10, "fp128": 16}


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "fn", "cl")

    def __init__(self, op, res, ty, a, x=None, dbg=None):
        self.op, self.res, self.ty, self.a, self.x, self.dbg = op, res, ty, a, x, dbg
        self.cl = None


class Block:
    __slots__ = ("name", "phis", "ins", "idx", "succ", "ipdom", "asserts")

    def __init__(self, name):
        self.name, self.phis, self.ins = name, [], []
        self.succ, self.ipdom = [], None
        self.asserts = False


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = {}
        self.body_src = None
        self.dbg = None
        self.vararg = False
        self.internal = False
        self.parsed = False

    @property
    def is_decl(self):
        return self.body_src is None


class Module:
    def __init__(self):
        self.types, self.globals, self.funcs, self.md, self.mdsrc = {}, {}, {}, {}, {}
        self.aliases = {}
        self.ctors = []
        self.dyninit = None

    # ---- debug locations
    def loc(self, dbg):
        """'!123' -> (file, line)"""
        if dbg is None:
            return None
        s = self.mdsrc.get(dbg)
        if s is None:
            return None
        m = re.search(r"DILocation\(line: (\d+).*?scope: (![0-9]+)", s)
        if not m:
            return None
        return (self.scope_file(m.group(2)), int(m.group(1)))

    @lru_cache(maxsize=None)
    def scope_file(self, sc):
        s = self.mdsrc.get(sc, "")
        m = re.search(r"file: (![0-9]+)", s)
        if m:
            f = self.mdsrc.get(m.group(1), "")
            fm = re.search(r'filename: "([^"]*)"', f)
            if fm:
                d = re.search(r'directory: "([^"]*)"', f)
                fn = fm.group(1)
                if not fn.startswith("/") and d:
                    fn = d.group(1) + "/" + fn
                return fn
        m = re.search(r"scope: (![0-9]+)", s)
        return self.scope_file(m.group(1)) if m else None

    def locstr(self, dbg):
        l = self.loc(dbg)
        return "%s:%d" % l if l and l[0] else "?"

    def get(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            return self.get(self.aliases[name])
        if f is not None and not f.parsed and not f.is_decl:
            FuncParser(self, f).parse()
        return f


def unq(s):
    """%"a b" -> %a b ; keeps sigil"""
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ";":
                break
            raise ParseError("tok at %r" % s[i:i + 40])
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


ATTRWORDS = set("""noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned inreg
 immarg noreturn nounwind inbounds nuw nsw exact tail musttail notail fastcc ccc coldcc dso_local local_unnamed_addr
 unnamed_addr internal private linkonce_odr linkonce weak weak_odr external hidden protected available_externally
 thread_local constant global common appending nonlazybind volatile fast nnan ninf nsz arcp contract afn reassoc
 allocptr allocalign swiftself nest disjoint nneg writable dead_on_unwind extern_weak comdat default cold""".split())
ATTRFN = set("align dereferenceable dereferenceable_or_null sret byval byref allocsize memory range captures elementtype initializes preallocated inalloca".split())


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise ParseError("expected %r got %r in %r" % (s, self.peek(), self.t[max(0, self.i - 6):self.i + 6]))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()
            d += (v == "(") - (v == ")")

    def skip_attrs(self):
        flags = set()
        while self.peek() is not None:
            v = self.peek()
            if v in ATTRWORDS:
                self.i += 1
                flags.add(v)
            elif v in ATTRFN:
                self.i += 1
                flags.add(v)
                if self.peek() == "(":
                    self.skip_paren()
                elif self.kind() == "num":
                    self.i += 1
            elif self.kind() == "attr":
                self.i += 1
            elif self.kind() == "str":
                self.i += 1
                if self.eat("="):
                    self.i += 1
            else:
                break
        return flags

    def type(self):
        v = self.next()
        if v == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.skip_paren()
        elif v == "void":
            t = VOID
        elif v == "label":
            t = LABEL
        elif v == "metadata":
            t = META
        elif v == "token" or v == "opaque":
            t = Type("opaque")
        elif v in FLOATS:
            t = Type("float", FLOATS[v])
        elif v[0] == "i" and v[1:].isdigit():
            t = INT(int(v[1:]))
        elif v[0] == "%":
            t = self.m.types.get(unq(v))
            if t is None:
                t = self.m.types[unq(v)] = Type("struct", name=unq(v), fields=[])
        elif v == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            t = Type("array", n, el)
        elif v == "{":
            fs = []
            if not self.eat("}"):
                fs.append(self.type())
                while self.eat(","):
                    fs.append(self.type())
                self.expect("}")
            t = Type("struct", fields=fs)
        elif v == "<":
            if self.eat("{"):
                fs = []
                if not self.eat("}"):
                    fs.append(self.type())
                    while self.eat(","):
                        fs.append(self.type())
                    self.expect("}")
                self.expect(">")
                t = Type("struct", fields=fs, packed=True)
            else:
                n = int(self.next())
                self.expect("x")
                el = self.type()
                self.expect(">")
                t = Type("vec", n, el)
        else:
            raise ParseError("type %r at %r" % (v, self.t[max(0, self.i - 6):self.i + 6]))
        while self.peek() == "(" and self.kind(1) in ("word", "loc", "p") and t is not LABEL:
            # function type  "ret (args)"
            save = self.i
            try:
                self.skip_paren()
                t = Type("fn", el=t)
            except ParseError:
                self.i = save
                break
        return t

    # value of known type -> operand tuple
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("l", unq(v))
        if k == "glob":
            return ("g", unq(v)[1:])
        if k == "num":
            if ty.k == "int":
                return ("i", int(v), ty.n)
            return ("f", v)
        if k == "meta":
            if self.peek() == "(" or self.peek() == "{":
                self.i += 1
                d = 1
                while d:
                    x = self.next()
                    d += (x in "({") - (x in ")}")
            return ("m", v)
        if v == "true":
            return ("i", 1, 1)
        if v == "false":
            return ("i", 0, 1)
        if v == "null":
            return ("n",)
        if v in ("undef", "poison"):
            return ("u", ty)
        if v == "zeroinitializer":
            return ("z", ty)
        if v == "none":
            return ("u", ty)
        if k == "str":
            return ("s", v)
        if v == "[" or v == "{" or v == "<":
            packed = v == "<" and self.eat("{")
            close = {"[": "]", "{": "}", "<": ">"}[v]
            els = []
            if packed:
                close = "}"
            if not self.eat(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if not self.eat(","):
                        break
                self.expect(close)
            if packed:
                self.expect(">")
            return ("agg", ty, els)
        if v == "getelementptr":
            self.skip_attrs()
            if self.peek() == "inrange":
                self.i += 1
                self.skip_paren()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            ops = self.typed_list()
            self.expect(")")
            return ("cgep", bt, ops)
        if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            t = self.type()
            x = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", v, t, x, t2)
        if v in ("add", "sub", "mul", "shl", "lshr", "and", "or", "xor"):
            self.skip_attrs()
            self.expect("(")
            ops = self.typed_list()
            self.expect(")")
            return ("cbin", v, ops)
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.value(ty)
        if v == "blockaddress":
            self.skip_paren()
            return ("u", ty)
        if v == "asm":
            return ("asm",)
        if v == "DIArgList" or v.startswith("DI"):
            if self.peek() == "(":
                self.skip_paren()
            return ("m", v)
        raise ParseError("value %r (%s) near %r" % (v, k, self.t[max(0, self.i - 8):self.i + 6]))

    def typed(self):
        t = self.type()
        if t is META:
            # metadata operand: may be "ptr %x" or !x
            if self.kind() == "meta":
                return (t, self.value(t))
            if self.peek() and self.peek().startswith("DI"):
                return (t, self.value(t))
            self.skip_attrs()
            t2 = self.type()
            return (META, self.value(t2))
        self.skip_attrs()
        return (t, self.value(t))

    def typed_list(self):
        out = [self.typed()]
        while self.eat(","):
            self.eat("inrange")
            out.append(self.typed())
        return out


BIN = set("add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CAST = set("trunc zext sext ptrtoint inttoptr bitcast fptoui fptosi uitofp sitofp fptrunc fpext addrspacecast".split())


class FuncParser:
    def __init__(self, mod, f):
        self.m, self.f = mod, f

    def parse(self):
        f = self.f
        f.parsed = True
        cur = None
        lines = f.body_src
        # entry label may be implicit
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            if not ln.startswith(" "):
                m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
                if not m:
                    raise ParseError("label? " + ln)
                nm = m.group(1)
                nm = "%" + (nm[1:-1] if nm[0] == '"' else nm)
                cur = Block(nm)
                f.blocks[nm] = cur
                continue
            if cur is None:
                cur = Block("%" + str(len(f.params)))
                f.blocks[cur.name] = cur
            if s.startswith("switch") or " invoke " in s or s.startswith("invoke") or s.startswith("landingpad") or " landingpad " in s:
                # multi-line constructs
                if s.startswith("switch"):
                    while "]" not in s:
                        s += " " + lines[i].strip()
                        i += 1
                elif "invoke" in s:
                    while " unwind label " not in s:
                        s += " " + lines[i].strip()
                        i += 1
                else:
                    while i < len(lines) and re.match(r"^\s+(cleanup|catch|filter)\b", lines[i]):
                        s += " " + lines[i].strip()
                        i += 1
            if "@llvm.dbg." in s or "@llvm.experimental.noalias" in s:
                continue
            ins = self.instr(s)
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        self.finish()

    def finish(self):
        f = self.f
        names = list(f.blocks)
        idx = {n: i for i, n in enumerate(names)}
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(t.x)
            elif t.op == "switch":
                b.succ = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == "invoke":
                b.succ = [t.x["normal"]]      # unwinding edges are not analysed
            else:
                b.succ = []
        # a block that always ends in unreachable does not count for post-dominance
        dead = set()
        ch = True
        while ch:
            ch = False
            for n, b in f.blocks.items():
                if n in dead:
                    continue
                if b.ins[-1].op in ("unreachable", "resume") or (b.succ and all(s in dead for s in b.succ)):
                    dead.add(n)
                    ch = True
        live = [n for n in names if n not in dead]
        EXIT = "<exit>"
        full = set(live) | {EXIT}
        pd = {n: set(full) for n in live}
        pd[EXIT] = {EXIT}
        ch = True
        order = list(reversed(live))
        while ch:
            ch = False
            for n in order:
                ss = [s for s in f.blocks[n].succ if s not in dead]
                if f.blocks[n].ins[-1].op == "ret" or not ss:
                    new = {n, EXIT}
                else:
                    new = set.intersection(*[pd[s] for s in ss]) | {n}
                if new != pd[n]:
                    pd[n] = new
                    ch = True
        for n in live:
            cands = pd[n] - {n}
            # immediate: the one whose own pdom set is largest
            best = None
            for c in cands:
                if best is None or len(pd[c]) > len(pd[best]):
                    best = c
            f.blocks[n].ipdom = best
        bad = {n for n, b in f.blocks.items() if any(i.op == "call" and i.x["callee"] == ("g", "__assert_fail") for i in b.ins)}
        for b in f.blocks.values():
            b.asserts = bool(bad) and any(s in bad for s in b.succ)
            for i in b.ins + b.phis:
                i.fn = f

    def instr(self, s):
        # split off trailing metadata  ", !dbg !123, !foo !4"
        dbg = None
        m = re.search(r", !dbg (![0-9]+)", s)
        if m:
            dbg = m.group(1)
        s = re.sub(r",\s*![a-zA-Z_.]+ ![0-9]+", "", s)
        s = re.sub(r",\s*![a-zA-Z_.]+ !\{\}", "", s)
        toks = tokenize(s)
        p = P(self.m, toks)
        res = None
        if p.kind() == "loc" and p.peek(1) == "=":
            res = unq(p.next())
            p.next()
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in BIN:
            flags = p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr(op, res, t, (a, b), flags, dbg)
        if op == "icmp" or op == "fcmp":
            p.skip_attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Instr(op, res, t, (a, b), pred, dbg)
        if op in CAST:
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect("to")
            t2 = p.type()
            return Instr(op, res, t2, (v,), t, dbg)
        if op == "load":
            at = p.eat("atomic")
            p.skip_attrs()
            t = p.type()
            p.expect(",")
            pt = p.type()
            v = p.value(pt)
            return Instr("load", res, t, (v,), at, dbg)
        if op == "store":
            at = p.eat("atomic")
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            pt = p.type()
            d = p.value(pt)
            return Instr("store", None, t, (v, d), at, dbg)
        if op == "alloca":
            p.skip_attrs()
            t = p.type()
            n = ("i", 1, 64)
            if p.eat(",") and p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
            return Instr("alloca", res, t, (n,), None, dbg)
        if op == "getelementptr":
            p.skip_attrs()
            bt = p.type()
            p.expect(",")
            ops = p.typed_list()
            return Instr("gep", res, bt, tuple(ops), None, dbg)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Instr("br", None, None, (), (unq(p.next()),), dbg)
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            return Instr("br", None, None, (c,), (a, b), dbg)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = unq(p.next())
            p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv[1], unq(p.next())))
            return Instr("switch", None, t, (v,), (d, cases), dbg)
        if op == "phi":
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                l = unq(p.next())
                p.expect("]")
                inc.append((v, l))
                if not p.eat(","):
                    break
            return Instr("phi", res, t, (), {l: v for v, l in inc}, dbg)
        if op == "ret":
            t = p.type()
            if t is VOID:
                return Instr("ret", None, t, (), None, dbg)
            return Instr("ret", None, t, (p.value(t),), None, dbg)
        if op in ("call", "invoke"):
            p.skip_attrs()
            rt = p.type()
            p.skip_attrs()
            if rt.k == "fn":
                rt = rt.el
            callee = p.value(PTR)
            if callee == ("asm",):
                return Instr("asm", res, rt, (), None, dbg)
            p.expect("(")
            args = []
            if not p.eat(")"):
                while True:
                    args.append(p.typed())
                    if not p.eat(","):
                        break
                p.expect(")")
            x = {"callee": callee}
            p.skip_attrs()
            if op == "invoke":
                p.expect("to")
                p.expect("label")
                x["normal"] = unq(p.next())
                p.expect("unwind")
                p.expect("label")
                x["unwind"] = unq(p.next())
            return Instr(op, res, rt, tuple(args), x, dbg)
        if op == "select":
            p.skip_attrs()
            ops = p.typed_list()
            return Instr("select", res, ops[1][0], tuple(o[1] for o in ops), None, dbg)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, res, t, (v,), idx, dbg)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            et, ev = p.typed()
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, res, t, (v, ev), (et, idx), dbg)
        if op == "freeze":
            t = p.type()
            return Instr(op, res, t, (p.value(t),), None, dbg)
        if op == "resume":
            t = p.type()
            return Instr("resume", None, t, (p.value(t),), None, dbg)
        if op == "landingpad":
            return Instr("landingpad", res, None, (), None, dbg)
        if op == "atomicrmw":
            p.eat("volatile")
            k = p.next()
            pt = p.type()
            d = p.value(pt)
            p.expect(",")
            t = p.type()
            return Instr("atomicrmw", res, t, (d, p.value(t)), k, dbg)
        if op == "cmpxchg":
            p.eat("weak")
            p.eat("volatile")
            pt = p.type()
            d = p.value(pt)
            p.expect(",")
            t = p.type()
            e = p.value(t)
            p.expect(",")
            t = p.type()
            return Instr("cmpxchg", res, t, (d, e, p.value(t)), None, dbg)
        if op in ("unreachable", "fence", "va_arg",
                  "extractelement", "insertelement", "shufflevector", "fneg"):
            return Instr(op, res, None, (), None, dbg)
        raise ParseError("instr " + s)


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i, n = 0, len(lines)
    pend = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ";":
            continue
        c = ln[0]
        if c == "%":
            k = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            nm = unq(k.group(1))
            t = m.types.get(nm)
            if t is None:
                t = m.types[nm] = Type("struct", name=nm, fields=[])
            pend.append((t, k.group(2)))
        elif c == "@":
            k = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
            m.globals[unq(k.group(1))[1:]] = k.group(2)
        elif c == "!":
            k = re.match(r"(![0-9]+) = (.*)$", ln)
            if k:
                m.mdsrc[k.group(1)] = k.group(2)
        elif ln.startswith("define") or ln.startswith("declare"):
            k = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            nm = unq("@" + k.group(1))[1:]
            f = Function(nm)
            d = re.search(r"!dbg (![0-9]+)", ln)
            f.dbg = d.group(1) if d else None
            head = ln
            f.internal = " internal " in ln[:40]
            if ln.startswith("define"):
                body = []
                while not lines[i].startswith("}"):
                    body.append(lines[i])
                    i += 1
                i += 1
                f.body_src = body
            m.funcs[nm] = f
            f.head = (head, k.end() - 1)
    for t, src in pend:
        p = P(m, tokenize(src))
        if src.strip() == "opaque":
            continue
        t2 = p.type()
        t.fields, t.packed = t2.fields, t2.packed
    for f in m.funcs.values():
        head, pos = f.head
        p = P(m, tokenize(head[pos:]))
        p.expect("(")
        j = 0
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    f.vararg = True
                else:
                    t = p.type()
                    sret = p.skip_attrs()
                    nm = "%" + str(j)
                    if p.kind() == "loc":
                        nm = unq(p.next())
                    f.params.append((t, nm))
                    j += 1
                if not p.eat(","):
                    break
            p.expect(")")
        # return type
        toks = tokenize(head[:head.index("@")])
        q = P(m, toks)
        q.next()
        q.skip_attrs()
        while q.peek() in ("void",) or q.peek() is not None:
            try:
                f.ret = q.type()
                break
            except ParseError:
                pass
    raw = m.globals
    m.globals = {}
    for nm, src in raw.items():
        if re.match(r"(?:[a-z_]+ )*alias ", src):
            k = re.search(r"ptr @([-a-zA-Z$._0-9]+)", src)
            if k:
                m.aliases[nm] = k.group(1)
            continue
        m.globals[nm] = ("src", src)
    return m


def global_def(m, nm):
    g = m.globals.get(nm)
    if g is None:
        return None
    if g[0] == "src":
        src = re.sub(r",\s*![a-zA-Z_.]+ ![0-9]+", "", g[1])
        p = P(m, tokenize(src))
        const = tls = False
        ext = False
        while True:
            w = p.peek()
            if w in ("global", "constant"):
                const = w == "constant"
                p.next()
                break
            if w == "thread_local":
                tls = True
            if w in ("external", "extern_weak"):
                ext = True
            p.next()
            if p.peek() == "(":
                p.skip_paren()
        t = p.type()
        init = None
        if not ext and p.peek() not in (None, ",", "comdat", "align"):
            init = p.value(t)
        g = m.globals[nm] = ("def", t, init, const, tls)
    return g
