"""Line readers: every line exactly once, in order, from streams, buffers and mapped files."""
import itertools
from engine import dom as D
from engine.dom import GiveUp
from engine.interp import Ptr, NULL
from engine.models import Models, byte, m_strlen
from .objlib import leaks
from .common import ctx

TITLE = "line readers"
MODS = {"main": ("lines.cpp", 1, 0, ("-std=gnu++20",))}


def content(c, pat):
    """one value per character: 'x' an arbitrary byte that is neither CR, LF nor NUL; r, n: CR, LF"""
    out = []
    for k, ch in enumerate(pat):
        if ch == "x":
            b = c.bits("c%d" % k, 7)
            out.append(D.from_bits(8, b[:6] + [1] + b[6:]))
        else:
            out.append({"r": 13, "n": 10, "z": 0x61}[ch])
    return out


def lines_of(bs):
    out, cur = [], []
    for b in bs:
        cur.append(b)
        if type(b) is int and b == 10:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def trimmed(l):
    l = list(l)
    while l and type(l[-1]) is int and l[-1] in (10, 13):
        l.pop()
    return l


def region(c, bs, name="text"):
    r = c.I.new_region(name, "input", len(bs))
    for i, b in enumerate(bs):
        c.I.store(Ptr(r, i), 1, b)
    c.I.st.reg(r, True).ro = True
    return Ptr(r, 0)


class Stream:
    """a C stream over decided line structure; fgets only"""

    def __init__(self, bs):
        self.bs = bs
        self.pos = 0
        self.reads = 0

    def models(self, extra=None):
        m = {"fgets": self.fgets}
        m.update(extra or {})
        return Models(m)

    def start(self, c):
        self.r = c.I.new_region("FILE", "input", 216)
        return Ptr(self.r, 0)

    def fgets(self, I, a, ins):
        n, f = a[1], I.toptr(a[2])
        if f.r != self.r:
            I.event("null", "reading from something that is not the stream", ins)
            raise GiveUp("stream")
        if type(n) is not int or n < 2 or I.depth:
            raise GiveUp("fgets")
        self.reads += 1
        p = I.toptr(a[0])
        k = 0
        while k < n - 1 and self.pos < len(self.bs):
            b = self.bs[self.pos]
            I.store(Ptr(p.r, D.add(I.o64(p.o), k, 64)), 1, b, ins)
            self.pos += 1
            k += 1
            if type(b) is int and b == 10:
                break
        if not k:
            return NULL
        I.store(Ptr(p.r, D.add(I.o64(p.o), k, 64)), 1, 0, ins)
        return a[0]


def same_text(c, what, data, size, want):
    c.eq("%s: length" % what, size, len(want))
    if type(size) is not int or size != len(want) or c.viol:
        return
    idx = range(len(want)) if len(want) < 300 else sorted(set(range(40)) | set(range(0, len(want), 1999)) | set(range(len(want) - 40, len(want))) |
                                                          {k for k in (65533, 65534, 65535, 65536, 65537) if k < len(want)})
    for i in idx:
        c.eq("%s: character %d" % (what, i), byte(c.I, c.I.toptr(data), i, None), want[i], 8)


def text(c, what, s, want):
    same_text(c, what, c.call("s_data", s), c.call("s_size", s), want)


def new_str(c, bs):
    return c.call("s_new", region(c, bs) if bs else region(c, [1]), len(bs))


def show(pat):
    return pat.replace("x", "?").replace("r", "\\r").replace("n", "\\n").replace("z", "a") if len(pat) < 40 else "%d characters" % len(pat)


def j_getline(r, key, pats):
    for pat, trim in pats:
        st = Stream(None)

        def body(c):
            st.bs = bs = content(c, pat)
            f = st.start(c)
            s = new_str(c, [0x71] * 20)
            for k, l in enumerate(lines_of(bs)):
                got = c.call("gl", s, f, trim) if trim != 2 else c.call("gl2", s, f)
                c.eq("line %d is delivered" % k, got, 1, 1)
                text(c, "line %d" % k, s, trimmed(l) if trim == 1 else l)
                if c.viol:
                    return
            for k in (0, 1):
                c.eq("no line after the last", c.call("gl", s, f, trim & 1), 0, 1)
            c.call("s_del", s)
            leaks(c, "reading lines")
        ctx(r, key, "reading the lines of \"%s\"%s" % (show(pat), ", trimmed" if trim == 1 else ""), body, steps=20000000, models=st.models())


def j_range(r, key, pats):
    for pat, trim in pats:
        st = Stream(None)

        def body(c):
            st.bs = bs = content(c, pat)
            f = st.start(c)
            ls = [trimmed(l) if trim == 1 else l for l in lines_of(bs)]
            R = c.call("lr_new", f, trim) if trim != 2 else c.call("lr_new1", f)
            k = 0
            while k < len(ls):
                c.eq("the range is not exhausted before line %d" % k, c.call("lr_done", R), 0, 1)
                if c.viol:
                    return
                g = c.call("lr_get", R)
                same_text(c, "line %d" % k, c.call("cdata", g), c.call("csize", g), ls[k])
                c.eq("line %d: length by arrow" % k, c.call("lr_arrow", R), len(ls[k]))
                cp = c.call("lr_copy", R)
                if k % 2:
                    x = c.call("lr_postinc", R)
                    text(c, "line %d by post-increment" % k, x, ls[k])
                    c.call("s_del", x)
                else:
                    c.call("lr_inc", R)
                g = c.call("li_get", cp)
                same_text(c, "copy of the iterator at line %d" % k, c.call("cdata", g), c.call("csize", g), ls[k])
                e = c.call("li_new")
                c.eq("a copy at line %d is not the end" % k, c.call("li_eq", cp, e), 0, 1)
                c.call("li_del", e)
                c.call("li_del", cp)
                k += 1
            c.eq("the range is exhausted after the last line", c.call("lr_done", R), 1, 1)
            c.call("lr_del", R)
            leaks(c, "iterating over lines")
        ctx(r, key, "iterating over the lines of \"%s\"%s" % (show(pat), ", trimmed" if trim == 1 else ""), body, steps=20000000, models=st.models())


def buffer_lines(bs):
    out = []
    for l in lines_of(bs):
        l = list(l)
        if l and type(l[-1]) is int and l[-1] == 10:
            l.pop()
        if l and type(l[-1]) is int and l[-1] == 13:
            l.pop()
        out.append(l)
    return out


def walk_buffer(c, bs, it, end, step=None):
    for k, l in enumerate(buffer_lines(bs)):
        c.eq("the buffer is not exhausted before line %d" % k, c.call("bi_eq", it, end), 0, 1)
        if c.viol:
            return
        g = c.call("bi_get", it)
        same_text(c, "line %d" % k, c.call("cdata", g), c.call("csize", g), l)
        cp = c.call("bi_copy", it)
        if k % 2:
            x = c.call("bi_postinc", it)
            text(c, "line %d by post-increment" % k, x, l)
            c.call("s_del", x)
        else:
            c.call("bi_inc", it)
        g = c.call("bi_get", cp)
        same_text(c, "copy at line %d" % k, c.call("cdata", g), c.call("csize", g), l)
        c.call("bi_inc", cp)
        c.eq("copies advance alike after line %d" % k, c.call("bi_eq", cp, it), 1, 1)
        c.call("bi_del", cp)
    c.eq("the buffer is exhausted after the last line", c.call("bi_eq", it, end), 1, 1)


def j_buffer(r, key, pats):
    for pat in pats:
        def body(c):
            bs = content(c, pat)
            p = region(c, bs)
            it, end = c.call("bi_new", p, len(bs)), c.call("bi_end")
            walk_buffer(c, bs, it, end)
            for x in (it, end):
                c.call("bi_del", x)
            leaks(c, "iterating over a buffer")
        ctx(r, key, "lines of the buffer \"%s\"" % show(pat), body, steps=20000000)


def j_mapped(r, key, pats):
    for pat in pats:
        state = {}

        def opened(I, a, ins):
            p = I.toptr(a[1])
            s = I.load(p, 8, ins)
            n = I.load(Ptr(p.r, D.add(I.o64(p.o), 8, 64)), 8, ins)
            state.setdefault("opened", []).append((s, n))
            return None

        def data(I, a, ins):
            return state["data"]

        def size(I, a, ins):
            return state["size"]
        P = "_ZN5boost9iostreams18mapped_file_source"
        K = "_ZNK5boost9iostreams18mapped_file_source"
        models = Models({P + "4initEv": lambda I, a, ins: None, P + "9open_implERKNS0_24basic_mapped_file_paramsINS0_6detail4pathEEE": opened,
                         K + "4dataEv": data, K + "4sizeEv": size})

        def body(c):
            bs = content(c, pat)
            state["data"], state["size"] = region(c, bs), len(bs)
            name = "some/file/with/a/long/name.txt"
            m = c.call("ml_new", region(c, [ord(x) for x in name] + [0]))
            c.true("the file is opened once", len(state.get("opened", ())) == 1)
            it, end = c.call("ml_begin", m), c.call("ml_end", m)
            walk_buffer(c, bs, it, end)
            it2 = c.call("ml_begin", m)
            walk_buffer(c, bs, it2, end)
            for x in (it, it2, end):
                c.call("bi_del", x)
        ctx(r, key, "lines of the mapped file \"%s\"" % show(pat), body, steps=20000000, models=models)


def j_trim(r, key, pats):
    for pat in pats:
        def body(c):
            bs = content(c, pat)
            s = new_str(c, bs)
            c.call("s_trim", s)
            text(c, "trimmed text", s, trimmed(bs))
            c.eq("terminated", byte(c.I, c.I.toptr(c.call("s_data", s)), len(trimmed(bs)), None), 0, 8)
            b = c.I.toptr(c.call("ad_begin", s))
            c.eq("adapted range is one longer than the text", c.call("ad_len", s), len(trimmed(bs)) + 1)
            for k, x in enumerate(trimmed(bs) + [0]):
                c.eq("adapted byte %d" % k, byte(c.I, b, k, None), x, 8)
            c.eq("identity adaptor", c.call("id_same", b, len(trimmed(bs))), 1)
            c.call("s_del", s)
            leaks(c, "trimming")
        ctx(r, key, "trimming \"%s\"" % show(pat), body, steps=2000000)


def jobs(tier):
    th = tier == "thorough"
    short = ["".join(p) for n in range(0, 6 if not th else 8) for p in itertools.product("xrn", repeat=n)]
    out = []
    for n in (65533, 65534, 65535, 65536, 65537) + ((131069, 131070, 131071) if not th else (131069, 131070, 131071, 131072, 196605, 196606)):
        for end in ("", "n", "rn") if n < 66000 or th else ("n",):
            body = "x" * 20 + "z" * (n - 40) + "x" * 20
            tail = ("", "xxn", "x")[n % 3]
            out.append((j_getline, ("main", [(body + end + (tail if end else ""), (n + len(end)) % 2)])))
        if n in (65535, 65536):
            out.append((j_range, ("main", [("xn" + "z" * (n - 3) + "xxxrn" + "xn", 1)])))
    k = len(short) // 40 + 1
    for i in range(0, len(short), k):
        ch = short[i:i + k]
        out.append((j_getline, ("main", [(p, t) for p in ch for t in (0, 1)] + [(ch[0], 2)])))
        out.append((j_range, ("main", [(p, (i + j) % 2) for j, p in enumerate(ch)] + [(ch[-1], 2)])))
        out.append((j_buffer, ("main", ch)))
        out.append((j_trim, ("main", ch)))
    long_ = ["xxn" * 20 + "x" * 30 + "rn", "n" * 30, "rn" * 20, "x" * 15 + "n" + "x" * 16 + "n" + "x" * 17, "x" * 100 + "r" * 5 + "n", "xrxrxn" * 10 + "r"]
    out.append((j_getline, ("main", [(p, t) for p in long_ for t in (0, 1)])))
    out.append((j_range, ("main", [(p, t) for p in long_ for t in (0, 1)])))
    out.append((j_buffer, ("main", long_)))
    out.append((j_trim, ("main", long_)))
    out.append((j_mapped, ("main", long_ + [p for p in short if p][::17])))
    return out
