"""Files are opened under the given name, receive every byte, and are closed exactly once."""
from engine.check import MEMORY
from .objlib import *
from .c19 import region
from engine.interp import NULL
from engine.models import byte, m_strlen, Models

TITLE = "file handles"
MODS = {"main": ("lines.cpp", 1, 0, ("-std=gnu++20",)), "files": ("files.cpp", 1, 0, ())}
LAYOUT = "objs.cpp"
OF = "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE"
FB = "_ZNSt13basic_filebufIcSt11char_traitsIcEE"
MODES = (None, "rb", "r", "wb", "ab", "r+b")


def cstr(c, p):
    p = c.I.toptr(p)
    return "".join(chr(byte(c.I, p, k, None)) for k in range(m_strlen(c.I, [p], None)))


class Handles:
    """fopen/fclose with a decided outcome"""

    def __init__(self, ok):
        self.ok, self.opened, self.closed, self.msg = ok, [], [], None

    def models(self):
        return Models({"fopen": self.fopen, "fclose": self.fclose, "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": self.what,
                       "_ZNSt16invalid_argumentC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE": self.what,
                       "__cxa_throw": self.throw, "_ZNSt16invalid_argumentD1Ev": lambda I, a, ins: None})

    def fopen(self, I, a, ins):
        if I.depth:
            raise GiveUp("fopen under a condition")
        self.opened.append((a[0], a[1]))
        if not self.ok:
            return NULL
        f = Ptr(I.new_region("FILE", "input", 216), 0)
        self.files = getattr(self, "files", []) + [f]
        return f

    def fclose(self, I, a, ins):
        f = a[0]
        if I.depth:
            raise GiveUp("fclose under a condition")
        if isinstance(f, Ptr) and f.r == 0:
            I.event("null", "fclose of a null handle", ins)
        elif f.r in self.closed:
            I.event("doublefree", "the file is closed twice", ins)
        else:
            self.closed.append(f.r)
        return 0

    def what(self, I, a, ins):
        s = I.toptr(a[1])
        self.msg = (I.load(s, 8, ins), I.load(Ptr(s.r, D.add(I.o64(s.o), 8, 64)), 8, ins))
        p = I.toptr(self.msg[0])
        self.msg = [byte(I, p, k, ins) for k in range(self.msg[1])]
        return None

    def throw(self, I, a, ins):
        from engine.models import m_throw
        self.type = a[1]
        return m_throw(I, a, ins)


NAMES = ("f", "data.bin", "a/rather/long/path/to/the/file/with/many/characters.dat", "x" * 300)


def j_auto(r, key, ok, name, mode, scope):
    H = Handles(ok)

    def body(c):
        nm = region(c, [ord(x) for x in name] + [0], "name")
        md = region(c, [ord(x) for x in mode] + [0], "mode") if mode else None
        if scope:
            out = Ptr(c.I.new_region("out", "input", 8), 0)
            c.I.store(out, 8, NULL)
            v, exc = c.throws("af_scope", nm, out)
        else:
            v, exc = c.throws("af_new", nm) if mode is None else c.throws("af_new2", nm, md)
        c.true("the file is opened exactly once", len(H.opened) == 1)
        if not H.opened:
            return
        c.true("under the given name", cstr(c, H.opened[0][0]) == name)
        c.true("in the given mode", cstr(c, H.opened[0][1]) == (mode or "rb"))
        if ok:
            c.true("an opened file raises no error", exc is None)
            if exc is not None:
                return
            if scope:
                f = c.I.load(out, 8)
                c.true("the handle is the opened file", isinstance(f, Ptr) and f.r == H.files[0].r)
            else:
                f = c.call("af_get", v)
                c.true("the handle is the opened file", isinstance(f, Ptr) and f.r == H.files[0].r)
                c.true("the file stays open while the owner lives", not H.closed)
                f = c.call("af_get", v)
                c.true("the handle does not change", isinstance(f, Ptr) and f.r == H.files[0].r)
                c.call("af_del", v)
            c.true("the file is closed exactly once", H.closed == [H.files[0].r])
            leaks(c, "after the owner's end")
        else:
            c.true("a file that cannot be opened raises an error", exc is not None)
            if exc is None:
                return
            if H.msg is None or any(type(b) is not int for b in H.msg):
                c.unknown.append((c.label, "error message", "not built by a modelled constructor"))
            else:
                c.true("the error names the file", name in "".join(map(chr, H.msg)))
            c.true("nothing is closed that was not opened", not H.closed)
            leaks(c, "after the failed open", keep=[exc.r] if isinstance(exc, Ptr) else [])
    ctx(r, key, "%s \"%s\" %s%s" % ("opening" if ok else "failing to open", name if len(name) < 60 else "a long name", "in mode %s" % mode if mode else "in the default mode", ", automatic lifetime" if scope else ""),
        body, kinds=MEMORY + ("uninit", "throw"), steps=2000000, models=H.models())


class Named(Out):
    """output streams opened by name"""

    def __init__(self, c=None):
        Out.__init__(self)
        self.names, self.closed, self.unopened = [], [], set()
        self.src = {}
        self.models = Models({"_ZNSo5writeEPKcl": self.write, OF + "C1EPKcSt13_Ios_Openmode": self.ctor, OF + "D1Ev": self.dtor,
                              OF + "C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode": self.ctor_s, OF + "C1Ev": self.ctor0,
                              FB + "4openEPKcSt13_Ios_Openmode": self.fbopen, FB + "5closeEv": self.fbclose,
                              OF + "4openEPKcSt13_Ios_Openmode": self.open_, OF + "5closeEv": self.close_, "_ZNKSt12__basic_fileIcE7is_openEv": self.is_open,
                              "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate": lambda I, a, ins: None, "_ZNSo5flushEv": lambda I, a, ins: a[0],
                              "_ZNK5boost9iostreams18mapped_file_source4dataEv": self.data, "_ZNK5boost9iostreams18mapped_file_source4sizeEv": self.size})

    def ctor(self, I, a, ins):
        f = File(self.c)
        p = I.toptr(a[0])
        self.files[p.r] = f
        self.names.append((a[1], a[2], f))
        return None

    def ctor_s(self, I, a, ins):
        return self.ctor(I, [a[0], I.load(I.toptr(a[1]), 8, ins), a[2]], ins)

    def ctor0(self, I, a, ins):
        # a stream without a file; its virtual base is found through the (zero) entry of this table
        p = I.toptr(a[0])
        vt = Ptr(I.new_region("vtable", "input", 64), 24)
        for k in range(0, 64, 8):
            I.store(Ptr(vt.r, k), 8, 0)
        I.store(p, 8, vt)
        I.store(Ptr(p.r, D.add(I.o64(p.o), 32, 64)), 4, 0)
        self.unopened.add(p.r)
        return None

    def open_(self, I, a, ins):
        # opening for output what is already open fails and leaves the stream as it is
        p = I.toptr(a[0])
        if p.r in self.files and self.files[p.r] not in self.closed:
            raise GiveUp("opening an open stream")
        if p.r not in self.unopened and p.r not in self.files:
            raise GiveUp("stream")
        self.unopened.discard(p.r)
        return self.ctor(I, a, ins)

    def close_(self, I, a, ins):
        p = I.toptr(a[0])
        f = self.files.get(p.r)
        if f is not None and f not in self.closed:
            self.closed.append(f)
        return None

    def fbopen(self, I, a, ins):
        self.open_(I, a, ins)
        return a[0]

    def fbclose(self, I, a, ins):
        p = I.toptr(a[0])
        f = self.files.get(p.r)
        self.close_(I, a, ins)
        return a[0] if f is not None else NULL

    def is_open(self, I, a, ins):
        p = I.toptr(a[0])
        return int(p.r in self.files and self.files[p.r] not in self.closed)

    def dtor(self, I, a, ins):
        p = I.toptr(a[0])
        if p.r in self.unopened:
            self.unopened.discard(p.r)
            return None
        f = self.files.pop(p.r, None)
        if f is None:
            I.event("doublefree", "the stream is destroyed twice", ins)
        elif f not in self.closed:
            self.closed.append(f)
        return None

    def write(self, I, a, ins):
        s = I.toptr(a[0])
        if s.r not in self.files or self.files[s.r] in self.closed:
            I.event("uaf", "writing to a stream that is not open", ins)
            raise GiveUp("stream")
        return self.files[s.r].model(I, a, ins)

    def data(self, I, a, ins):
        return self.src[I.toptr(a[0]).r][0]

    def size(self, I, a, ins):
        return self.src[I.toptr(a[0]).r][1]


def j_named(r, key, P, label, mk, flags):
    out = Named()

    def body(c):
        out.c = c
        o = mk(c)
        before = full(c, P, o)
        name = "file/for/" + P
        nm = region(c, [ord(x) for x in name] + [0], "name")
        fl = c.word("fl") if flags else 0
        n = c.call(P + "_freeze_to2", o, nm, fl) if flags else c.call(P + "_freeze_to", o, nm)
        c.true("one file is opened and closed again", len(out.names) == 1 and out.closed == [out.names[0][2]])
        if not out.names:
            return
        a, mode, f = out.names[0]
        c.true("under the given name", cstr(c, a) == name)
        c.true("an earlier file of that name is replaced", type(mode) is int and not mode & 9)
        c.eq("the returned size is the number of bytes in the file", n, f.cur)
        # the same bytes as through a stream of the caller
        g = out.open(c)
        c.call(P + "_freeze", o, g.stream, fl)
        c.eq("same number of bytes as through a stream", g.cur, f.cur)
        base = f.close()
        if type(f.cur) is int:
            gb = Ptr(g.rid, 0)
            for k in range(0, f.cur, 8):
                m = min(8, f.cur - k)
                c.eq("byte %d as through a stream" % k, c.I.load(Ptr(base.r, k), m), c.I.load(Ptr(gb.r, k), m), 8 * m)
        src = Ptr(c.I.new_region("mapped_file_source", "input", 16), 0)
        out.src[src.r] = (base, f.cur)
        m = c.call(P + "_empty")
        k = c.call(P + "_map_from", m, src, flags)
        c.eq("mapping the file consumes all of it", k, f.cur)
        same_state(c, "object mapped from the file", before, full(c, P, m))
        c.call(P + "_del", o)
        c.call(P + "_del", m)
        leaks(c, "after everything is destroyed")
    ctx(r, key, "%s through a named file: %s%s" % (NAME[P], label, ", flags" if flags else ""), body, steps=4000000, models=out.models)


def jobs(tier):
    out = []
    for ok in (1, 0):
        for name in NAMES:
            for mode in MODES:
                out.append((j_auto, ("main", ok, name, mode, 0)))
            out.append((j_auto, ("main", ok, name, None, 1)))
    for P in TYPES:
        for i, (label, mk) in enumerate(shapes(P, tier)):
            if "any B" in label:
                continue
            out.append((j_named, ("files", P, label, mk, i & 1)))
    return out
