"""Byte accounting of persistence: written = consumed = reported size + header."""
from engine.check import MEMORY
from .objlib import *

TITLE = "byte accounting"
WIDTH = r"^mapper\.hpp"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("objs.cpp", 1, 0, ()), "tree": ("tree.cpp", 1, 0, ("-std=gnu++20",))}
LAYOUT = "objs.cpp"


def j_count(r, key, P, label, mk, hav, flags):
    out = Out()

    def body(c):
        o = mk(c)
        if hav:
            havoc(c, P, o)
        f = out.open(c)
        start = 0
        w = c.call(P + "_freeze", o, f.stream, c.word("fl"))
        c.eq("freeze() returns the number of bytes written", w, f.cur)
        s = c.call(P + "_size_of", o)
        c.eq("size_of() plus the 8-byte header is the file size", D.add(s, 8, 64), f.cur)
        # a second object right behind the first one
        mid = f.cur
        w2 = c.call(P + "_freeze", o, f.stream, 0)
        c.eq("second freeze() returns the bytes it appended", w2, D.sub(f.cur, mid, 64))
        base = f.close()
        m, m2 = c.call(P + "_empty"), c.call(P + "_empty")
        n1 = c.call(P + "_map", m, base, flags)
        c.eq("map() consumes exactly what freeze() wrote", n1, mid)
        n2 = c.call(P + "_map", m2, Ptr(base.r, n1), flags)
        c.eq("a second object can be mapped right behind the first", D.add(n1, n2, 64), f.cur)
        c.eq("size_of() of the mapped object", c.call(P + "_size_of", m2), s)
        same_state(c, "second object of the file", full(c, P, o), full(c, P, m2))
        for x in (o, m, m2):
            c.call(P + "_del", x)
    ctx(r, key, "sizes of %s: %s%s" % (NAME[P], label, ", all fields and elements arbitrary" if hav else ""), body, steps=4000000, models=out.models)


def expected(c, n, o):
    """(bytes, sorted subtrees) of a class node of the layout, bases inlined, plain fields counted but not listed"""
    total, kids = 0, []
    for k in n.kids:
        t = k.type
        if k.kids:
            vs = layout.vectors(wrap(k))
            if len(vs) == 1 and not vs[0][3].count("."):
                po, no, es, path = vs[0]
                sub = (8 + peek(c, o, no, 8) * es, ())
                kids.append(sub)
            else:
                sub = expected(c, k, o)
                if "base)" in k.text:
                    kids += sub[1]
                else:
                    kids.append(sub)
            total += sub[0]
        else:
            for off, sz, kind, path, ty in layout.leaves(wrap(k)):
                if kind == "int":
                    total += sz
    return total, tuple(sorted(kids))


def wrap(k):
    w = layout.Node(0, 0, "")
    w.kids = [k]
    return w


def report(c, n):
    m = c.call("tree_kids", n)
    return c.call("tree_size", n), tuple(sorted(report(c, c.call("tree_kid", n, i)) for i in range(m)))


def text(c, s):
    r = c.I.new_region("name", "input", len(s) + 1)
    for i, ch in enumerate(s + "\0"):
        c.I.store(Ptr(r, i), 1, ord(ch))
    return Ptr(r, 0)


def j_tree(r, key, P, label, mk):
    def body(c):
        o = mk(c)
        before = full(c, P, o)
        s = c.call(P + "_size_of", o)
        want = expected(c, root(P).kids[0], o)
        c.eq("size_of() is the sum of the stored parts", s, want[0])
        for name in ("", "<TOP>", "a name that is longer than any short string buffer"):
            t = c.call(P + "_tree", o, text(c, name))
            n = c.call("tree_top", t)
            got = report(c, n)
            c.eq("size of the report's root node", got[0], s)
            c.true("the report names every array and nested structure with its exact size", got == want, "report %s, object %s" % (got, want))
            c.call("tree_del", t)
        same_state(c, "object after the report", before, full(c, P, o))
        c.call(P + "_del", o)
        leaks(c, "report")
    ctx(r, key, "size report of %s: %s" % (NAME[P], label), body, kinds=MEMORY + ("uninit", "throw"), steps=4000000)


def jobs(tier):
    out = []
    for P in TYPES:
        if P not in ("mv", "mh"):
            for label, mk in shapes(P, tier):
                if "any B" not in label:
                    out.append((j_tree, ("tree", P, label, mk)))
    for P in TYPES:
        for i, (label, mk) in enumerate(shapes(P, tier)):
            for h in (0, 1):
                if h and "any B" in label:
                    continue
                out.append((j_count, ("main", P, label, mk, h, 0 if "any B" in label else (i + h) & 1)))
    return out
