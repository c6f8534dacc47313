"""Frozen bytes are a function of the content: nothing indeterminate, no address, no trace of how the object came about."""
from .objlib import *
from .c18 import tainted

TITLE = "reproducible files"
MODS = {"main": ("objs.cpp", 1, 0, ()), "portable": ("objs.cpp", 0, 0, ("-DNDEBUG",))}
LAYOUT = "objs.cpp"
EXPLAIN = "abstract interpretation of building and freezing: every byte handed to the stream is traced back to the input; two objects of equal content that came about differently are frozen and their files compared byte by byte"


def memo(c):
    """the same names stand for the same free inputs from now on"""
    bits, integer, known = c.bits, c.int, {}

    def b(name, n):
        out = []
        for i in range(n):
            k = "%s.%d" % (name, i)
            if k not in known:
                known[k] = D.free(k)
            out.append(known[k])
        return out

    def i(name, lo, hi, w=64):
        k = (name, lo, hi)
        if k not in known:
            known[k] = D.free(name, lo, hi)
        return D.mke(w, 0, {known[k]: 1})
    c.bits, c.int = b, i


def frozen(c, P, out, o, what):
    f = out.open(c)
    c.call(P + "_freeze", o, f.stream, 0)
    n = f.cur
    vals = []
    if type(n) is int:
        step = 1 if n <= 6000 else 8
        for q in range(0, n, step):
            v = c.I.load(Ptr(f.rid, q), min(step, n - q))
            vals.append(v)
            c.true("%s: byte %d is determined" % (what, q), not tainted(v), "an indeterminate byte is written to the file")
            c.true("%s: byte %d is no address" % (what, q), not isinstance(v, (Ptr, PIte)), "an address is written to the file")
    return f, n, vals


def same_file(c, what, a, b):
    c.eq(what + ": length", b[1], a[1])
    if type(a[1]) is int and a[1] == b[1]:
        step = 1 if a[1] <= 6000 else 8
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            c.eq("%s: byte %d" % (what, i * step), y, x, 8 * min(step, a[1] - i * step))


def j_file(r, key, P, i, k):
    sh = shapes(P)
    label, mk = sh[i]
    out = Out()

    def body(c):
        memo(c)
        o = mk(c)
        a = frozen(c, P, out, o, "file")
        same_file(c, "frozen again", a, frozen(c, P, out, o, "second file"))
        # through a mapped copy, mapped into an object that held something else
        base = a[0].close()
        m = sh[k][1](c)
        c.call(P + "_map", m, base, 0)
        same_file(c, "frozen from a mapped copy", a, frozen(c, P, out, m, "file of the mapped copy"))
        c.call(P + "_del", m)
        if "any B" in label:
            return
        # built again elsewhere, and passed through an object that held something else
        o2 = mk(c)
        same_file(c, "built again from the same input", a, frozen(c, P, out, o2, "file of the second object"))
        x = sh[k][1](c)
        c.call(P + "_swap", x, o2)
        same_file(c, "exchanged with another object", a, frozen(c, P, out, x, "file after the exchange"))
        c.call(P + "_dispose", o2)
        e = c.call(P + "_empty")
        same_file(c, "a disposed object and a fresh one", frozen(c, P, out, e, "file of a fresh object"), frozen(c, P, out, o2, "file of a disposed object"))
        for z in (o, o2, x, e):
            c.call(P + "_del", z)
    ctx(r, key, "files of %s: (%s), via (%s)" % (NAME[P], label, sh[k][0]), body, steps=6000000, models=out.models)


def chunks(bits, w):
    return [bits[i:i + w] for i in range(0, len(bits), w)]


def word(bits):
    return D.from_bits(64, bits + [0] * (64 - len(bits)))


def by_push(c, bits):
    b = c.call("hb_new", 0, 0)
    for x in bits:
        c.call("hb_push", b, D.from_bits(1, [x]))
    return b


def by_words(c, bits, w):
    b = c.call("hb_new", 0, 0)
    for ch in chunks(bits, w):
        c.call("hb_append_bits", b, word(ch), len(ch))
    return b


def over_ones(c, bits):
    b = c.call("hb_new", len(bits), 1)
    for i, ch in enumerate(chunks(bits, 37)):
        c.call("hb_set_bits", b, 37 * i, word(ch), len(ch))
    return b


def by_set(c, bits):
    b = c.call("hb_new", 0, 0)
    c.call("hb_one_extend", b, len(bits) // 2)
    c.call("hb_zero_extend", b, len(bits) - len(bits) // 2)
    for i, x in enumerate(bits):
        c.call("hb_set", b, i, D.from_bits(1, [x]))
    return b


def by_append(c, bits, k):
    b, t = by_push(c, bits[:k]), over_ones(c, bits[k:])
    c.call("hb_append", b, t)
    c.call("hb_del", t)
    return b


def by_reverse(c, bits):
    b = by_words(c, bits[::-1], 50)
    c.call("hb_reverse", b)
    return b


def by_reserve(c, bits):
    b = c.call("hb_new", 0, 0)
    c.call("hb_reserve", b, len(bits) + 70)
    for ch in chunks(bits, 61):
        c.call("hb_append_bits", b, word(ch), len(ch))
        c.call("hb_reserve", b, 2 * len(bits) + 1)
    return b


def by_swap(c, bits):
    b, t = c.call("hb_new", len(bits) + 5, 1), by_words(c, bits, 64)
    c.call("hb_swap", b, t)
    c.call("hb_del", t)
    return b


ROUTES = [("bit by bit", by_push), ("words", lambda c, b: by_words(c, b, 64)), ("13 bits at a time", lambda c, b: by_words(c, b, 13)), ("overwriting ones", over_ones),
          ("setting every bit", by_set), ("appending to a prefix", lambda c, b: by_append(c, b, len(b) // 3)), ("appending to nothing", lambda c, b: by_append(c, b, 0)),
          ("appending to a word", lambda c, b: by_append(c, b, min(64, len(b)))), ("reversing", by_reverse), ("after reserving", by_reserve), ("exchanging builders", by_swap)]


def j_routes(r, key, P, n):
    """the same bits, put together in every way the builder offers"""
    out = Out()

    def body(c):
        memo(c)
        bits = c.bits("b", n)
        first = None
        for what, route in ROUTES:
            b = route(c, bits)
            o = c.call(P + "_new", b, *((3,) if P == "rs" else ()))
            c.call("hb_del", b)
            f = frozen(c, P, out, o, what)
            if first is None:
                first = f
            else:
                same_file(c, "built by " + what, first, f)
            c.call(P + "_del", o)
    ctx(r, key, "files of %s built in %d ways from %d bits" % (NAME[P], len(ROUTES), n), body, steps=6000000, models=out.models)


def jobs(tier):
    out = [(j_routes, (k, P, n)) for k in ('main', 'portable') for P in ('bv', 'rs') for n in (0, 1, 63, 64, 65, 127, 128, 129, 200, 320) if P == 'bv' or n % 64]
    for P in TYPES:
        n = len(shapes(P))
        for i in range(n):
            for d in ((1,) if tier == "quick" else range(1, min(n, 4))):
                out.append((j_file, ("main", P, i, (i + d) % n)))
            if tier != "quick" or i % 3 == 1:
                out.append((j_file, ("portable", P, i, (i + 2) % n)))
    return out
