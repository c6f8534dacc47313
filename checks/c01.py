"""Builder operations store exactly the bits they were given."""
from engine import dom as D
from .bitlib import *
from .common import ctx as _ctx

TITLE = "builder stores exactly the given bits"
WIDTH = r"bit_vector_builder"     # narrow integers in these functions (engine/width.py)
MODS = {"main": ("bits.cpp", 1, 0, ())}


def ctx(r, label, body):
    _ctx(r, "main", label, body)


def untouched(c, S, before):
    for k, (i, v) in enumerate(before):
        c.eq("earlier word %d unchanged" % k, S.c.call("hb_word", S.b, i), v)


def earlier(c, S):
    out = []
    if S.j is not None:
        out.append((S.j, S.word(S.j)))
    elif S.B > 0:
        out.append((0, S.word(0)))
        out.append((S.B - 1, S.word(S.B - 1)))
    return out


BS = ("sym", 0, 1)


def j_ctor(r, s):
    for init in (0, 1):
        for B in ("sym", 0, 1, 2):
            def body(c):
                if B == "sym":
                    j, g = c.int("j", 0, BMAX), c.int("g", 0, BMAX)
                    Bv = add(D.add(j, g, 64), 8)
                else:
                    Bv, j = B, None
                n = add(mul64(Bv), s)
                b = c.call("hb_new", n, init)
                check_tail(c, b, Bv, [init] * s, "ctor")
                if j is not None:
                    c.eq("word j", c.call("hb_word", b, j), (1 << 64) - 1 if init else 0)
                elif Bv:
                    for k in range(Bv):
                        c.eq("word %d" % k, c.call("hb_word", b, k), (1 << 64) - 1 if init else 0)
                follow(c, b, Bv, [init] * s, "ctor")
            ctx(r, "bit_vector_builder(size=64*%s+%d, init=%d)" % (B, s, init), body)


def j_push(r, s):
    for B in BS:
        def body(c):
            S = Store(c, s, B)
            pre = earlier(c, S)
            x = c.bits("x", 1)
            c.call("hb_push", S.b, D.from_bits(1, x))
            check_tail(c, S.b, S.B, S.last + x, "push_back")
            untouched(c, S, pre)
            follow(c, S.b, S.B, S.last + x, "push_back")
        ctx(r, "push_back at size 64*%s+%d" % (B, s), body)


def j_append_bits(r, s, lens):
    for B in BS:
        for l in lens:
            def body(c):
                S = Store(c, s, B)
                pre = earlier(c, S)
                x = c.bits("x", l)
                c.call("hb_append_bits", S.b, zx(x), l)
                check_tail(c, S.b, S.B, S.last + x, "append_bits")
                untouched(c, S, pre)
                follow(c, S.b, S.B, S.last + x, "append_bits")
            ctx(r, "append_bits(len=%d) at size 64*%s+%d" % (l, B, s), body)


def j_set(r, t):
    # position 64*j+t in a builder with more words after it, and in the last word
    def body(c):
        S = Store(c, 17, "sym", gmin=1)
        w0, w1 = S.word(S.j), S.word(add(S.j, 1))
        lastw = S.word(S.B)
        x = c.bits("x", 1)
        c.call("hb_set", S.b, add(mul64(S.j), t), D.from_bits(1, x))
        b = list(D.bits(w0, 64))
        b[t] = x[0]
        c.eq("set: word", S.word(S.j), D.from_bits(64, b))
        c.eq("set: next word", S.word(add(S.j, 1)), w1)
        c.eq("set: last word", S.word(S.B), lastw)
        c.eq("set: size", c.call("hb_size", S.b), S.n)
        follow(c, S.b, S.B, S.last, "set")
    ctx(r, "set(64*j+%d)" % t, body)
    for s in sorted({t + 1, 63, 40} - {0, 64}):
        if s <= t:
            continue

        def body(c):
            S = Store(c, s, "sym")
            w0 = S.word(S.j)
            x = c.bits("x", 1)
            c.call("hb_set", S.b, add(mul64(S.B), t), D.from_bits(1, x))
            tail = list(S.last)
            tail[t] = x[0]
            check_tail(c, S.b, S.B, tail, "set")
            c.eq("set: earlier word", S.word(S.j), w0)
            follow(c, S.b, S.B, tail, "set")
        ctx(r, "set(64*B+%d) in the last word of 64*B+%d bits" % (t, s), body)


def j_set_bits(r, t, lens):
    for l in lens:
        def body(c):
            S = Store(c, 0, "sym", gmin=2, jmin=1)
            j = S.j
            idx = [add(j, -1), j, add(j, 1), add(j, 2)]
            W = [S.word(i) for i in idx]
            x = c.bits("x", l)
            c.call("hb_set_bits", S.b, add(mul64(j), t), zx(x), l)
            b = list(D.bits(W[1], 64)) + list(D.bits(W[2], 64))
            b[t:t + l] = x
            c.eq("set_bits: word j-1", S.word(idx[0]), W[0])
            c.eq("set_bits: word j", S.word(idx[1]), D.from_bits(64, b[:64]))
            c.eq("set_bits: word j+1", S.word(idx[2]), D.from_bits(64, b[64:]))
            c.eq("set_bits: word j+2", S.word(idx[3]), W[3])
            c.eq("set_bits: size", c.call("hb_size", S.b), S.n)
        ctx(r, "set_bits(64*j+%d, len=%d) in the middle" % (t, l), body)

        def body2(c):
            # the range ends exactly at the end of the builder
            e = t + l
            if e == 0:
                return
            S = Store(c, e % 64, "sym", gmin=1)
            full = e // 64                      # words between position's word and the last partial one
            base = add(S.B, -full)
            pre = [S.word(add(base, k)) for k in range((e + 63) // 64)]
            b = []
            for w in pre:
                b += list(D.bits(w, 64))
            b = b[:e]
            x = c.bits("x", l)
            c.call("hb_set_bits", S.b, add(mul64(base), t), zx(x), l)
            b[t:t + l] = x
            check_tail(c, S.b, base, b, "set_bits at the end")
            follow(c, S.b, base, b, "set_bits at the end")
        ctx(r, "set_bits(len=%d) ending at the end, start offset %d" % (l, t), body2)


def j_zero_extend(r, s, rems):
    for B in BS:
        for K in ("sym", 0, 1):
            for q in rems:
                def body(c):
                    S = Store(c, s, B)
                    pre = earlier(c, S)
                    if K == "sym":
                        k1, k2 = c.int("k1", 0, BMAX), c.int("k2", 0, BMAX)
                        Kv = add(D.add(k1, k2, 64), 2)
                    else:
                        Kv = K
                    c.call("hb_zero_extend", S.b, add(mul64(Kv), q))
                    if K != "sym":
                        check_tail(c, S.b, S.B, S.last + [0] * (64 * K + q), "zero_extend")
                        follow(c, S.b, S.B, S.last + [0] * (64 * K + q), "zero_extend")
                    else:
                        n = add(D.add(S.n, mul64(Kv), 64), q)
                        c.eq("zero_extend: size", c.call("hb_size", S.b), n)
                        nw = D.add(D.add(S.B, Kv, 64), (s + q + 63) // 64, 64)
                        c.eq("zero_extend: words", c.call("hb_nwords", S.b), nw)
                        c.eq("zero_extend: boundary word", S.word(S.B), zx(S.last))
                        c.eq("zero_extend: new word", S.word(add(D.add(S.B, k1, 64), 1)), 0)
                        y = c.bits("y", 1)
                        c.call("hb_push", S.b, D.from_bits(1, y))
                        e = s + q
                        wi = D.add(D.add(S.B, Kv, 64), e // 64, 64)
                        c.eq("zero_extend then push_back", S.word(wi), D.from_bits(64, [0] * (e % 64) + y + [0] * (63 - e % 64)))
                    untouched(c, S, pre)
                ctx(r, "zero_extend(64*%s+%d) at size 64*%s+%d" % (K, q, B, s), body)


def j_one_extend(r, s, ns):
    for B in BS:
        for n in ns:
            def body(c):
                S = Store(c, s, B)
                pre = earlier(c, S)
                c.call("hb_one_extend", S.b, n)
                check_tail(c, S.b, S.B, S.last + [1] * n, "one_extend")
                untouched(c, S, pre)
                follow(c, S.b, S.B, S.last + [1] * n, "one_extend")
            ctx(r, "one_extend(%d) at size 64*%s+%d" % (n, B, s), body)


def j_append(r, s, ms):
    for B in BS:
        for m in ms:
            def body(c):
                S = Store(c, s, B)
                R = Store(c, m % 64, m // 64, name="r")
                pre = earlier(c, S)
                rb = []
                for k in range((m + 63) // 64):
                    rb += list(D.bits(R.word(k), 64))
                rb = rb[:m]
                rw = [R.word(k) for k in range((m + 63) // 64)]
                c.call("hb_append", S.b, R.b)
                check_tail(c, S.b, S.B, S.last + rb, "append")
                untouched(c, S, pre)
                c.eq("append: argument size", c.call("hb_size", R.b), m)
                for k, w in enumerate(rw):
                    c.eq("append: argument word", R.word(k), w)
                follow(c, S.b, S.B, S.last + rb, "append")
            ctx(r, "append(builder of %d bits) at size 64*%s+%d" % (m, B, s), body)


def j_reverse(r, ns):
    for n in ns:
        def body(c):
            S = Store(c, n % 64, n // 64)
            b = []
            for k in range((n + 63) // 64):
                b += list(D.bits(S.word(k), 64))
            b = b[:n]
            c.call("hb_reverse", S.b)
            b.reverse()
            check_tail(c, S.b, 0, b, "reverse")
            follow(c, S.b, 0, b, "reverse")
        ctx(r, "reverse of %d bits" % n, body)


def j_reserve(r, s):
    for B in BS:
        for extra in (0, 1, 64, 1000):
            def body(c):
                S = Store(c, s, B)
                pre = earlier(c, S)
                c.call("hb_reserve", S.b, add(S.n, extra))
                check_tail(c, S.b, S.B, S.last, "reserve")
                untouched(c, S, pre)
                follow(c, S.b, S.B, S.last, "reserve")
            ctx(r, "reserve(size+%d) at size 64*%s+%d" % (extra, B, s), body)


def j_swap(r, s):
    for t in (0, 1, 33, 63):
        for B1, B2 in (("sym", "sym"), (0, "sym"), ("sym", 0), (0, 1)):
            def body(c):
                S = Store(c, s, B1, name="p")
                T = Store(c, t, B2, name="q")
                p1, p2 = earlier(c, S), earlier(c, T)
                c.call("hb_swap", S.b, T.b)
                check_tail(c, T.b, S.B, S.last, "swap")
                check_tail(c, S.b, T.B, T.last, "swap")
                for i, v in p1:
                    c.eq("swap word", c.call("hb_word", T.b, i), v)
                for i, v in p2:
                    c.eq("swap word", c.call("hb_word", S.b, i), v)
                follow(c, T.b, S.B, S.last, "swap")
                follow(c, S.b, T.B, T.last, "swap")
            ctx(r, "swap of 64*%s+%d and 64*%s+%d bits" % (B1, s, B2, t), body)


def j_steal(r, s):
    """bit_vector(builder*) holds the same bits"""
    for B in BS:
        def body(c):
            S = Store(c, s, B)
            pre = earlier(c, S)
            v = c.call("hv_from", S.b)
            c.eq("vector size", c.call("hv_size", v), S.n)
            c.eq("vector words", c.call("hv_nwords", v), S.nw)
            if s:
                c.eq("vector last word", c.call("hv_word", v, S.B), zx(S.last))
            for i, w in pre:
                c.eq("vector word", c.call("hv_word", v, i), w)
            c.call("hb_del", S.b)
            for i, w in pre:
                c.eq("vector word after the builder is gone", c.call("hv_word", v, i), w)
            c.call("hv_del", v)
        ctx(r, "bit_vector(builder of 64*%s+%d bits)" % (B, s), body)


def jobs(tier):
    J = []
    thorough = tier == "thorough"
    lens = list(range(65))
    ext = sorted(set(list(range(0, 66)) + [100, 127, 128, 129, 130, 191, 192, 193, 200])) if thorough else [0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 192, 200]
    for s in range(64):
        J += [(j_ctor, (s,)), (j_push, (s,)), (j_append_bits, (s, lens)), (j_set, (s,)), (j_set_bits, (s, lens)),
              (j_steal, (s,)), (j_reserve, (s,)), (j_swap, (s,))]
        rems = list(range(64)) if thorough else sorted({0, 1, 2, 31, 32, 62, 63, (64 - s) % 64, (63 - s) % 64, (65 - s) % 64})
        J.append((j_zero_extend, (s, rems)))
        J.append((j_one_extend, (s, sorted(set(ext + [64 - s, 65 - s, 63 - s, 128 - s, 129 - s])))))
        ms = list(range(0, 200)) if thorough else sorted({0, 1, 2, 63, 64, 65, 127, 128, 129, 130, 192, 193, max(0, 63 - s), 64 - s, 65 - s, 128 - s, 129 - s, 127 - s})
        J.append((j_append, (s, ms)))
    top = 330 if thorough else 200
    for k in range(8):
        J.append((j_reverse, (list(range(k, top, 8)),)))
    return J
