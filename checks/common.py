"""Shared by the check modules: the loaded modules and the context wrapper."""
from engine.check import Ctx, MEMORY, UB
from engine.interp import Ptr, PIte

M = {}                       # module key -> parsed IR (filled by the runner)
LAY = {}                     # record layouts (checks that ask for them)
KINDS = MEMORY + UB + ("assert", "uninit", "throw")
NS = None                    # sweeps: module key of a check -> module key of the sweep
MODE = None                  # sweeps: which obligations count


def module(key):
    return M[NS(key) if NS else key]


class EventCtx(Ctx):
    """only the obligations of one kind of event count; values are not compared"""

    def eq(self, what, got, want, w=64):
        return True

    def true(self, what, cond, detail=""):
        return True

    def lit_true(self, what, l):
        return True


CONST = {}                   # entry point -> indices of its read-only arguments (from the harness declarations)


class ConstCtx(EventCtx):
    """from the first query of an object on, everything reachable from it must stay as it is"""

    def __init__(self, *a, **kw):
        Ctx.__init__(self, *a, **kw)
        self.frozen = {}         # region of the object -> regions reachable from it
        self.queries = 0

    def reach(self, rid):
        seen, todo = set(), [rid]
        mem = self.I.st.mem
        while todo:
            r = todo.pop()
            if r in seen or r not in mem:
                continue
            seen.add(r)
            for cs in mem[r].cells.values():
                for n, v in cs.values():
                    for q in ptrs(v):
                        if q > 0 and q in mem and mem[q].kind in ("new", "new[]", "malloc"):
                            todo.append(q)
        return seen

    def set_ro(self, rs, flag):
        for q in rs:
            r = self.I.st.mem.get(q)
            if r is not None and r.ro is not True and r.alive == 1:
                self.I.st.reg(q, True).ro = flag

    def call(self, fn, *args):
        co = CONST.get(fn, ())
        for k, a in enumerate(args):
            if isinstance(a, Ptr) and a.r > 0:
                if k in co:
                    if a.r not in self.frozen:
                        self.frozen[a.r] = self.reach(a.r)
                        self.set_ro(self.frozen[a.r], "shared")
                elif a.r in self.frozen:
                    self.set_ro(self.frozen.pop(a.r), False)
                    for rs in self.frozen.values():
                        self.set_ro(rs, "shared")
        I = self.I
        before = I.nstore
        I.watch = bool(co)
        self.queries += bool(co)
        try:
            return Ctx.call(self, fn, *args)
        finally:
            I.watch = False
            if co:
                self.proved += I.nstore - before


def ptrs(v):
    if isinstance(v, Ptr):
        return [v.r]
    if isinstance(v, PIte):
        return ptrs(v.a) + ptrs(v.b)
    return []


def ctx(r, key, label, body, kinds=KINDS, steps=600000, skip=None, **kw):
    cls = Ctx
    if MODE == "const":
        cls, kinds = ConstCtx, ("ro",)
    elif MODE == "memory":
        cls, kinds = EventCtx, MEMORY + ("uninit",)
    elif MODE == "arith":
        cls, kinds = EventCtx, UB
    elif MODE == "assert":
        cls, kinds = EventCtx, ("assert", "throw")
    c = cls(module(key), step_limit=steps, **kw)
    c.label = label if key == "main" else "%s [%s]" % (label, key)
    c.guarded(lambda: body(c))
    c.events(kinds, skip)
    if MODE in ("memory", "arith", "assert"):
        c.proved = max(0, {"memory": c.I.naccess, "arith": c.I.narith, "assert": c.I.nassert}[MODE] - len(c.viol))
    r.add(c)
    if not r.samples and c.proved:
        r.samples.append({"context": c.label, "obligations discharged": c.proved,
                          "functions interpreted": sorted(c.I.called)[:12]})
    return c
