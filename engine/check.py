"""Obligations, verdicts and the parallel driver."""
import json
import multiprocessing as mp
import os
import random
import sys
import threading
import time
import traceback
from . import dom as D
from . import build
from .dom import GiveUp, Sym
from .interp import Interp, Unwind, Ptr, PIte, Fn, Dead, NULL, State
from .models import Models

sys.setrecursionlimit(200000)
MEMORY = ("uaf", "oob", "null", "badfree", "doublefree", "ro")
UB = ("ubshift", "ubsigned", "ubdiv", "ubcount")


class Ctx:
    """one analysis context: fresh domain, fresh abstract machine"""

    def __init__(self, mod, models=None, tries=120, seed=1, small=0, **kw):
        D.reset()
        D.small(small)
        self.I = Interp(mod, models or Models(), **kw)
        self.mod = mod
        self.label = ""
        self.proved = 0
        self.unknown = []
        self.viol = []
        self.tries = tries
        self.rnd = random.Random(seed)
        self.given_up = None

    # ---- inputs
    def bits(self, name, n):
        return [D.free("%s.%d" % (name, i)) for i in range(n)]

    def word(self, name, w=64):
        return D.from_bits(w, self.bits(name, w))

    def int(self, name, lo, hi, w=64):
        a = D.free(name, lo, hi)
        return D.mke(w, 0, {a: 1})

    # ---- calls
    def call(self, fn, *args):
        try:
            return self.I.call(fn, list(args))
        except Unwind:
            self.I.event("throw", "exception leaves %s" % fn, None)
            raise Dead

    def throws(self, fn, *args):
        """call; (value, None) or (None, exception object) when an exception leaves the function"""
        try:
            return self.I.call(fn, list(args)), None
        except Unwind as e:
            return None, e.obj

    # ---- obligations
    def eq(self, what, got, want, w=64):
        if isinstance(got, (Ptr, PIte, Fn)) or got is None:
            self.unknown.append((self.label, what, "not an integer"))
            return False
        if D.same(got, want, w):
            self.proved += 1
            return True
        wit = self.witness(lambda env: env.val(got) % (1 << w) != env.val(want) % (1 << w),
                           D.atoms_of(got) + D.atoms_of(want))
        if wit is not None:
            env = wit
            self.viol.append(dict(kind="value", label=self.label, what=what,
                                  got=env.val(got) % (1 << w), want=env.val(want) % (1 << w),
                                  witness=self.describe(env)))
        else:
            self.unknown.append((self.label, what, "forms differ, no witness: %s vs %s" % (D.show(got), D.show(want))))
        return False

    def true(self, what, cond, detail=""):
        """a decided structural fact"""
        if cond:
            self.proved += 1
        else:
            self.viol.append(dict(kind="fact", label=self.label, what=what, detail=detail))
        return cond

    def lit_true(self, what, l):
        if l == 1:
            self.proved += 1
            return True
        wit = self.witness(lambda env: not env.lit(l), [l if l > 0 else ~l] if l not in (0, 1) else [])
        if wit is not None:
            self.viol.append(dict(kind="value", label=self.label, what=what, witness=self.describe(wit)))
        else:
            self.unknown.append((self.label, what, "undecided"))
        return False

    def witness(self, bad, atoms, guards=(), extra_guards=()):
        """an assignment of the free inputs under which `bad` holds, the guards hold and no arm ended early"""
        for k in range(self.tries):
            env = D.Env(self.chooser(k))
            try:
                if any(not env.lit(g) for g in guards):
                    continue
                if not bad(env):
                    continue
                if any(all(env.lit(g) for g in d) for d in self.I.dead):
                    continue
                return env
            except GiveUp:
                return None
            except RecursionError:
                return None
        return None

    def chooser(self, k):
        r = self.rnd
        mode = k % 6
        p = (0.5, 0.0, 1.0, 0.1, 0.9, 0.5)[mode]

        def ch(a):
            lo, hi = D.LO[a], D.HI[a]
            if lo == 0 and hi == 1:
                return int(r.random() < p) if p not in (0.0, 1.0) else int(p)
            if mode == 1:
                return lo
            if mode == 2:
                return hi
            x = r.random()
            if x < 0.3:
                return min(hi, lo + r.randrange(4))
            if x < 0.6:
                return min(hi, max(lo, (1 << r.randrange(max(1, hi.bit_length()))) + r.randrange(-2, 3)))
            return r.randint(lo, hi)
        return ch

    def describe(self, env):
        """a readable witness: only free atoms that were looked at"""
        words, ints = {}, {}
        for a, v in env.v.items():
            if a < 2 or D.DEP[a] is not None:
                continue
            n = D.NAME[a]
            if D.TAG[a] == "addr":
                continue
            if "." in n and D.HI[a] == 1:
                base, i = n.rsplit(".", 1)
                words[base] = words.get(base, 0) | (v << int(i))
            else:
                ints[n] = v
        out = {k: hex(v) for k, v in sorted(words.items())[:40]}
        out.update(sorted(ints.items())[:20])
        return out

    def events(self, kinds, skip=None):
        """turn recorded events of these kinds into violations (feasible ones) / unknowns"""
        for e in self.I.events:
            if e.kind not in kinds or (skip and skip(e)):
                continue
            if not e.guards and e.lit is None:
                if any(len(d) == 0 for d in self.I.dead) and e.kind not in ("assert",):
                    pass
                self.viol.append(dict(kind=e.kind, label=self.label, what=e.msg, loc=e.loc, witness={}))
                continue
            atoms = [g if g > 0 else ~g for g in e.guards if g not in (0, 1)]
            wit = self.guard_witness(e)
            if wit is not None:
                self.viol.append(dict(kind=e.kind, label=self.label, what=e.msg, loc=e.loc, witness=self.describe(wit)))
            else:
                self.unknown.append((self.label, e.msg, "guarded event at %s not shown feasible" % e.loc))

    def guard_witness(self, e):
        gs = [g for g in e.guards if g != 1]
        if 0 in gs:
            return None
        for k in range(self.tries * 4):
            env = D.Env(self.chooser(k))
            try:
                if any(not env.lit(g) for g in gs):
                    continue
                # an arm that ended early strictly before this event masks it
                if any(d != e.guards and len(d) <= len(gs) and all(env.lit(g) for g in d) and d != tuple(gs)[:len(d)] for d in self.I.dead):
                    continue
                if e.lit is not None and not self.sways(env, e.lit, gs):
                    continue
                return env
            except (GiveUp, RecursionError):
                return None
        return None

    def sways(self, env, lit, gs):
        """the value really changes with the uninitialised bits (everything else as in env)"""
        env.lit(lit)
        base = {a: v for a, v in env.v.items() if a > 1 and D.DEP[a] is None}
        for flip in range(3):
            def ch(a):
                if D.TAG[a] == "uninit":
                    lo, hi = D.LO[a], D.HI[a]
                    return (lo, hi, lo + hi - base.get(a, lo))[flip]
                return base[a] if a in base else D.LO[a]
            e2 = D.Env(ch)
            if all(e2.lit(g) for g in gs) and e2.lit(lit) != env.lit(lit):
                return True
        return False

    def guarded(self, body):
        """run an analysis body; undecided on GiveUp"""
        try:
            body()
            return True
        except GiveUp as e:
            self.unknown.append((self.label, "analysis", "gave up: %s" % e))
            self.given_up = str(e)
        except Dead:
            pass
        except RecursionError:
            self.unknown.append((self.label, "analysis", "recursion"))
        return False


class Result:
    def __init__(self):
        self.proved = 0
        self.contexts = 0
        self.unknown = []
        self.viol = []
        self.funcs = set()
        self.steps = 0
        self.samples = []
        self.nunk = 0

    def add(self, c):
        self.contexts += 1
        self.proved += c.proved
        self.nunk += len(c.unknown)
        if len(self.unknown) < 200:
            self.unknown += c.unknown[:5]
        if len(self.viol) < 60:
            self.viol += c.viol[:10]
        self.funcs |= c.I.called
        self.steps += c.I.steps

    def merge(self, o):
        self.proved += o.proved
        self.contexts += o.contexts
        self.nunk += o.nunk
        self.unknown = (self.unknown + o.unknown)[:300]
        self.viol = (self.viol + o.viol)[:200]
        self.funcs |= o.funcs
        self.steps += o.steps
        self.samples = (self.samples + o.samples)[:8]


_JOBS = None
_T0 = time.time()


def _one(i):
    fn, args = _JOBS[i]
    r = Result()
    box = []

    def go():
        try:
            fn(r, *args)
            box.append(None)
        except Exception:
            box.append(traceback.format_exc())
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if not box or box[0]:
        r.err = box[0] if box else "thread died"
    else:
        r.err = None
    return r


def run_jobs(jobs, budget=780, procs=8, grace=20):
    """jobs: [(function(result, *args), args)]; each runs in a forked worker"""
    global _JOBS
    _JOBS = jobs
    tot = Result()
    errs = []
    done = 0
    settled = False
    t0 = time.time()
    with mp.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_one, range(len(jobs)), chunksize=1)
        for _ in range(len(jobs)):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(left, 0.1))
            except mp.TimeoutError:
                break
            done += 1
            if r.err:
                errs.append(r.err)
            tot.merge(r)
            if tot.viol and not settled:
                # enough to report: leave the remaining contexts a short while
                settled = True
                budget = min(budget, time.time() - t0 + grace)
        pool.terminate()
    tot.jobs_done, tot.jobs = done, len(jobs)
    tot.errors = errs
    return tot
