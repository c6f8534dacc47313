"""Sweeps: the contexts of the other checks again, for one kind of obligation (or in other build configurations)."""
import importlib
import os
import re
from engine import build
from . import common

ALL = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C18", "C19", "C20", "C21", "C22", "C23", "C24")


def specs(checks, variant=None):
    """(modules to load, (check, key) -> module name)"""
    mods, where, byspec = {}, {}, {}
    for pid in checks:
        m = importlib.import_module("checks." + pid.lower())
        for k, v in m.MODS.items():
            sp = variant(v) if variant else v
            if sp is None:
                continue
            if sp not in byspec:
                byspec[sp] = "%s.%s" % (pid, k) + ("" if variant is None else "." + variant.__name__)
                mods[byspec[sp]] = sp
            where[pid, k] = byspec[sp]
    return mods, where


def j_run(r, pid, where, mode, fn, args):
    common.NS = lambda key: where.get((pid, key)) or where[pid, "main"]
    common.MODE = mode
    try:
        fn(r, *args)
    finally:
        common.NS = common.MODE = None


def collect(checks, where, mode, tier, stride, shift=0):
    """every stride-th job of each check"""
    out = []
    for n, pid in enumerate(checks):
        m = importlib.import_module("checks." + pid.lower())
        common.NS = lambda key: where.get((pid, key)) or where[pid, "main"]
        js = m.jobs(tier)
        common.NS = None
        s = stride.get(pid, stride[None]) if tier == "quick" else 1
        for fn, args in js[(shift + n) % s::s]:
            if args and isinstance(args[0], str) and (args[0] in m.MODS) and (pid, args[0]) not in where:
                continue
            out.append((j_run, (pid, where, mode, fn, args)))
    # heavy ones are spread out
    big = ("C22", "C24", "C23", "C08", "C06")
    out.sort(key=lambda j: big.index(j[1][0]) if j[1][0] in big else 9)
    return out


def declarations(mods):
    """entry point -> indices of its pointer-to-const parameters, from the preprocessed harness"""
    out = {}
    for h in sorted({v[0] for v in mods.values()}):
        extra = next(v[3] for v in mods.values() if v[0] == h)
        w = build.Work(1, 0)
        try:
            rc, o, e = build.run([build.CXX] + w.flags() + ["-w", "-E", "-P"] + list(extra) + [os.path.join(build.VERIF, "harness", h)])
        finally:
            w.cleanup()
        if rc:
            raise build.BuildError(e[-2000:])
        o = o[-400000:]
        for k in common.M:
            if mods[k][0] != h:
                continue
            for fn, f in common.M[k].funcs.items():
                if fn.startswith("_Z") or fn in out:
                    continue
                m = re.search(r"[\s*&]%s\s*\(([^()]*)\)\s*\{" % re.escape(fn), o)
                if m:
                    ps = m.group(1).split(",")
                    out[fn] = tuple(i for i, p in enumerate(ps) if "*" in p and re.search(r"\bconst\b", p.rsplit("*", 1)[0]))
    return out
