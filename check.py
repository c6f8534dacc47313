#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current tree by static analysis."""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
sys.dont_write_bytecode = True

from concurrent.futures import ProcessPoolExecutor  # noqa: E402
from engine import build  # noqa: E402
from engine.interp import static_init  # noqa: E402
from engine.models import Models  # noqa: E402
from engine.check import run_jobs, Result  # noqa: E402


def load_one(args):
    src, intr, pop, extra = args
    w = build.Work(intr, pop)
    try:
        opt = "function(sroa)"
        ex = list(extra)
        m = build.load(src if src.startswith("/") else os.path.join(HERE, "harness", src), w, ex, opt)
        static_init(m, Models())
        return m
    finally:
        w.cleanup()


def known(pid):
    """findings listed for this property: (pattern, text)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


def width_rule(res, pat, extra):
    """narrow integers met by growing quantities (engine/width.py), in the functions matching pat"""
    from engine import width
    n = None
    for intr in (1,) if extra else (1, 0):
        w = build.Work(intr, 0)
        try:
            m = build.load(os.path.join(HERE, "harness", "width.cpp"), w)
            W = width.Width(m, build.REPO)
            rep = W.report()
        except Exception:
            if not extra:
                raise
            traceback.print_exc()
            return {}
        finally:
            w.cleanup()
        for loc, fn, what in rep:
            loc = os.path.basename(loc)
            if re.search(pat, loc + " " + fn):
                res.viol.append(dict(kind="width", loc=loc, label=fn, what=what))
        if not extra:
            res.proved += W.sites
            res.funcs |= {f for f, o in W.own.items() if o}
        n = W.sites, W.narrow, len(W.ret), len(W.field)
    return {"width_sites": n[0], "width_narrowings_examined": n[1], "width_growing_results": n[2], "width_growing_fields": n[3]}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("checks.%s" % pid.lower())
    from checks import common
    mods = getattr(mod, "MODS", {})
    try:
        if mods:
            with ProcessPoolExecutor(min(8, len(mods))) as ex:
                for k, m in zip(mods, ex.map(load_one, mods.values())):
                    common.M[k] = m
        if hasattr(mod, "LAYOUT"):
            from engine import layout
            w = build.Work(1, 0)
            try:
                common.LAY = layout.dump(os.path.join(HERE, "harness", mod.LAYOUT), w)
            finally:
                w.cleanup()
        if hasattr(mod, "prepare"):
            mod.prepare()
        if hasattr(mod, "jobs"):
            res = run_jobs(mod.jobs(tier), budget=400 if tier == "quick" else 6 * 3600, grace=20 if not known(pid) else 10000)
        else:
            res = Result()
            res.errors, res.jobs, res.jobs_done = [], 1, 1
        extra = {}
        if hasattr(mod, "static"):
            extra = mod.static(res, tier) or {}
        if hasattr(mod, "WIDTH"):
            extra.update(width_rule(res, mod.WIDTH, len(mods) > 0))
    except build.BuildError as e:
        print("the analysed sources do not compile:\n%s" % e)
        sys.exit(2)
    for e in res.errors[:3]:
        sys.stderr.write(e + "\n")
    # ------------------------------------------------ verdict
    kn = known(pid)
    news, hit = [], set()
    for v in res.viol:
        text = "%s | %s | %s | %s" % (v.get("kind"), v.get("loc", ""), v.get("label"), v.get("what"))
        for key, msg in kn:
            if key in text:
                hit.add((key, msg))
                break
        else:
            news.append(v)
    seen, uniq = set(), []
    for v in news:
        k = (v.get("kind"), v.get("loc"), v.get("what"))
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    cov = {
        "explanation": getattr(mod, "EXPLAIN", "abstract interpretation of the LLVM IR of /repo's current sources; every context quantifies over free bits and symbolic lengths"),
        "obligations": res.proved + res.nunk + len(res.viol),
        "discharged": res.proved,
        "contexts": res.contexts,
        "undecided": res.nunk,
        "undecided_samples": [list(map(str, u)) for u in res.unknown[:5]],
        "ir_instructions_interpreted": res.steps,
        "functions_analysed": len(res.funcs),
        "repo_functions": sorted(f for f in res.funcs if "succinct" in f)[:200],
        "modules": {k: list(map(str, v[:3])) for k, v in mods.items()},
        "jobs": "%d of %d" % (res.jobs_done, res.jobs),
        "internal_errors": len(res.errors),
        "samples": res.samples,
        "rule": getattr(mod, "RULE", "an obligation is discharged when both sides have the same normal form; it is violated only by a concrete assignment of the free inputs"),
    }
    cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(uniq)}
    os.makedirs("evidence", exist_ok=True)
    with open("evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d contexts, %d obligations discharged, %d undecided, %d violations, %.1f s" %
          (pid, tier, res.contexts, res.proved, res.nunk, len(uniq), time.time() - t0))
    for key, msg in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, msg))
    if uniq:
        rp = "evidence/%s.violation.json" % pid
        with open(rp, "w") as f:
            json.dump(uniq[:40], f, indent=1, default=str)
        for v in uniq[:6]:
            print("  %s at %s: %s [%s] %s" % (v.get("kind"), v.get("loc", "-"), v.get("what"), v.get("label"),
                                             {k: x for k, x in v.items() if k in ("got", "want", "witness", "detail")}))
        print("VIOLATION property=%s replay=/verif/%s" % (pid, rp))
        sys.exit(1)
    if res.proved == 0:
        print("nothing was decided: no obligation discharged")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
