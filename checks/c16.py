"""Build configuration changes no result: the contexts of the other checks in differently configured modules."""
from . import sweep, common

TITLE = "configuration independence"
CHECKS = tuple(p for p in sweep.ALL if p not in ("C04", "C19", "C20"))


def plain(v):
    """no intrinsics, no assertions, unsigned char"""
    return (v[0], 0, 0, v[3] + ("-DNDEBUG", "-funsigned-char")) if v[1] == 1 and not v[2] and "-DNDEBUG" not in v[3] else None


def fast(v):
    """intrinsics and population-count instruction, no assertions"""
    return (v[0], 1, 1, v[3] + ("-DNDEBUG",)) if v[1] == 1 and not v[2] and "-DNDEBUG" not in v[3] else None


M1, W1 = sweep.specs(CHECKS, plain)
M2, W2 = sweep.specs(CHECKS, fast)
MODS = dict(M1)
MODS.update(M2)
LAYOUT = "objs.cpp"
STRIDE = {None: 6, "C01": 12, "C02": 9, "C03": 12, "C09": 2, "C07": 5, "C22": 12, "C23": 9, "C24": 10, "C08": 8, "C06": 7, "C05": 4, "C13": 7, "C11": 12, "C12": 12, "C14": 12}


def jobs(tier):
    return sweep.collect(CHECKS, W1, None, tier, STRIDE, 1) + sweep.collect(CHECKS, W2, None, tier, STRIDE, 4)
