"""Defined arithmetic, over the contexts of all other checks."""
from . import sweep, common
from .sweep import ALL

TITLE = "defined arithmetic"
CHECKS = ALL
MODS, WHERE = sweep.specs(CHECKS)
LAYOUT = "objs.cpp"
STRIDE = {None: 1, 'C22': 5, 'C23': 4, 'C24': 5, 'C08': 3, 'C06': 3, 'C01': 2, 'C03': 2, 'C13': 3, 'C21': 2, 'C11': 3, 'C12': 3, 'C14': 3, 'C19': 2, 'C20': 2, 'C18': 2}


def jobs(tier):
    return sweep.collect(CHECKS, WHERE, "arith", tier, STRIDE, 3)
