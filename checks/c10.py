"""Memory safety, over the contexts of all other checks."""
from . import sweep, common
from .sweep import ALL

TITLE = "memory safety"
CHECKS = ALL
MODS, WHERE = sweep.specs(CHECKS)
LAYOUT = "objs.cpp"
STRIDE = {None: 1, 'C22': 5, 'C23': 4, 'C24': 5, 'C08': 3, 'C06': 3, 'C01': 2, 'C03': 2, 'C13': 3, 'C21': 2, 'C02': 2, 'C11': 2, 'C12': 2, 'C14': 2}


def jobs(tier):
    return sweep.collect(CHECKS, WHERE, "memory", tier, STRIDE, 3)
