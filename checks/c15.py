"""Queries change nothing, over the contexts of all other checks."""
from . import sweep, common

TITLE = "queries change nothing"
CHECKS = ("C02", "C03", "C05", "C06", "C07", "C08", "C11", "C12", "C18", "C21", "C22", "C23", "C24")
MODS, WHERE = sweep.specs(CHECKS)
LAYOUT = "objs.cpp"
STRIDE = {None: 2, 'C22': 5, 'C23': 4, 'C24': 5, 'C08': 3, 'C06': 3, 'C01': 2, 'C03': 2, 'C13': 3, 'C21': 2, 'C04': 1, 'C09': 1, 'C19': 1}


def prepare():
    common.CONST = sweep.declarations(MODS)



def jobs(tier):
    return sweep.collect(CHECKS, WHERE, "const", tier, STRIDE, 1)
