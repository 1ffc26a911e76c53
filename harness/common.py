"""Shared constants (published game formulas, independent of the repository) and small helpers."""
from symx.dual import *  # noqa: F401,F403

# level -> main, sub, div, fAP, fAP tank, tenacity const  ("test" version uses the level-90 row)
LV = {
    90: dict(main=390, sub=400, div=1900, ap=195, ap_tank=156, ten=100),
    100: dict(main=440, sub=420, div=2780, ap=237, ap_tank=190, ten=112),
}
VERSIONS = (("test", 90), ("6.55", 90), ("7.0", 100), ("7.05", 100), ("7.1", 100))
JOB_MOD = {"SCH": 115, "SGE": 115, "WHM": 115, "AST": 115, "WAR": 105, "DRK": 105, "PLD": 100, "GNB": 100,
           "SAM": 112, "DRG": 115, "RPR": 115, "MNK": 110, "NIN": 110, "VPR": 110, "DNC": 115, "MCH": 115,
           "BRD": 115, "RDM": 115, "SMN": 115, "BLM": 115, "PCT": 115}
TANKS = ("WAR", "DRK", "PLD", "GNB")
HEALERS = ("SCH", "SGE", "WHM", "AST")
MELEE = ("SAM", "DRG", "RPR", "MNK", "NIN", "VPR")
RANGED = ("DNC", "MCH", "BRD")
CASTERS = ("RDM", "SMN", "BLM", "PCT")


def lv(version, level):
    return LV[90 if version == "test" else level]


def ceil_div(a, b):
    return 0 - ((0 - a) // b)
