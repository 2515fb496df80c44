from ..kit import Test
from .. import rigs

ID = "C28"
RULE = ("Rig name displays in all settings, with rig and bank switches and a preselecting wheel around them, on a device model with different name functions (also the same name for several rigs); after each press, turn and "
        "rig change at the device the display has to show what the reference model says: name and/or position of the rig, or the preselected bank. "
        "Non-trivial: the rig has changed at least twice, or a preselection has ended.")
NOTE = "The device model reports names by the bidirectional session, or by the rig date dependency without one."

KINDS = ["bank", "rig", "bankup", "bankdown", "rigup", "rigdown", "enc"]


def cases():
    return rigs.cases(KINDS)


def run(case, rec):
    rigs.run(case, rec, ("name",), lambda s: s.dev.loaded >= 2 or s.from_preselection)


TESTS = [Test("display", cases, run, quick=1200, thorough=50000)]
