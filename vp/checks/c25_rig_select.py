from ..kit import Test
from .. import rigs

ID = "C25"
RULE = ("Configurations of rig select switches (all combinations of rig, bank, off rig and bank, 'auto', exclusions, display modes, colours and texts), together with bank switches and a preselecting wheel, "
        "on a device model; histories of presses, turns and rig changes at the device are compared with a reference model: the rig loaded by each press, LEDs and labels. "
        "Non-trivial: at least two rigs loaded by presses of rig select switches.")
NOTE = "The device model follows the documented Kemper controllers (CC47 preselects a bank, CC50-54 load a rig, CC32 and a program change report it). 'auto' without any rig to remember and the blink phase of preselection are not specified."

KINDS = ["rig", "rig", "rig", "rig", "bank", "bankup", "bankdown", "rigup", "enc"]


def cases():
    return rigs.cases(KINDS)


def run(case, rec):
    n = sum(op[0] in ("tap", "hold") and case["switches"][op[1]]["k"] == "rig" for op in case["ops"])
    rigs.run(case, rec, ("rig",), lambda s: n >= 2)


TESTS = [Test("rigs", cases, run, quick=900, thorough=40000)]
