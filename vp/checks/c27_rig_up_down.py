from ..kit import Test
from .. import rigs

ID = "C27"
RULE = ("Configurations of rig up and rig down switches (bank kept or not, all display settings) together with rig and bank switches on a device model; histories of presses and rig changes at the device "
        "(with many rigs at the ends of banks and of the whole range) are compared with a reference model: the rig loaded by each press, LEDs and labels. "
        "Non-trivial: at least two presses of rig up or down, one of them at the first or last rig of a bank.")
NOTE = "Rig up/down while a bank is preselected loads the rig from the preselected bank (unless it steps to another bank by itself), as the device does."

KINDS = ["rigup", "rigdown", "rigup", "rigdown", "rig", "bank", "bankup", "enc"]


def cases():
    from hypothesis import strategies as st
    return st.one_of(rigs.cases(KINDS), rigs.cases(KINDS[1:]))


def run(case, rec):
    rigs.run(case, rec, ("rigup", "rigdown"), lambda s: s.steps >= 2 and s.edges >= 1)


TESTS = [Test("steps", cases, run, quick=1000, thorough=50000)]
