from ..kit import Test
from .. import rigs

ID = "C26"
RULE = ("Configurations of bank select, bank up and bank down switches (with and without preselection, off bank, highest bank, all display settings) and a preselecting wheel, together with rig switches, "
        "on a device model; histories of presses, turns and rig changes at the device are compared with a reference model: the rig loaded by each press, the bank preselected at the device, LEDs and labels. "
        "Non-trivial: a preselected bank was loaded, or at least two banks loaded directly.")
NOTE = "While a preselection is active, the displays of bank up/down are not checked; the bank displays are not checked while the wheel preselects (unit tests pin that it changes the value they show)."

KINDS = ["bank", "bankup", "bankdown", "bank", "bankup", "bankdown", "rig", "rigup", "enc"]


def cases():
    from hypothesis import strategies as st
    return st.one_of(rigs.cases(KINDS), rigs.cases(KINDS[1:3] + KINDS), rigs.cases(["bankdown"] + KINDS))


def run(case, rec):
    n = sum(op[0] in ("tap", "hold") and case["switches"][op[1]]["k"] in ("bank", "bankup", "bankdown") and not case["switches"][op[1]]["preselect"] for op in case["ops"])
    rigs.run(case, rec, ("bank", "bankup", "bankdown"), lambda s: n >= 2 or s.from_preselection)


TESTS = [Test("banks", cases, run, quick=1200, thorough=50000)]
