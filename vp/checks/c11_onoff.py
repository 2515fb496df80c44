from ..kit import Test
from ..world import World
from ..app import expect
from .. import binary

ID = "C11"
RULE = ("One to three on/off actions (control change, NRPN with polling, two message parameters, separate disable parameters) with random comparison, reference, enable and disable values (including 'auto'), a device which stores, answers or stays silent, "
        "and histories of presses and device side changes; all messages and states are compared with a reference model. Non-trivial: at least one value was sent and one device value changed a state or an 'auto' value.")
NOTE = "What is sent for a list containing an 'auto' value which has not been resolved yet is left undefined."


def run(case, rec):
    with World() as w:
        rig = binary.Rig(w, case)
        rig.start()
        sent = changed = 0
        for op in case["ops"]:
            before = [(r.state, list(r.off)) for r in rig.refs]
            exp, got = rig.do(op)
            if exp is not None:
                expect(got == exp, f"{op} sent {got}, expected {exp} (history {case['ops']})")
                sent += len(exp)
            for i, (r, a) in enumerate(zip(rig.refs, rig.actions)):
                expect(a.state == r.state, f"action {i} shows state {a.state} after {op}, expected {r.state} (device value {r.value}, history {case['ops']})")
            if op[0] in ("report", "silence") and before != [(r.state, list(r.off)) for r in rig.refs]:
                changed += 1
        rec.nontrivial_if(sent > 0 and changed > 0)
        rec.label("values sent", sent)
        rec.label("device changes followed", changed)
        rec.label("auto", sum(any(r.auto) for r in rig.refs))


TESTS = [Test("values", lambda: binary.cases(), run, quick=3000, thorough=80000)]
