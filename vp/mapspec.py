"""Parameter mappings described as plain data, with a reference decoder independent of the code under
test."""
from hypothesis import strategies as st
from .world import KEMPER, build
from . import gens

MANUS = [list(KEMPER), [0, 0x20, 0x29], [0x41]]

nrpn_spec = st.fixed_dictionaries({
    "kind": st.just("nrpn"), "manu": st.sampled_from([0, 0, 0, 1, 2]), "func": st.sampled_from([1, 1, 1, 6]),
    "page": st.one_of(st.sampled_from([0x32, 0x33, 4]), gens.b7), "num": st.one_of(st.sampled_from([0, 1, 3]), gens.b7),
})
str_spec = st.fixed_dictionaries({
    "kind": st.just("str"), "manu": st.sampled_from([0, 0, 1]), "func": st.sampled_from([3, 3, 7]),
    "page": st.sampled_from([0, 0, 1]), "num": st.integers(0, 32),
})
cc_spec = st.fixed_dictionaries({"kind": st.just("cc"), "c": st.one_of(st.sampled_from([32, 17, 11]), gens.b7)})
pc_spec = st.fixed_dictionaries({"kind": st.just("pc")})
two_spec = st.fixed_dictionaries({"kind": st.just("two"), "c": st.sampled_from([32, 32, 17])})
any_spec = st.one_of(nrpn_spec, nrpn_spec, str_spec, cc_spec, pc_spec, two_spec)


def request_rec(spec):
    """The request message of a parameter with this spec"""
    if spec["kind"] in ("nrpn", "str"):
        return ("sx", tuple(MANUS[spec["manu"]]), (2, 0x7f, 0x40 + spec["func"], 0, spec["page"], spec["num"]))
    # any other device: some request in system exclusive form
    return ("sx", (0x7d,), tuple([2, 0x7f, 0x41, 0, 9] + [spec.get("c", 0)]))


def response_obj(spec):
    if spec["kind"] in ("nrpn", "str"):
        return build(("sx", MANUS[spec["manu"]], (2, 0x7f, spec["func"], 0, spec["page"], spec["num"])))
    if spec["kind"] == "cc":
        return build(("cc", spec["c"], 0))
    if spec["kind"] == "pc":
        return build(("pc", 0))
    return [build(("cc", spec["c"], 0)), build(("pc", 0))]


def set_obj(spec):
    if spec["kind"] == "nrpn":
        return build(("sx", MANUS[spec["manu"]], (2, 0x7f, 1, 0, spec["page"], spec["num"])))
    if spec["kind"] in ("cc", "two"):
        return build(("cc", spec["c"], 0))
    if spec["kind"] == "pc":
        return build(("pc", 0))
    return None


def set_rec(spec, value):
    """What has to be on the wire for this value"""
    if spec["kind"] == "nrpn":
        return ("sx", tuple(MANUS[spec["manu"]]), (2, 0x7f, 1, 0, spec["page"], spec["num"], value // 128, value % 128))
    if spec["kind"] in ("cc", "two"):
        return ("cc", spec["c"], value)
    return ("pc", value)


def max_value(spec):
    return 16383 if spec["kind"] == "nrpn" else 127


def make(w, spec, name, request=True, settable=True, depends=None):
    client = w.imp("controller.client")
    cls = client.ClientTwoPartParameterMapping if spec["kind"] == "two" else client.ClientParameterMapping
    kw = {}
    if spec["kind"] == "str":
        kw["type"] = client.ClientParameterMapping.PARAMETER_TYPE_STRING
    if depends is not None:
        kw["depends"] = depends
    return cls.get(
        name=name,
        set=set_obj(spec) if settable else None,
        request=build(request_rec(spec)) if request else None,
        response=response_obj(spec), **kw)


def answer_recs(spec, value, product=2, device=0x7f):
    """The message(s) of a device reporting this value"""
    if spec["kind"] == "nrpn":
        return [("sx", tuple(MANUS[spec["manu"]]), (product, device, spec["func"], 0, spec["page"], spec["num"], value // 128, value % 128))]
    if spec["kind"] == "str":
        return [("sx", tuple(MANUS[spec["manu"]]), (product, device, spec["func"], 0, spec["page"], spec["num"]) + tuple(ord(c) for c in value) + (0,))]
    if spec["kind"] == "cc":
        return [("cc", spec["c"], value)]
    if spec["kind"] == "pc":
        return [("pc", value)]
    return [("cc", spec["c"], value // 128), ("pc", value % 128)]


class Ref:
    """Reference decoder of one parameter"""
    NO = "no"

    def __init__(self, spec):
        self.spec = spec
        self.high = None
        self.value = None

    def feed(self, rec):
        """Returns True when a complete value has been received with this message, None if it is a part of a
        value, False if the message does not concern the parameter."""
        s = self.spec
        if s["kind"] in ("nrpn", "str"):
            if rec[0] != "sx" or list(rec[1]) != MANUS[s["manu"]]:
                return False
            if tuple(rec[2][2:6]) != (s["func"], 0, s["page"], s["num"]):
                return False
            if s["kind"] == "nrpn":
                self.value = rec[2][6] * 128 + rec[2][7]
            else:
                self.value = "".join(chr(c) for c in rec[2][6:-1])
            return True
        if s["kind"] == "cc":
            if rec[0] != "cc" or rec[1] != s["c"]:
                return False
            self.value = rec[2]
            return True
        if s["kind"] == "pc":
            if rec[0] != "pc":
                return False
            self.value = rec[1]
            return True
        if rec[0] == "cc" and rec[1] == s["c"]:
            self.high = rec[2]
            return None
        if rec[0] == "pc" and self.high is not None:
            self.value = self.high * 128 + rec[1]
            self.high = None
            return True
        return False

    def addressed_but_malformed(self, rec):
        """Right address, but not the length of a single parameter answer: the value is undefined"""
        s = self.spec
        return s["kind"] in ("nrpn", "str") and rec[0] == "sx" and list(rec[1]) == MANUS[s["manu"]] and \
            tuple(rec[2][2:6]) == (s["func"], 0, s["page"], s["num"]) and \
            (len(rec[2]) != 8 if s["kind"] == "nrpn" else len(rec[2]) < 7)


class Listener:
    def __init__(self):
        self.calls = []

    def parameter_changed(self, mapping):
        self.calls.append(("changed", mapping.name, mapping.value))

    def request_terminated(self, mapping):
        self.calls.append(("terminated", mapping.name))
