"""A model of the Kemper device as the controller knows it: parameters at NRPN addresses, the effect
slot controllers, rigs and banks with preselection, tuner mode and the bidirectional session. It sits at
the MIDI port of an App and answers what is sent to it. Written from the Kemper MIDI documentation and
the descriptions in the README; nothing here is taken from the objects under test."""
from .world import KEMPER, nrpn_value, nrpn_string, sense

SLOTS = ["A", "B", "C", "D", "X", "MOD", "DLY", "REV", "DLYns", "REVns"]
SLOT_CC = dict(zip(SLOTS, [17, 18, 19, 20, 22, 24, 27, 29, 26, 28]))
SLOT_PAGE = dict(zip(SLOTS, [0x32, 0x33, 0x34, 0x35, 0x38, 0x3a, 0x3c, 0x3d, 0x3c, 0x3d]))
FREEZE = dict(zip(SLOTS, [0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x71, 0x72, 0x73, 0x72, 0x73]))
TUNER = (0x7f, 0x7e)
MORPH = (0x00, 0x0b)
BPM = (0x04, 0x00)
RIGS = 625


class Device:
    """answers: parameters without a known value are not answered"""

    def __init__(self, app=None, rig=0, bidirectional=True, params=None, names=None, slow=False, tuner=True):
        self.params = {}
        for p in list(SLOT_PAGE.values()):
            self.params[(p, 0)] = 0
            self.params[(p, 3)] = 0
        self.params[TUNER] = 0
        self.params.update(params or {})
        self.rig = rig
        self.names = names or (lambda r: "Rig %d" % r)
        self.comment = lambda r: "Comment %d" % r
        self.rig_params = None         # optional: rig -> {address: value}, loaded with the rig
        self.can_session = bidirectional
        self.session = False
        self.with_tuner = False
        self.preselected = None
        self.loaded = 0                # rig load operations, including the same rig again
        self.requests = []
        self.received = []             # everything but requests and beacons
        self.unknown = []
        self.no_types = ()             # effect types this device does not have
        self.mute = False              # does not answer anything
        self.last_sense = None
        self.app = None
        if app is not None:
            self.attach(app)

    def attach(self, app):
        self.app = app
        app.port.on_send = self.on_send
        return self

    # ------------------------------------------------ output
    def out(self, *recs):
        if not self.mute:
            self.app.port.push(*recs)

    def _covered(self, a):
        if a[0] in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) and a[1] in (0, 3):
            return True
        return a == TUNER or (self.with_tuner and a in ((0x7d, 0x54), (0x7c, 0x0f)))

    def set(self, page, number, value):
        """A change of a value at the device itself"""
        if number == 0 and page in SLOT_PAGE.values() and value in self.no_types:
            return
        self.params[(page, number)] = value
        if self.session and self._covered((page, number)):
            self.report(page, number)

    def report(self, page, number):
        self.out(nrpn_value(page, number, self.params[(page, number)]))

    def report_rig(self):
        self.out(("cc", 32, self.rig // 128), ("pc", self.rig % 128))

    def string(self, number, rig=None):
        r = self.rig if rig is None else rig
        return {1: self.names(r), 3: "Date %d" % r, 4: self.comment(r), 0x10: "Amp %d" % r, 0x20: "Cab %d" % r}.get(number)

    def load(self, rig, report=True):
        """Also to be used for a change at the device itself, which keeps a bank preselection"""
        self.rig = rig % RIGS
        self.loaded += 1
        if self.rig_params is not None:
            for a, v in self.rig_params(self.rig).items():
                self.set(a[0], a[1], v)
        if report:
            self.report_rig()
        if self.session:
            self.out(nrpn_string(0, 1, self.string(1)))

    @property
    def bank(self):
        return self.rig // 5

    def tick(self):
        """To be called from time to time: sense messages of the session"""
        if self.session and (self.last_sense is None or self.app.w.clock.ms - self.last_sense >= 500):
            self.last_sense = self.app.w.clock.ms
            self.out(sense())

    # ------------------------------------------------ input
    def on_send(self, r):
        if self.mute:
            return
        if r[0] == "sx" and tuple(r[1]) == KEMPER:
            d = r[2]
            fn = d[2]
            if fn == 0x41 and len(d) == 6:
                self.requests.append((d[4], d[5]))
                if (d[4], d[5]) in self.params:
                    self.report(d[4], d[5])
                return
            if fn == 0x43 and len(d) == 6:
                self.requests.append(("s", d[5]))
                s = self.string(d[5]) if d[4] == 0 else None
                if s is not None:
                    self.out(nrpn_string(0, d[5], s))
                return
            if fn == 0x7e and d[4] == 0x40:
                if self.can_session:
                    init = d[6] & 1
                    self.with_tuner = bool(d[6] & 0x20)
                    if init or not self.session:
                        self.session = True
                        self.last_sense = None
                        self.tick()
                        for a in sorted(self.params):
                            if self._covered(a):
                                self.report(*a)
                        self.out(nrpn_string(0, 1, self.string(1)))
                return
            self.received.append(r)
            if fn == 0x01 and len(d) == 8:
                self.params[(d[4], d[5])] = d[6] * 128 + d[7]
                self.changed = (d[4], d[5])
                return
            self.unknown.append(r)
            return
        self.received.append(r)
        if r[0] == "cc":
            n, v = r[1], r[2]
            for s, c in SLOT_CC.items():
                if c == n:
                    self.set(SLOT_PAGE[s], 3, 1 if v else 0)
                    return
            if n == 31:
                self.set(*TUNER, 1 if v else 0)
            elif n == 32:
                self._msb = v
            elif n == 47:
                self.preselected = v
            elif n == 48:
                self.preselected = None
                self.load(self.rig + 5)
            elif n == 49:
                self.preselected = None
                self.load(self.rig - 5)
            elif 50 <= n <= 54:
                if v:
                    bank = self.bank if self.preselected is None else self.preselected
                    self.preselected = None
                    if bank * 5 + n - 50 < RIGS:
                        self.load(bank * 5 + n - 50)
            elif n in (11, 80, 30, 35, 75, 76, 77, 78, 1, 4, 7, 68, 69, 70, 71, 73):
                pass
            else:
                self.unknown.append(r)
        elif r[0] == "pc":
            self.load(getattr(self, "_msb", 0) * 128 + r[1])
        else:
            self.unknown.append(r)
