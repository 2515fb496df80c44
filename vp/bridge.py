"""The MIDI bridge: the web application's side runs in node (js/bridge.js), the controller's side is an independent
implementation of the documented protocol."""
import atexit
import io
import json
import os
import subprocess

from .kit import Violation
from .world import REPO, HarnessError

MANUFACTURER = (0x00, 0x7c, 0x7d)
REQUEST, START, DATA, ACK = 1, 2, 3, 4
FILE, ERROR = 0, 1
BUFFER = 100        # input buffer of the controllers (PA_MIDICAPTAIN_USB_MIDI)


def pack(data):
    """8 bit bytes to 7 bit bytes, as one stream of bits, filled up with zeros"""
    bits = "".join(f"{b:08b}" for b in data)
    bits += "0" * (-len(bits) % 7)
    return bytes(int(bits[i:i + 7], 2) for i in range(0, len(bits), 7))


def unpack(data):
    bits = "".join(f"{b:07b}" for b in data)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))


def number(n, size):
    return pack(n.to_bytes(size, "big"))


def to_number(data):
    return int.from_bytes(unpack(data), "big")


def crc(data):
    """CRC-16 (reflected, polynomial 0x6756), inverted, bytes swapped"""
    c = 0xffff
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0x6756 if c & 1 else c >> 1
    c ^= 0xffff
    return ((c << 8) | (c >> 8)) & 0xffff


def message(command, payload):
    return bytes((0xf0, *MANUFACTURER, command)) + number(crc(payload), 2) + payload + b"\xf7"


def parse(raw):
    """(command, payload) of a message of the bridge, None for others; raises ValueError if it is damaged"""
    if raw[0] != 0xf0 or raw[-1] != 0xf7 or tuple(raw[1:4]) != MANUFACTURER:
        return None
    if any(b > 127 for b in raw[1:-1]):
        raise ValueError("data bytes above 127")
    payload = bytes(raw[8:-1])
    if bytes(raw[5:8]) != number(crc(payload), 2):
        raise ValueError("checksum")
    return raw[4], payload


class Device:
    """A controller with files, which talks to one application"""

    def __init__(self, files, first_id=0, readonly=False, overwrite=True):
        self.overwrite = overwrite
        self.files = dict(files)
        self.next_id = first_id
        self.sending, self.receiving = {}, {}
        self.readonly = readonly
        self.stored = []
        self.errors = []
        self.out = []

    def emit(self, command, payload):
        self.out.append(message(command, payload))

    def send_text(self, path, text, size, kind=FILE):
        tid = number(self.next_id, 3)
        self.next_id = (self.next_id + 1) % (1 << 24)
        chunks = [text[i:i + size] for i in range(0, len(text), size)]
        self.sending[tid] = [chunks, 0]
        self.emit(START, tid + bytes((kind,)) + number(len(chunks), 3) + pack(path.encode()))
        self._chunk(tid)

    def _chunk(self, tid):
        chunks, no = self.sending[tid]
        self.emit(DATA, tid + number(no, 3) + pack(chunks[no].encode()))

    def error(self, text):
        self.send_text("", text, 40, ERROR)

    def receive(self, raw):
        m = parse(raw)
        if m is None:
            return
        command, p = m
        if command == REQUEST:
            path, size = unpack(p[4:]).decode(), to_number(p[:4])
            if path not in self.files:
                self.error(path + " not found")
            else:
                self.send_text(path, self.files[path], size)
            return
        tid, p = p[:4], p[4:]
        if command == START:
            if self.readonly and p[0] == FILE:
                self.error("read-only file system")
                return
            self.receiving[tid] = {"type": p[0], "chunks": to_number(p[1:5]), "path": unpack(p[5:]).decode(), "data": [], "no": 0}
        elif command == DATA:
            t = self.receiving.get(tid)
            no = to_number(p[:4])
            if t is None:
                self.error("transmission not found")
                return
            if no != t["no"]:
                self.error("invalid chunk")
                return
            t["no"] += 1
            t["data"].append(unpack(p[4:]).decode())
            self.emit(ACK, tid + number(no, 3))
            if t["no"] == t["chunks"]:
                del self.receiving[tid]
                if t["type"] == FILE:
                    if self.overwrite:
                        self.files[t["path"]] = "".join(t["data"])
                    self.stored.append((t["path"], "".join(t["data"])))
                else:
                    self.errors.append("".join(t["data"]))
        elif command == ACK:
            t = self.sending.get(tid)
            if t is None or to_number(p) != t[1]:
                return
            t[1] += 1
            if t[1] == len(t[0]):
                del self.sending[tid]
            else:
                self._chunk(tid)


class Web:
    """The web application's side"""

    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(__file__), "js", "bridge.js"), REPO],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.out = io.BufferedReader(self.p.stdout)
        atexit.register(self.p.kill)
        self.results, self.events, self.sent = {}, [], []

    def __call__(self, op, **args):
        self.p.stdin.write(json.dumps({"op": op, **args}).encode() + b"\n")
        line = self.out.readline()
        if not line:
            global _web
            _web = None
            raise HarnessError("the bridge process ended")
        r = json.loads(line)
        if "failed" in r:
            raise Violation(f"the web application fails on {op}: {r['failed'][:1000]}")
        if op == "reset":
            self.results, self.events, self.sent = {}, [], []
        self.results.update(r["results"])
        self.events += r["events"]
        self.sent += [(to, bytes(d)) if all(isinstance(b, int) and 0 <= b < 256 for b in d) else (to, d) for to, d in r["sent"]]

    def take(self):
        r, self.sent = self.sent, []
        return r


_web = None


def web():
    global _web
    if _web is None:
        _web = Web()
    return _web
