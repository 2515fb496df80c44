"""The web application's virtual Kemper, running in node (js/virtual.js)"""
import atexit
import io
import json
import os
import subprocess

from .kit import Violation
from .world import REPO, HarnessError


class Virtual:
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(__file__), "js", "virtual.js"), REPO],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.out = io.BufferedReader(self.p.stdout)
        atexit.register(self.p.kill)
        self.sent = []

    def __call__(self, op, lenient=False, **args):
        try:
            self.p.stdin.write(json.dumps({"op": op, **args}).encode() + b"\n")
            line = self.out.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            global _virtual
            _virtual = None
            raise HarnessError("the process of the virtual Kemper ended")
        r = json.loads(line)
        if r["failed"]:
            raise Violation(f"the virtual Kemper fails on {op} {args}: {r['failed'][:1000]}")
        if r["warnings"] and not lenient:
            raise Violation(f"the virtual Kemper does not process {op} {args}: {r['warnings'][0][:1000]}")
        if op == "reset":
            self.sent = []
        self.sent += r["sent"]
        return r["result"]

    def take(self):
        r, self.sent = self.sent, []
        return r


_virtual = None


def virtual():
    global _virtual
    if _virtual is None:
        _virtual = Virtual()
    return _virtual
