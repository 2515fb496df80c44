"""The web application, running in node with stand-ins for the browser (js/webapp.js)"""
import atexit
import io
import json
import os
import select
import subprocess

from .kit import Violation
from .world import REPO, HarnessError


TIMEOUT_S = int(os.environ.get("VERIF_WEBAPP_TIMEOUT", "120"))


class WebApp:
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(os.path.dirname(__file__), "js", "webapp.js"), REPO],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.out = io.BufferedReader(self.p.stdout)
        atexit.register(self.p.kill)

    def __call__(self, opname, **args):
        global _webapp
        try:
            self.p.stdin.write(json.dumps({"op": opname, **args}).encode() + b"\n")
            if not select.select([self.p.stdout], [], [], TIMEOUT_S)[0]:
                self.p.kill()
                _webapp = None
                raise Violation(f"the web application does not come to an end on {opname} {str(args)[:300]}")
            line = self.out.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            _webapp = None
            raise HarnessError("the process of the web application ended")
        r = json.loads(line)
        if "failed" in r:
            if REPO not in r["failed"]:
                raise HarnessError(f"{opname} {args}: {r['failed'][:1500]}")
            raise Violation(f"the web application fails on {opname} {str(args)[:300]}: {r['failed'][:1000]}")
        return r["result"]


_webapp = None


def webapp():
    global _webapp
    if _webapp is None:
        _webapp = WebApp()
    return _webapp
