"""The web editor outside of a browser: its JavaScript runs in node, its Python code in this process (libcst
is the one of python3-vt), both unmodified; what Pyodide does in between is done by a line based protocol."""
import ast
import atexit
import contextlib
import importlib
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
import types
from unittest import mock

from .kit import Violation
from .world import CONTENT, REPO, HarnessError

WEB = os.path.join(REPO, "web", "htdocs")
PY = os.path.join(WEB, "python")

# Names used by the editor's Python code; kept out of sys.modules otherwise
TOP = ("parser", "mocks", "wrappers")


class JsObject:
    """What Pyodide hands over for a JavaScript object"""

    def __init__(self, data):
        self._data = data

    def to_py(self):
        return json.loads(json.dumps(self._data))


def _js_module():
    m = types.ModuleType("js")
    m.document = types.SimpleNamespace(getElementById=lambda i: None)
    m.externalRefs = None
    return m


class Editor:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-editor-")
        os.symlink(os.path.join(WEB, "definitions"), os.path.join(self.dir, "definitions"))
        os.symlink(os.path.join(CONTENT, "lib", "pyswitch"), os.path.join(self.dir, "pyswitch"))
        atexit.register(shutil.rmtree, self.dir, True)
        self.modules = {}
        self.objects = {}
        self.node = None
        self.n = 0

    @contextlib.contextmanager
    def python(self):
        """Environment of the editor's Python code"""
        path, cwd = list(sys.path), os.getcwd()
        saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in TOP + ("js", "pyswitch")}
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self.modules)
        sys.modules["js"] = _js_module()
        sys.path[:0] = [PY, os.path.join(CONTENT, "lib")]
        os.chdir(self.dir)
        old = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            sys.dont_write_bytecode = old
            os.chdir(cwd)
            sys.path[:] = path
            self.modules = {k: v for k, v in sys.modules.items() if k.split(".")[0] in TOP}
            for k in [k for k in sys.modules if k.split(".")[0] in TOP + ("js", "pyswitch")]:
                del sys.modules[k]
            sys.modules.update(saved)

    def parser(self):
        """The editor's Python parser, used directly"""
        with self.python():
            return importlib.import_module("parser.PySwitchParser").PySwitchParser("", json.dumps(self.clients()))

    def clients(self):
        d = os.path.join(CONTENT, "lib", "pyswitch", "clients")
        return [f for f in sorted(os.listdir(d)) if os.path.isdir(os.path.join(d, f)) and f != "__pycache__"]

    # -- node ---------------------------------------------------------------------------------------------

    def _start(self):
        self.node = subprocess.Popen(["node", os.path.join(os.path.dirname(__file__), "js", "editor.js"), REPO],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.out = io.BufferedReader(self.node.stdout)
        atexit.register(self.node.kill)

    def _send(self, obj):
        self.node.stdin.write(json.dumps(obj).encode() + b"\n")

    def call(self, op, **args):
        """Runs an operation of the editor. A failure inside of the editor raises Violation."""
        if not self.node:
            self._start()
        self._send({"op": op, **args})
        while True:
            line = self.out.readline()
            if not line:
                self.node = None
                raise HarnessError("the editor process ended")
            msg = json.loads(line)
            if "done" in msg:
                return msg["done"]
            if "failed" in msg:
                raise Violation(f"the editor fails on {op}: {msg['failed'][:1500]}")
            try:
                self._send({"result": self._run(msg)})
            except Exception as e:      # handed to JavaScript, like in Pyodide
                self._send({"error": f"{type(e).__name__}: {e}"})

    def _run(self, msg):
        with self.python():
            if "run" in msg:
                tree = ast.parse(textwrap.dedent(msg["run"]))
                ns = {}
                last = tree.body.pop()
                exec(compile(tree, "<pyodide>", "exec"), ns)
                return self._encode(eval(compile(ast.Expression(last.value), "<pyodide>", "eval"), ns))
            obj = self.objects[msg["call"]]
            args = [JsObject(a) if isinstance(a, (dict, list)) else a for a in msg["args"]]
            return self._encode(getattr(obj, msg["method"])(*args))

    def _encode(self, v):
        if v is None or isinstance(v, (str, int, float, bool)):
            return v
        if isinstance(v, dict):
            return {"$dict": v}
        self.n += 1
        self.objects[self.n] = v
        self.objects.pop(self.n - 8, None)      # few parsers are in use at a time
        attributes = {k: a for k, a in vars(v).items() if not k.startswith("_") and isinstance(a, (str, int))}
        return {"$proxy": self.n, "attributes": attributes}


_editor = None


def editor():
    global _editor
    if _editor is None:
        _editor = Editor()
    return _editor
