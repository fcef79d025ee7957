"""A second process running the other configuration of the library: it is sent
cases and returns what a function computes for them.

    Peer("pure", "props.c14", "signature").call(case) -> ("ok", value) | ("error", text)
"""
import os
import pickle
import struct
import subprocess
import sys
from vlib import env


class Peer(object):
    def __init__(self, config, module, function, extdir=None):
        e = dict(os.environ)
        code = "from vlib import peer; peer.serve(%r, %r, %r, %r)" % (config, extdir, module, function)
        self.p = subprocess.Popen([env.PY, "-c", code], cwd=env.ROOT, env=e,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def call(self, case):
        b = pickle.dumps(case)
        self.p.stdin.write(struct.pack("<q", len(b)) + b)
        self.p.stdin.flush()
        return _read(self.p.stdout)


def _read(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError("the peer process ended")
    n, = struct.unpack("<q", h)
    return pickle.loads(f.read(n))


def serve(config, extdir, module, function):
    import importlib
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    sys.stdout = open(os.devnull, "w")
    env.setup_import(config, extdir)
    fun = getattr(importlib.import_module(module), function)
    while True:
        try:
            case = _read(inp)
        except EOFError:
            return
        try:
            r = ("ok", fun(case))
        except Exception as e:              # noqa: BLE001
            r = ("error", "%s: %s" % (type(e).__name__, e))
        b = pickle.dumps(r)
        out.write(struct.pack("<q", len(b)) + b)
        out.flush()
