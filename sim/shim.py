"""File-operation seam: builds and drives shim.c (preloaded)."""
import ctypes
import hashlib
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), ".cache")

# faults
NONE, ERROR, SHORT_THEN_ERROR, SHORT, EINTR, KILL_BEFORE, KILL_AFTER, TORN_KILL = range(8)
OPS = ["open", "write", "close", "mkdir", "truncate", "rename", "unlink", "sync"]


def build():
    src = os.path.join(HERE, "shim.c")
    with open(src, "rb") as f:
        hsh = hashlib.sha1(f.read()).hexdigest()[:12]
    so = os.path.join(CACHE, "shim-%s.so" % hsh)
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("shim: " + r.stderr)
        os.replace(tmp, so)
    return so


class Shim:
    def __init__(self):
        so = os.environ.get("VERIF_SHIM")
        if not so:
            raise RuntimeError("file-operation shim is not loaded")
        self.l = ctypes.CDLL(so)
        self.l.vf_path.restype = ctypes.c_char_p
        if not self.l.vf_loaded():
            raise RuntimeError("file-operation shim is not preloaded")

    def arm(self, prefix, suffixes=(), k=-1, fault=NONE, err=28, opmask=0xFFFF):
        self.l.vf_arm(prefix.encode(), ",".join(suffixes).encode(), int(k), int(fault), int(err), int(opmask))

    def disarm(self):
        self.l.vf_disarm()

    def count(self):
        return self.l.vf_count()

    def fired(self):
        return self.l.vf_fired()

    def log(self):
        """[(operation, path)] counted since arm"""
        return [(OPS[self.l.vf_op(i)], self.l.vf_path(i).decode()) for i in range(min(self.l.vf_count(), 4000))]


_SHIM = []


def get():
    if not _SHIM:
        _SHIM.append(Shim())
    return _SHIM[0]
