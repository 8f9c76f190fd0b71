"""Access to the allocation accounting of the libraries built with c/alloc_shim.c."""
import ctypes as C

from . import api

NAMES = ('count', 'failed', 'wrong', 'files', 'live', 'live_bytes', 'stale', 'overruns')


class Shim:
    def __init__(self, d, names=NAMES):
        for n in names:
            f = d['shim_' + n]
            f.restype, f.argtypes = C.c_int64, []
            setattr(self, n, f)
        self.reset = d['shim_reset']
        self.reset.restype = None
        self.arm = d['shim_arm']
        self.arm.argtypes = [C.c_int64, C.c_int]
        self.arm.restype = None


_shims = {}


def get(v, m):
    if (v, m) not in _shims:
        lib = api.load('wrap', v, m)
        _shims[v, m] = Shim(lib.cdll)
        _shims[v, m].lib = lib
    return _shims[v, m]
