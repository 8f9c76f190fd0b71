"""Records the calls an instance makes, so that c/threads.c can repeat them on concurrent threads."""
import ctypes as C
import os

from . import api, build

IMM, INST, ARENA, LOAD, DBL, ENV = range(6)
MAX = 16


class Call(C.Structure):
    _fields_ = [('fn', C.c_void_p), ('nargs', C.c_int32), ('returns_instance', C.c_int32), ('status', C.c_int64),
                ('kind', C.c_int32 * MAX), ('val', C.c_int64 * MAX), ('dbl', C.c_double * MAX)]


class TapeS(C.Structure):
    _fields_ = [('calls', C.POINTER(Call)), ('ncalls', C.c_int64), ('init', C.c_void_p), ('want', C.c_void_p), ('mask', C.c_void_p),
                ('size', C.c_int64), ('name', C.c_char_p), ('log_hash', C.c_uint64), ('log_count', C.c_int64), ('iupd_count', C.c_int64),
                ('clk_count', C.c_int64)]


class Ctx(C.Structure):
    _fields_ = [('tape', C.POINTER(TapeS)), ('reps', C.c_int64), ('barrier', C.c_void_p), ('scheduled', C.c_int64), ('bad_call', C.c_int64), ('bad_status', C.c_int64),
                ('bad_offset', C.c_int64), ('foreign', C.c_int64), ('rep', C.c_int64), ('no_instance', C.c_int64), ('hash', C.c_uint64),
                ('logs', C.c_int64), ('iupds', C.c_int64), ('clks', C.c_int64)]


_lib = []


def lib():
    if not _lib:
        l = C.CDLL(os.path.join(build.ensure_cached('threads'), 'threads.so'), mode=C.RTLD_GLOBAL)
        l.vt_run.restype = C.c_int64
        l.vt_run.argtypes = [C.POINTER(Ctx), C.c_int64, C.c_int, C.c_uint64, C.c_int64, C.c_int64]
        _lib.append(l)
    return _lib[0]


def _addr(fn):
    return C.cast(fn, C.c_void_p).value


def _mix(h, s):
    if s is None:
        return (h * 31 + 7) & (2**64 - 1)
    for b in s:
        h = ((h ^ b) * 1099511628211) & (2**64 - 1)
    return (h * 31 + 11) & (2**64 - 1)


class Rec:
    """looks like an api.Lib; its functions record what they are called with"""

    def __init__(self, real):
        self.real = real
        self.version, self.model = real.version, real.model
        self.calls = []
        self.names = []
        self.init = bytearray(40)
        self.want = bytearray(40)
        self.mask = bytearray(40)
        self.cells = {}          # handle -> arena offset
        self.inst = None
        L = lib()
        self.map = {_addr(api._log3): _addr(L.vt_log3), _addr(api._log2): _addr(L.vt_log2), _addr(api._iupd): _addr(L.vt_iupd),
                    _addr(api._clkupd): _addr(L.vt_clk), _addr(api._lock): _addr(L.vt_lock), _addr(api._unlock): _addr(L.vt_lock)}
        self.f = {n: self.wrap(n, fn) for n, fn in real.f.items()}
        self.env = None

    def region(self, data, mask):
        o = (len(self.init) + 15) // 16 * 16
        for a in (self.init, self.want, self.mask):
            a.extend(bytes(o - len(a)))
        self.init += data
        self.want += data
        self.mask += mask
        return o

    def wrap(self, name, fn):
        types = fn.argtypes

        def call(*args):
            c = Call()
            c.fn = _addr(fn)
            c.nargs = len(args)
            after = []
            for k, (t, x) in enumerate(zip(types, args)):
                if t is C.c_double:
                    c.kind[k], c.dbl[k] = DBL, x
                elif t in (C.c_void_p, C.c_char_p):
                    if x is None:
                        c.kind[k], c.val[k] = IMM, 0
                    elif isinstance(x, bytes):
                        c.kind[k], c.val[k] = ARENA, self.region(x + b'\0', bytes(len(x) + 1))
                    elif isinstance(x, C.Array):
                        b = bytes(x)
                        o = self.region(b, b'\1' * len(b))
                        c.kind[k], c.val[k] = ARENA, o
                        after.append((o, x))
                    elif isinstance(x, (int, C.c_void_p)):
                        v = x if isinstance(x, int) else x.value
                        if v in self.map:
                            c.kind[k], c.val[k] = IMM, self.map[v]
                        elif v == self.inst and k == 0:
                            c.kind[k] = INST
                        elif v in self.cells:
                            c.kind[k], c.val[k] = LOAD, self.cells[v]
                        elif 'Instantiate' in name:
                            c.kind[k] = ENV
                        else:
                            raise RuntimeError('cannot record argument %d of %s' % (k, name))
                    else:
                        q = x._obj
                        if isinstance(q, api.Callbacks2):
                            d = bytearray(bytes(q))
                            l = self.map.get(q.logger, 0)
                            d[:8] = l.to_bytes(8, 'little')
                            self.init[:40] = d
                            c.kind[k], c.val[k] = ARENA, 0
                        elif isinstance(q, C.c_void_p):
                            o = self.cells.pop(q.value, None)
                            if o is None:
                                o = self.region(bytes(8), bytes(8))
                            c.kind[k], c.val[k] = ARENA, o
                            after.append((o, q))
                        elif isinstance(q, api.EventInfo2):
                            b = bytes(q)
                            o = self.region(b, b'\1' * 20 + bytes(len(b) - 28) + b'\1' * 8)
                            c.kind[k], c.val[k] = ARENA, o
                            after.append((o, q))
                        else:
                            raise RuntimeError('cannot record argument %d of %s' % (k, name))
                else:
                    c.kind[k], c.val[k] = IMM, int(x)
            r = fn(*args)
            if 'Instantiate' in name:
                c.returns_instance = 1
                self.inst = r
            else:
                c.status = -1 if r is None else r
            for o, q in after:
                if isinstance(q, C.c_void_p):
                    if q.value:
                        self.cells[q.value] = o
                    continue
                b = bytes(q)
                self.want[o:o + len(b)] = b
                if r is not None and r > 1:
                    self.mask[o:o + len(b)] = bytes(len(b))
            self.calls.append(c)
            self.names.append(name)
            return r
        return call

    def finish(self, inst):
        """the tape; inst is the (freed) instance that was recorded"""
        self.arr = (Call * len(self.calls))(*self.calls)
        self.bufs = [C.create_string_buffer(bytes(x), len(x)) for x in (self.init, self.want, self.mask)]
        t = TapeS()
        t.calls = self.arr
        t.ncalls = len(self.calls)
        t.init, t.want, t.mask = [C.addressof(b) for b in self.bufs]
        t.size = len(self.init)
        t.name = inst.name.encode('utf-8', 'surrogateescape')
        h = 0
        for name, status, cat, msg in inst.raw:
            h = _mix(_mix((h * 31 + status) & (2**64 - 1), cat), msg)
        t.log_hash, t.log_count, t.iupd_count, t.clk_count = h, len(inst.raw), len(inst.iupds), inst.clks
        self.t = t
        return t


def run(tapes, reps, concurrent=True, sched=None):
    """run one thread per tape; None or a description of the first difference; sched: seed, gap and number of switches"""
    n = len(tapes)
    ctx = (Ctx * n)()
    for k, r in enumerate(tapes):
        ctx[k].tape = C.pointer(r.t)
        ctx[k].reps = reps
    if not lib().vt_run(ctx, n, 2 if sched else 1 if concurrent else 0, *(sched or (0, 0, 0))):
        return None
    for k, r in enumerate(tapes):
        x = ctx[k]
        if x.rep >= x.reps:
            continue
        w = 'instance %d, repetition %d: ' % (k, x.rep)
        if x.no_instance:
            return w + 'instantiation failed'
        if x.bad_call >= 0:
            return w + 'call %d (%s) returned %d, alone it returned %d' % (x.bad_call, r.names[x.bad_call], x.bad_status, r.calls[x.bad_call].status)
        if x.bad_offset >= 0:
            for c, nm in zip(r.calls, r.names):
                for a in range(c.nargs):
                    if c.kind[a] == ARENA and c.val[a] <= x.bad_offset:
                        best = (c, nm, a) if 'best' not in dir() or c.val[a] >= best[0].val[best[2]] else best
            return w + 'outputs of %s differ from those when alone' % best[1]
        if x.foreign:
            return w + '%d callbacks with another environment or name' % x.foreign
        return w + 'callbacks differ: %d messages (alone %d, or other texts), %d intermediate updates (alone %d), %d clock updates (alone %d)' % (
            x.logs, r.t.log_count, x.iupds, r.t.iupd_count, x.clks, r.t.clk_count)
    return None
