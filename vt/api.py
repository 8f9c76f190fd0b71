"""ctypes bindings and an op interpreter for FMI 2.0 / 3.0 instances.

An op is a JSON list [name, args...].  Inst.do(op) performs it on the FMU and
returns a JSON-able result [status, outputs...]; outputs are only reported if
the call succeeded (status 0 or 1).
"""
import ctypes as C
import math
import os
import struct
import zlib
import xml.etree.ElementTree as ET

from . import build

TYPES3 = {
    'Float32': C.c_float, 'Float64': C.c_double, 'Int8': C.c_int8, 'UInt8': C.c_uint8, 'Int16': C.c_int16,
    'UInt16': C.c_uint16, 'Int32': C.c_int32, 'UInt32': C.c_uint32, 'Int64': C.c_int64, 'UInt64': C.c_uint64,
    'Boolean': C.c_bool, 'String': C.c_char_p, 'Binary': C.c_void_p,
}
RAW = dict(TYPES3, vr=C.c_uint32, size=C.c_size_t, ptr=C.c_void_p, i32=C.c_int32, Real=C.c_double, Integer=C.c_int32,
           Bool2=C.c_int32, Clock=C.c_bool, Qualifier=C.c_int, Bytes=C.c_uint8)
TYPES2 = {'Real': C.c_double, 'Integer': C.c_int32, 'Boolean': C.c_int32, 'String': C.c_char_p}

LOG2 = C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_char_p)
LOG2V = C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_char_p, C.c_void_p)   # with one variadic argument
LOG3 = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p, C.c_char_p)
IUPD = C.CFUNCTYPE(None, C.c_void_p, C.c_double, C.c_bool, C.c_bool, C.c_bool, C.c_bool,
                   C.POINTER(C.c_bool), C.POINTER(C.c_double))
CLKUPD = C.CFUNCTYPE(None, C.c_void_p)
LOCK = C.CFUNCTYPE(None)

OK, WARNING, DISCARD, ERROR, FATAL, PENDING = range(6)
ME, CS, SE = 'ME', 'CS', 'SE'

vp = C.c_void_p
sz = C.c_size_t
dbl = C.c_double
u32 = C.c_uint32
cp_ = C.c_char_p
_b3 = C.c_bool

SIG3 = {
    'GetVersion': (cp_, []),
    'SetDebugLogging': [vp, _b3, sz, vp],
    'InstantiateModelExchange': (vp, [cp_, cp_, cp_, _b3, _b3, vp, vp]),
    'InstantiateCoSimulation': (vp, [cp_, cp_, cp_, _b3, _b3, _b3, _b3, vp, sz, vp, vp, vp]),
    'InstantiateScheduledExecution': (vp, [cp_, cp_, cp_, _b3, _b3, vp, vp, vp, vp, vp]),
    'FreeInstance': (None, [vp]),
    'EnterInitializationMode': [vp, _b3, dbl, dbl, _b3, dbl],
    'ExitInitializationMode': [vp], 'EnterEventMode': [vp], 'Terminate': [vp], 'Reset': [vp],
    'GetBinary': [vp, vp, sz, vp, vp, sz], 'SetBinary': [vp, vp, sz, vp, vp, sz],
    'GetClock': [vp, vp, sz, vp], 'SetClock': [vp, vp, sz, vp],
    'GetNumberOfVariableDependencies': [vp, u32, vp],
    'GetVariableDependencies': [vp, u32, vp, vp, vp, vp, sz],
    'GetFMUState': [vp, vp], 'SetFMUState': [vp, vp], 'FreeFMUState': [vp, vp],
    'SerializedFMUStateSize': [vp, vp, vp], 'SerializeFMUState': [vp, vp, vp, sz],
    'DeserializeFMUState': [vp, vp, sz, vp],
    'GetDirectionalDerivative': [vp, vp, sz, vp, sz, vp, sz, vp, sz],
    'GetAdjointDerivative': [vp, vp, sz, vp, sz, vp, sz, vp, sz],
    'EnterConfigurationMode': [vp], 'ExitConfigurationMode': [vp],
    'GetIntervalDecimal': [vp, vp, sz, vp, vp], 'GetIntervalFraction': [vp, vp, sz, vp, vp, vp],
    'GetShiftDecimal': [vp, vp, sz, vp], 'GetShiftFraction': [vp, vp, sz, vp, vp],
    'SetIntervalDecimal': [vp, vp, sz, vp], 'SetIntervalFraction': [vp, vp, sz, vp, vp],
    'SetShiftDecimal': [vp, vp, sz, vp], 'SetShiftFraction': [vp, vp, sz, vp, vp],
    'EvaluateDiscreteStates': [vp],
    'UpdateDiscreteStates': [vp, vp, vp, vp, vp, vp, vp],
    'EnterContinuousTimeMode': [vp], 'CompletedIntegratorStep': [vp, _b3, vp, vp],
    'SetTime': [vp, dbl], 'SetContinuousStates': [vp, vp, sz], 'GetContinuousStateDerivatives': [vp, vp, sz],
    'GetEventIndicators': [vp, vp, sz], 'GetContinuousStates': [vp, vp, sz],
    'GetNominalsOfContinuousStates': [vp, vp, sz], 'GetNumberOfEventIndicators': [vp, vp],
    'GetNumberOfContinuousStates': [vp, vp], 'EnterStepMode': [vp],
    'GetOutputDerivatives': [vp, vp, sz, vp, vp, sz],
    'DoStep': [vp, dbl, dbl, _b3, vp, vp, vp, vp],
    'ActivateModelPartition': [vp, u32, dbl],
}
for _t in TYPES3:
    if _t != 'Binary':
        SIG3['Get' + _t] = [vp, vp, sz, vp, sz]
        SIG3['Set' + _t] = [vp, vp, sz, vp, sz]

SIG2 = {
    'GetTypesPlatform': (cp_, []), 'GetVersion': (cp_, []),
    'SetDebugLogging': [vp, C.c_int, sz, vp],
    'Instantiate': (vp, [cp_, C.c_int, cp_, cp_, vp, C.c_int, C.c_int]),
    'FreeInstance': (None, [vp]),
    'SetupExperiment': [vp, C.c_int, dbl, dbl, C.c_int, dbl],
    'EnterInitializationMode': [vp], 'ExitInitializationMode': [vp], 'Terminate': [vp], 'Reset': [vp],
    'GetFMUstate': [vp, vp], 'SetFMUstate': [vp, vp], 'FreeFMUstate': [vp, vp],
    'SerializedFMUstateSize': [vp, vp, vp], 'SerializeFMUstate': [vp, vp, vp, sz],
    'DeSerializeFMUstate': [vp, vp, sz, vp],
    'GetDirectionalDerivative': [vp, vp, sz, vp, sz, vp, vp],
    'EnterEventMode': [vp], 'NewDiscreteStates': [vp, vp], 'EnterContinuousTimeMode': [vp],
    'CompletedIntegratorStep': [vp, C.c_int, vp, vp],
    'SetTime': [vp, dbl], 'SetContinuousStates': [vp, vp, sz], 'GetDerivatives': [vp, vp, sz],
    'GetEventIndicators': [vp, vp, sz], 'GetContinuousStates': [vp, vp, sz],
    'GetNominalsOfContinuousStates': [vp, vp, sz],
    'SetRealInputDerivatives': [vp, vp, sz, vp, vp], 'GetRealOutputDerivatives': [vp, vp, sz, vp, vp],
    'DoStep': [vp, dbl, dbl, C.c_int], 'CancelStep': [vp],
    'GetStatus': [vp, C.c_int, vp], 'GetRealStatus': [vp, C.c_int, vp], 'GetIntegerStatus': [vp, C.c_int, vp],
    'GetBooleanStatus': [vp, C.c_int, vp], 'GetStringStatus': [vp, C.c_int, vp],
}
for _t in TYPES2:
    SIG2['Get' + _t] = [vp, vp, sz, vp]
    SIG2['Set' + _t] = [vp, vp, sz, vp]


class EventInfo2(C.Structure):
    _fields_ = [('newDiscreteStatesNeeded', C.c_int), ('terminateSimulation', C.c_int),
                ('nominalsOfContinuousStatesChanged', C.c_int), ('valuesOfContinuousStatesChanged', C.c_int),
                ('nextEventTimeDefined', C.c_int), ('nextEventTime', C.c_double)]


class Callbacks2(C.Structure):
    _fields_ = [('logger', vp), ('allocateMemory', vp), ('freeMemory', vp), ('stepFinished', vp),
                ('componentEnvironment', vp)]


class Lib:
    """A loaded FMU binary."""

    def __init__(self, path, version, model, prefix='', cdll=None):
        self.path, self.version, self.model = path, version, model
        self.cdll = cdll or C.CDLL(path)
        sig = SIG3 if version == 3 else SIG2
        self.f = {}
        for n, s in sig.items():
            fn = self.cdll['%sfmi%d%s' % (prefix, version, n)]
            if isinstance(s, tuple):
                fn.restype, fn.argtypes = s
            else:
                fn.restype, fn.argtypes = C.c_int, s
            self.f[n] = fn


_libs = {}


def load(kind, v, m):
    k = (kind, v, m)
    if k not in _libs:
        d = build.ensure_cached(kind)
        _libs[k] = Lib(os.path.join(d, '%s-%d-%s.so' % (kind, v, m)), v, m)
    return _libs[k]


# --- callbacks ---------------------------------------------------------------

_envs = {}
_next_env = [0x1000]
stray = []      # callbacks that carried an unknown environment pointer


def _s(b):
    return None if b is None else b.decode('utf-8', 'replace')


@LOG3
def _log3(env, status, category, message):
    i = _envs.get(env)
    if i is None:
        stray.append(('log', env, status, category, message))
    else:
        i.on_log(None, status, _s(category), _s(message))


@LOG2V
def _log2(env, name, status, category, message, arg):
    i = _envs.get(env)
    if message == b'%s':
        message = C.string_at(arg)
    if i is None:
        stray.append(('log', env, status, category, message))
    else:
        i.on_log(_s(name), status, _s(category), _s(message))


@IUPD
def _iupd(env, t, setreq, getall, fin, canret, ret_req, ret_time):
    i = _envs.get(env)
    if i is None:
        stray.append(('iupd', env))
    else:
        i.on_iupd(t, setreq, getall, fin, canret)


@CLKUPD
def _clkupd(env):
    i = _envs.get(env)
    if i is None:
        stray.append(('clk', env))
    else:
        i.on_clk()


_cur_locker = [None]


@LOCK
def _lock():
    if _cur_locker[0] is not None:
        _cur_locker[0].on_lock()


@LOCK
def _unlock():
    if _cur_locker[0] is not None:
        _cur_locker[0].on_unlock()


_libc = C.CDLL(None)
_libc.malloc.restype = vp
_libc.malloc.argtypes = [sz]
_libc.free.argtypes = [vp]


class Mem:
    """Buffers for one call.  exact=True places each in its own heap block of exactly its size."""

    exact = False

    def __init__(self):
        self.keep = []
        self.ptrs = []

    def arr(self, ct, n, init=None):
        if not Mem.exact:
            a = (ct * max(n, 1))()
            if init is not None:
                for i, v in enumerate(init):
                    a[i] = v
            else:
                C.memset(a, 0xa5, C.sizeof(a))      # what is not written shall not look like a value
            self.keep.append(a)
            return a
        p = _libc.malloc(n * C.sizeof(ct))
        self.ptrs.append(p)
        a = (ct * n).from_address(p)
        if init is not None:
            for i, v in enumerate(init):
                a[i] = v
        return a

    def bytes(self, b):
        """a block holding exactly the bytes b"""
        if not Mem.exact:
            a = C.create_string_buffer(b, max(len(b), 1))
            self.keep.append(a)
            return C.addressof(a)
        p = _libc.malloc(len(b))
        self.ptrs.append(p)
        C.memmove(p, b, len(b))
        return p

    def done(self):
        for p in self.ptrs:
            _libc.free(p)
        self.ptrs = []
        self.keep = []


def f64(x):
    """decode a double given as number or as hex bit pattern"""
    if isinstance(x, str):
        return struct.unpack('<d', int(x, 16).to_bytes(8, 'little'))[0]
    return x


class InstantiationFailed(Exception):
    """judged by P25 only; other checks skip the case"""


_TOK = {}


def md(v, m):
    from . import md as _md
    return _md.get(v, m)


TOLERANCES = (1e-4, 1e-12, 1.0, 1e-6)
NO_VALUE = (0.0, -1e9, float('nan'), 1e-3)      # of arguments that are not defined
REQUIRED = (1, 0)                               # required intermediate variables


class Inst:
    def __init__(self, lib, kind, name='inst', token=None, resource=None, logging=True, event_mode=False,
                 early_return=False, iupd=False, logger=True, clk=True, locks=True, env=None, visible=None):
        self.lib, self.kind, self.v, self.model = lib, kind, lib.version, lib.model
        self.f = lib.f
        self.name = name
        self.log = []
        self.iupds = []
        self.iupd_reads = None       # ops executed inside the intermediate update callback
        self.clks = 0
        self.flip = self.hints = 0
        self.trace = []              # callback trace: clk/lock/unlock
        self.states = {}
        self.blobs = {}
        self.cp = 0.0
        self.event_mode, self.early_return = event_mode, early_return
        if env is None:
            env = _next_env[0]
            _next_env[0] += 16
        self.env = env
        _envs[env] = self
        if token is None:
            token = md(self.v, self.model).token
        if resource is None and self.model == 'Resource':
            d = os.path.join(build.REPO, 'Resource')
            resource = 'file://' + d if self.v == 2 else d + '/'
        elif resource is False:
            resource = None
        b = lambda x: None if x is None else x.encode('utf-8', 'surrogateescape')
        # arguments without a meaning for these FMUs take several values
        k = zlib.crc32(repr((self.model, kind, logging, event_mode, early_return, iupd, clk, locks, resource, len(name or ''))).encode())
        if visible is None:
            visible = bool(k & 1)
        if self.v == 3:
            lg = C.cast(_log3, vp) if logger else None
            if kind == ME:
                self.c = self.f['InstantiateModelExchange'](b(name), b(token), b(resource), visible, logging, env, lg)
            elif kind == CS:
                nreq = (k >> 1) % 3 if iupd else 0
                req = (u32 * nreq)(*REQUIRED[:nreq]) if nreq else None
                self.c = self.f['InstantiateCoSimulation'](
                    b(name), b(token), b(resource), visible, logging, event_mode, early_return, req, nreq, env, lg,
                    C.cast(_iupd, vp) if iupd else None)
            else:
                self.c = self.f['InstantiateScheduledExecution'](
                    b(name), b(token), b(resource), visible, logging, env, lg,
                    C.cast(_clkupd, vp) if clk else None,
                    C.cast(_lock, vp) if locks else None, C.cast(_unlock, vp) if locks else None)
        else:
            self.cbs = Callbacks2(C.cast(_log2, vp) if logger else None, None, None, None, env)
            self.c = self.f['Instantiate'](b(name), 0 if kind == ME else 1, b(token), b(resource),
                                           C.byref(self.cbs), int(visible), 1 if logging else 0)
        if not self.c:
            del _envs[env]
            raise InstantiationFailed(self.log)

    # callbacks
    def on_log(self, name, status, category, message):
        self.log.append((name, status, category, message))

    def on_iupd(self, t, setreq, getall, fin, canret):
        rec = [t, setreq, getall, fin, canret]
        if self.iupd_reads is not None:
            rec.append([self.do(op) for op in self.iupd_reads])
        self.iupds.append(rec)

    def on_clk(self):
        self.clks += 1
        self.trace.append('clk')

    def on_lock(self):
        self.trace.append('lock')

    def on_unlock(self):
        self.trace.append('unlock')

    def free(self):
        if self.c:
            self.f['FreeInstance'](self.c)
            self.c = None
            _envs.pop(self.env, None)

    def free_all(self):
        for s in list(self.states):
            self.do(['freeState', s])
        self.free()

    # ops
    def do(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def run(self, ops):
        return [self.do(o) for o in ops]

    def _vrs(self, m, vrs):
        return m.arr(u32, len(vrs), vrs)

    def _junk(self):
        """what an output flag holds before the call: 0 and 1 in turn"""
        self.flip = 1 - self.flip
        return self.flip

    def _hint(self, *a):
        """a small number for arguments that must not matter, from other arguments and the calls so far"""
        self.hints += 1
        return zlib.crc32(struct.pack('%dd' % len(a), *a), self.hints)

    def _setup_args(self, start, stop):
        h = self._hint(start, stop or 0.0)
        t = bool(h & 1)
        return (t, TOLERANCES[h // 2 % 4] if t else NO_VALUE[h // 2 % 4], start, stop is not None,
                NO_VALUE[h // 8 % 4] if stop is None else stop)

    def _simple(self, n):
        return [self.f[n](self.c)]

    # --- getters / setters
    def op_get(self, T, vrs, n=None):
        m = Mem()
        n = len(vrs) if n is None else n
        try:
            v = self._vrs(m, vrs)
            if self.v == 2:
                a = m.arr(TYPES2[T], len(vrs))
                s = self.f['Get' + T](self.c, v, len(vrs), a)
                out = list(a[:len(vrs)]) if s <= 1 else None
            elif T == 'Binary':
                sizes = m.arr(sz, n)
                a = m.arr(vp, n)
                s = self.f['GetBinary'](self.c, v, len(vrs), sizes, a, n)
                out = [C.string_at(a[i], sizes[i]).hex() for i in range(n)] if s <= 1 else None
            else:
                a = m.arr(TYPES3[T], n)
                s = self.f['Get' + T](self.c, v, len(vrs), a, n)
                out = list(a[:n]) if s <= 1 else None
            if out is None:
                return [s]
            if T == 'String':
                out = [_s(x) for x in out]
            elif T == 'Float32':
                out = [struct.unpack('<I', struct.pack('<f', x))[0] if x == x else 'nan' for x in out]
            return [s, out]
        finally:
            m.done()

    def op_getbits(self, T, vrs, n=None):
        """like get for Float32/Float64/Real, returning bit patterns"""
        m = Mem()
        n = len(vrs) if n is None else n
        try:
            v = self._vrs(m, vrs)
            ct = C.c_uint32 if T == 'Float32' else C.c_uint64
            a = m.arr(ct, n)
            s = self.f['Get' + T](self.c, v, len(vrs), a, *((n,) if self.v == 3 else ()))
            return [s, ['%x' % x for x in a[:n]]] if s <= 1 else [s]
        finally:
            m.done()

    def op_set(self, T, vrs, vals):
        m = Mem()
        try:
            v = self._vrs(m, vrs)
            n = len(vals)
            if T == 'String':
                a = m.arr(vp, n, [m.bytes(x.encode('utf-8', 'surrogateescape') + b'\0') for x in vals])
            elif T == 'Binary':
                bs = [bytes.fromhex(x) for x in vals]
                sizes = m.arr(sz, n, [len(x) for x in bs])
                a = m.arr(vp, n, [m.bytes(x) for x in bs])
                s = self.f['SetBinary'](self.c, v, len(vrs), sizes, a, n)
                self._scramble(a, n, vp)
                return [s]
            elif T in ('Float64', 'Real', 'Float32'):
                if n and isinstance(vals[0], str) or any(isinstance(x, str) for x in vals):
                    ct = C.c_uint32 if T == 'Float32' else C.c_uint64
                    a = m.arr(ct, n, [int(x, 16) if isinstance(x, str) else _bits(T, x) for x in vals])
                else:
                    a = m.arr(C.c_float if T == 'Float32' else C.c_double, n, vals)
            else:
                a = m.arr((TYPES2 if self.v == 2 else TYPES3)[T], n, vals)
            if self.v == 2:
                s = self.f['Set' + T](self.c, v, len(vrs), a)
            else:
                s = self.f['Set' + T](self.c, v, len(vrs), a, n)
            # the caller may reuse its buffers
            C.memset(C.addressof(a), 0x5a, C.sizeof(a)) if C.sizeof(a) else None
            if T == 'String':
                for k in m.keep:
                    C.memset(C.addressof(k), 0x5a, C.sizeof(k))
            return [s]
        finally:
            m.done()

    def _scramble(self, a, n, ct):
        pass

    # --- modes
    def op_setup(self, start=0.0, stop=None):       # FMI 2.0 only
        s = self.f['SetupExperiment'](self.c, *self._setup_args(f64(start), None if stop is None else f64(stop)))
        if s <= 1:
            self.cp = f64(start)
        return [s]

    def op_enterInit(self, start=0.0, stop=None):
        if self.v == 2:
            return self._simple('EnterInitializationMode')
        s = self.f['EnterInitializationMode'](self.c, *self._setup_args(f64(start), None if stop is None else f64(stop)))
        if s <= 1:
            self.cp = f64(start)
        return [s]

    def op_exitInit(self): return self._simple('ExitInitializationMode')
    def op_enterEvent(self): return self._simple('EnterEventMode')
    def op_enterCT(self): return self._simple('EnterContinuousTimeMode')
    def op_enterStep(self): return self._simple('EnterStepMode')
    def op_terminate(self): return self._simple('Terminate')
    def op_reset(self): return self._simple('Reset')
    def op_enterConf(self): return self._simple('EnterConfigurationMode')
    def op_exitConf(self): return self._simple('ExitConfigurationMode')
    def op_evalDiscrete(self): return self._simple('EvaluateDiscreteStates')

    def op_update(self):
        if self.v == 2:
            g = self._junk()
            e = EventInfo2(g, g, g, g, g, 0.0)
            s = self.f['NewDiscreteStates'](self.c, C.byref(e))
            if s > 1:
                return [s]
            return [s, [bool(e.newDiscreteStatesNeeded), bool(e.terminateSimulation),
                        bool(e.nominalsOfContinuousStatesChanged), bool(e.valuesOfContinuousStatesChanged),
                        bool(e.nextEventTimeDefined), e.nextEventTime if e.nextEventTimeDefined else 0.0]]
        m = Mem()
        try:
            b = [m.arr(C.c_bool, 1, [self._junk()]) for _ in range(5)]
            t = m.arr(dbl, 1, [0.0])
            s = self.f['UpdateDiscreteStates'](self.c, *b, t)
            return [s, [x[0] for x in b] + [t[0] if b[4][0] else 0.0]] if s <= 1 else [s]
        finally:
            m.done()

    def op_completed(self):
        m = Mem()
        try:
            ct = C.c_int if self.v == 2 else C.c_bool
            a, b = m.arr(ct, 1, [self._junk()]), m.arr(ct, 1, [self._junk()])
            s = self.f['CompletedIntegratorStep'](self.c, self._hint() & 1, a, b)
            return [s, [bool(a[0]), bool(b[0])]] if s <= 1 else [s]
        finally:
            m.done()

    def op_setTime(self, t): return [self.f['SetTime'](self.c, f64(t))]

    def op_setStates(self, x):
        m = Mem()
        try:
            return [self.f['SetContinuousStates'](self.c, m.arr(dbl, len(x), [f64(v) for v in x]), len(x))]
        finally:
            m.done()

    def _getvec(self, fn, n):
        m = Mem()
        try:
            a = m.arr(dbl, n)
            s = self.f[fn](self.c, a, n)
            return [s, list(a[:n])] if s <= 1 else [s]
        finally:
            m.done()

    def op_getStates(self, n): return self._getvec('GetContinuousStates', n)
    def op_getDer(self, n): return self._getvec('GetDerivatives' if self.v == 2 else 'GetContinuousStateDerivatives', n)
    def op_getInd(self, n): return self._getvec('GetEventIndicators', n)
    def op_getNom(self, n): return self._getvec('GetNominalsOfContinuousStates', n)

    def _getn(self, fn):
        m = Mem()
        try:
            a = m.arr(sz, 1)
            s = self.f[fn](self.c, a)
            return [s, a[0]] if s <= 1 else [s]
        finally:
            m.done()

    def op_nStates(self): return self._getn('GetNumberOfContinuousStates')
    def op_nInd(self): return self._getn('GetNumberOfEventIndicators')

    def op_doStep(self, cp, h):
        cp = self.cp if cp is None else f64(cp)
        h = f64(h)
        if self.v == 2:
            s = self.f['DoStep'](self.c, cp, h, self._hint(cp, h) & 1)
            if s <= 1:
                self.cp = cp + h
            return [s]
        m = Mem()
        try:
            b = [m.arr(C.c_bool, 1, [self._junk()]) for _ in range(3)]
            t = m.arr(dbl, 1, [-77.25])
            s = self.f['DoStep'](self.c, cp, h, self._hint(cp, h) & 1, *b, t)
            if s > 1:
                return [s]
            self.cp = t[0] if b[2][0] or b[1][0] else cp + h
            return [s, [b[0][0], b[1][0], b[2][0], t[0]]]
        finally:
            m.done()

    def op_status(self, what, kind):
        """FMI 2.0 Get<what>Status"""
        m = Mem()
        try:
            ct = {'Real': dbl, 'String': cp_}.get(what, C.c_int)
            a = m.arr(ct, 1)
            s = self.f['Get%sStatus' % what](self.c, kind, a)
            return [s, a[0]] if s <= 1 else [s]
        finally:
            m.done()

    def op_cancel(self): return self._simple('CancelStep')

    def op_dirDer(self, unk, kn, seed, fn='GetDirectionalDerivative'):
        m = Mem()
        try:
            adj = fn == 'GetAdjointDerivative'
            u, k = self._vrs(m, unk), self._vrs(m, kn)
            s_ = m.arr(dbl, len(seed), [f64(x) for x in seed])
            n = len(kn) if adj else len(unk)
            out = m.arr(dbl, n, [float('nan')] * n)
            if self.v == 2:
                s = self.f[fn](self.c, u, len(unk), k, len(kn), s_, out)
            else:
                s = self.f[fn](self.c, u, len(unk), k, len(kn), s_, len(seed), out, n)
            return [s, list(out[:n])] if s <= 1 else [s]
        finally:
            m.done()

    def op_adjDer(self, unk, kn, seed): return self.op_dirDer(unk, kn, seed, 'GetAdjointDerivative')

    def op_outDer(self, vrs, orders):
        m = Mem()
        try:
            v, o, a = self._vrs(m, vrs), m.arr(C.c_int32, len(vrs), orders), m.arr(dbl, len(vrs))
            if self.v == 2:
                s = self.f['GetRealOutputDerivatives'](self.c, v, len(vrs), o, a)
            else:
                s = self.f['GetOutputDerivatives'](self.c, v, len(vrs), o, a, len(vrs))
            return [s, list(a[:len(vrs)])] if s <= 1 else [s]
        finally:
            m.done()

    def op_inDer(self, vrs, orders, vals):
        m = Mem()
        try:
            return [self.f['SetRealInputDerivatives'](self.c, self._vrs(m, vrs), len(vrs),
                                                      m.arr(C.c_int32, len(vrs), orders), m.arr(dbl, len(vrs), vals))]
        finally:
            m.done()

    def op_getClock(self, vrs):
        m = Mem()
        try:
            a = m.arr(C.c_bool, len(vrs))
            s = self.f['GetClock'](self.c, self._vrs(m, vrs), len(vrs), a)
            return [s, list(a[:len(vrs)])] if s <= 1 else [s]
        finally:
            m.done()

    def op_setClock(self, vrs, vals):
        m = Mem()
        try:
            return [self.f['SetClock'](self.c, self._vrs(m, vrs), len(vrs), m.arr(C.c_bool, len(vrs), vals))]
        finally:
            m.done()

    def op_interval(self, vrs):
        m = Mem()
        try:
            a, q = m.arr(dbl, len(vrs), [-1.0] * len(vrs)), m.arr(C.c_int, len(vrs), [-1] * len(vrs))
            s = self.f['GetIntervalDecimal'](self.c, self._vrs(m, vrs), len(vrs), a, q)
            return [s, list(a[:len(vrs)]), list(q[:len(vrs)])] if s <= 1 else [s]
        finally:
            m.done()

    def op_activate(self, vr, t):
        _cur_locker[0] = self
        try:
            return [self.f['ActivateModelPartition'](self.c, vr, f64(t))]
        finally:
            _cur_locker[0] = None

    def op_debug(self, on, cats):
        m = Mem()
        try:
            a = m.arr(vp, len(cats), [m.bytes(x.encode('utf-8', 'surrogateescape') + b'\0') if x is not None else None for x in cats])
            return [self.f['SetDebugLogging'](self.c, on, len(cats), a if len(cats) else None)]
        finally:
            m.done()

    # --- FMU state; slots hold handles, blobs hold serialized bytes
    def _n(self, s3, s2): return s3 if self.v == 3 else s2

    def op_getState(self, slot):
        p = vp(self.states.get(slot))
        s = self.f[self._n('GetFMUState', 'GetFMUstate')](self.c, C.byref(p))
        if p.value:
            self.states[slot] = p.value
        else:
            self.states.pop(slot, None)
        return [s, bool(p.value)] if s <= 1 else [s]

    def op_setState(self, slot, src=None):
        """restore a state; src: instance owning the slot"""
        h = (src or self).states.get(slot)
        if h is None:
            return ['noslot']
        s = self.f[self._n('SetFMUState', 'SetFMUstate')](self.c, h)
        return [s]

    def op_freeState(self, slot):
        if slot not in self.states:
            return ['noslot']
        p = vp(self.states[slot])
        s = self.f[self._n('FreeFMUState', 'FreeFMUstate')](self.c, C.byref(p))
        if s <= 1:
            del self.states[slot]
        return [s, p.value is None]

    def op_serialize(self, slot, blob):
        h = self.states.get(slot)
        if h is None:
            return ['noslot']
        m = Mem()
        try:
            n = m.arr(sz, 1)
            s = self.f[self._n('SerializedFMUStateSize', 'SerializedFMUstateSize')](self.c, h, n)
            if s > 1:
                return [s]
            a = m.arr(C.c_uint8, n[0])
            s = self.f[self._n('SerializeFMUState', 'SerializeFMUstate')](self.c, h, a, n[0])
            if s <= 1:
                self.blobs[blob] = bytes(a[:n[0]])
            return [s]
        finally:
            m.done()

    def op_deserialize(self, blob, slot, src=None):
        b = (src or self).blobs.get(blob)
        if b is None:
            return ['noblob']
        m = Mem()
        try:
            p = vp(self.states.get(slot))
            q = m.bytes(b)
            s = self.f[self._n('DeserializeFMUState', 'DeSerializeFMUstate')](self.c, q, len(b), C.byref(p))
            if p.value:
                self.states[slot] = p.value
            return [s]
        finally:
            m.done()

    def op_raw(self, fn, *args):
        """call fn with the given arguments: scalars, None, ['in', type, values], ['out', type, n], ['strs', [text or None]],
        ['bins', [hex or None]], ['ref'] (pointer to one zeroed 8 byte cell)"""
        m = Mem()
        try:
            out = []
            for x in args:
                if not isinstance(x, list):
                    out.append(x)
                elif x[0] == 'in':
                    out.append(m.arr(RAW[x[1]], len(x[2]), x[2]))
                elif x[0] == 'out':
                    out.append(m.arr(RAW[x[1]], x[2]))
                elif x[0] == 'strs':
                    out.append(m.arr(vp, len(x[1]), [None if t is None else m.bytes(t.encode('utf-8', 'surrogateescape') + b'\0') for t in x[1]]))
                elif x[0] == 'bins':
                    out.append(m.arr(vp, len(x[1]), [None if t is None else m.bytes(bytes.fromhex(t)) for t in x[1]]))
                elif x[0] == 'ref':
                    out.append(m.arr(C.c_uint64, 1, [0]))
            return [self.f[fn](self.c, *out)]
        finally:
            m.done()

    def op_badSerialize(self, slot, delta, null):
        """serialize into a buffer of a size that differs by delta"""
        h = self.states.get(slot)
        if h is None:
            return ['noslot']
        m = Mem()
        try:
            n = m.arr(sz, 1)
            s = self.f[self._n('SerializedFMUStateSize', 'SerializedFMUstateSize')](self.c, h, n)
            if s > 1:
                return [s]
            k = max(0, n[0] + delta)
            a = None if null else m.arr(C.c_uint8, k)
            return [self.f[self._n('SerializeFMUState', 'SerializeFMUstate')](self.c, h, a, k)]
        finally:
            m.done()

    def op_badDeserialize(self, blob, delta, null):
        """deserialize a byte array with delta bytes more or less"""
        b = self.blobs.get(blob)
        if b is None:
            return ['noblob']
        m = Mem()
        try:
            p = vp(None)
            b = b[:max(0, len(b) + delta)] + b'\0' * max(0, delta)
            q = None if null else m.bytes(b)
            s = self.f[self._n('DeserializeFMUState', 'DeSerializeFMUstate')](self.c, q, len(b), C.byref(p))
            if p.value:
                self.f[self._n('FreeFMUState', 'FreeFMUstate')](self.c, C.byref(p))
            return [s]
        finally:
            m.done()

    def op_notimpl(self, name):
        """FMI 3.0 functions this FMU family does not implement"""
        m = Mem()
        try:
            v = self._vrs(m, [1])
            a, b = m.arr(C.c_uint64, 1, [1]), m.arr(C.c_uint64, 1, [1])
            q = m.arr(C.c_int, 1)
            args = {'GetNumberOfVariableDependencies': (1, a), 'GetVariableDependencies': (1, a, v, b, q, 1),
                    'GetIntervalFraction': (v, 1, a, b, q), 'GetShiftDecimal': (v, 1, a),
                    'GetShiftFraction': (v, 1, a, b), 'SetIntervalDecimal': (v, 1, a),
                    'SetIntervalFraction': (v, 1, a, b), 'SetShiftDecimal': (v, 1, a),
                    'SetShiftFraction': (v, 1, a, b), 'EvaluateDiscreteStates': ()}[name]
            return [self.f[name](self.c, *args)]
        finally:
            m.done()


NOTIMPL = ['GetNumberOfVariableDependencies', 'GetVariableDependencies', 'GetIntervalFraction', 'GetShiftDecimal',
           'GetShiftFraction', 'SetIntervalDecimal', 'SetIntervalFraction', 'SetShiftDecimal', 'SetShiftFraction',
           'EvaluateDiscreteStates']


def _bits(T, x):
    if T == 'Float32':
        return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]


# --- comparison ---------------------------------------------------------------

def same(a, b):
    """exact equality, NaN equal to NaN"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def close(a, b, rtol=1e-9, atol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and (isinstance(a, float) or isinstance(b, float)):
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return a == b
