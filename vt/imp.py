"""The importer library (src/FMI.c, FMI2.c, FMI3.c): bindings that look like those of an FMU, a mock FMU that
records what it is called with, and a reader for the importer's call log."""
import ctypes as C
import math
import os
import tempfile
import re
import struct

from . import api, build

vp, sz, dbl, u32, cp_ = api.vp, api.sz, api.dbl, api.u32, api.cp_

# Parameters of each function after the instance: name:kind, where kind is
#   d double, b Boolean, i enumeration or integer, u value reference, z size, h FMU state
#   <T[n] array of n read by the FMU, >T[n] array written by the FMU (n is a parameter or 1)
#   * at the end: the call log gives the address (or the elements)
_A3 = 'valueReferences:<u[nValueReferences] nValueReferences:z values:%s%s[nValues] nValues:z'
SPEC3 = {
    'SetDebugLogging': 'loggingOn:b nCategories:z categories:<S[nCategories]',
    'EnterInitializationMode': 'toleranceDefined:b tolerance:d startTime:d stopTimeDefined:b stopTime:d',
    'GetBinary': 'valueReferences:<u[nValueReferences] nValueReferences:z sizes:>z[nValueReferences] values:>B[nValues] nValues:z',
    'SetBinary': 'valueReferences:<u[nValueReferences] nValueReferences:z sizes:<z[nValueReferences] values:<B[nValues] nValues:z',
    'GetClock': 'valueReferences:<u[nValueReferences] nValueReferences:z values:>c[nValueReferences]',
    'SetClock': 'valueReferences:<u[nValueReferences] nValueReferences:z values:<c[nValueReferences]',
    'GetNumberOfVariableDependencies': 'valueReference:u nDependencies:>z[1]*',
    'GetVariableDependencies': 'dependent:u elementIndicesOfDependent:>z[nDependencies]* independents:>u[nDependencies]* '
                               'elementIndicesOfIndependents:>z[nDependencies]* dependencyKinds:>i[nDependencies]* nDependencies:z',
    'GetFMUState': 'FMUState:>h[1]*', 'SetFMUState': 'FMUState:h', 'FreeFMUState': 'FMUState:>h[1]*',
    'SerializedFMUStateSize': 'FMUState:h size:>z[1]', 'SerializeFMUState': 'FMUState:h serializedState:>y[size]* size:z',
    'DeserializeFMUState': 'serializedState:<y[size]* size:z FMUState:>h[1]*',
    'GetDirectionalDerivative': 'unknowns:<u[nUnknowns]* nUnknowns:z knowns:<u[nKnowns]* nKnowns:z seed:<d[nSeed]* nSeed:z '
                                'sensitivity:>d[nSensitivity]* nSensitivity:z',
    'GetIntervalDecimal': 'valueReferences:<u[nValueReferences]* nValueReferences:z intervals:>d[nValueReferences]* '
                          'qualifiers:>i[nValueReferences]*',
    'GetIntervalFraction': 'valueReferences:<u[nValueReferences]* nValueReferences:z intervalCounters:>Q[nValueReferences]* '
                           'resolutions:>Q[nValueReferences]* qualifiers:>i[nValueReferences]*',
    'GetShiftDecimal': 'valueReferences:<u[nValueReferences]* nValueReferences:z shifts:>d[nValueReferences]*',
    'GetShiftFraction': 'valueReferences:<u[nValueReferences]* nValueReferences:z shiftCounters:>Q[nValueReferences]* '
                        'resolutions:>Q[nValueReferences]*',
    'SetIntervalDecimal': 'valueReferences:<u[nValueReferences]* nValueReferences:z intervals:<d[nValueReferences]*',
    'SetIntervalFraction': 'valueReferences:<u[nValueReferences]* nValueReferences:z intervalCounters:<Q[nValueReferences]* '
                           'resolutions:<Q[nValueReferences]*',
    'SetShiftDecimal': 'valueReferences:<u[nValueReferences]* nValueReferences:z shifts:<d[nValueReferences]*',
    'SetShiftFraction': 'valueReferences:<u[nValueReferences]* nValueReferences:z shiftCounters:<Q[nValueReferences]* '
                        'resolutions:<Q[nValueReferences]*',
    'UpdateDiscreteStates': 'discreteStatesNeedUpdate:>b[1] terminateSimulation:>b[1] nominalsOfContinuousStatesChanged:>b[1] '
                            'valuesOfContinuousStatesChanged:>b[1] nextEventTimeDefined:>b[1] nextEventTime:>d[1]',
    'CompletedIntegratorStep': 'noSetFMUStatePriorToCurrentPoint:b enterEventMode:>b[1] terminateSimulation:>b[1]',
    'SetTime': 'time:d',
    'SetContinuousStates': 'continuousStates:<d[nContinuousStates] nContinuousStates:z',
    'GetContinuousStateDerivatives': 'derivatives:>d[nContinuousStates] nContinuousStates:z',
    'GetEventIndicators': 'eventIndicators:>d[nEventIndicators] nEventIndicators:z',
    'GetContinuousStates': 'continuousStates:>d[nContinuousStates] nContinuousStates:z',
    'GetNominalsOfContinuousStates': 'nominals:>d[nContinuousStates] nContinuousStates:z',
    'GetNumberOfEventIndicators': 'nEventIndicators:>z[1]', 'GetNumberOfContinuousStates': 'nContinuousStates:>z[1]',
    'GetOutputDerivatives': 'valueReferences:<u[nValueReferences]* nValueReferences:z orders:<i[nValueReferences]* '
                            'values:>d[nValues]* nValues:z',
    'DoStep': 'currentCommunicationPoint:d communicationStepSize:d noSetFMUStatePriorToCurrentPoint:b eventHandlingNeeded:>b[1] '
              'terminateSimulation:>b[1] earlyReturn:>b[1] lastSuccessfulTime:>d[1]',
    'ActivateModelPartition': 'clockReference:u activationTime:d',
}
SPEC3['GetAdjointDerivative'] = SPEC3['GetDirectionalDerivative']
for _n in ('ExitInitializationMode', 'EnterEventMode', 'Terminate', 'Reset', 'EnterConfigurationMode', 'ExitConfigurationMode',
           'EvaluateDiscreteStates', 'EnterContinuousTimeMode', 'EnterStepMode'):
    SPEC3[_n] = ''
for _n, _k in (('Float32', 'f'), ('Float64', 'd'), ('Int8', 'I8'), ('UInt8', 'U8'), ('Int16', 'I16'), ('UInt16', 'U16'), ('Int32', 'i'),
               ('UInt32', 'u'), ('Int64', 'I64'), ('UInt64', 'Q'), ('Boolean', 'b'), ('String', 'S')):
    SPEC3['Get' + _n] = _A3 % ('>', _k)
    SPEC3['Set' + _n] = _A3 % ('<', _k)

SPEC2 = {
    'SetDebugLogging': 'loggingOn:b nCategories:z categories:<S[nCategories]',
    'SetupExperiment': 'toleranceDefined:b tolerance:d startTime:d stopTimeDefined:b stopTime:d',
    'GetFMUstate': 'FMUstate:>h[1]*', 'SetFMUstate': 'FMUstate:h', 'FreeFMUstate': 'FMUstate:>h[1]*',
    'SerializedFMUstateSize': 'FMUstate:h size:>z[1]', 'SerializeFMUstate': 'FMUstate:h serializedState:>y[size]* size:z',
    'DeSerializeFMUstate': 'serializedState:<y[size]* size:z FMUstate:>h[1]*',
    'GetDirectionalDerivative': 'vUnknown_ref:<u[nUnknown] nUnknown:z vKnown_ref:<u[nKnown] nKnown:z dvKnown:<d[nKnown] dvUnknown:>d[nUnknown]',
    'NewDiscreteStates': 'eventInfo:>E[1]',
    'CompletedIntegratorStep': 'noSetFMUStatePriorToCurrentPoint:b enterEventMode:>b[1] terminateSimulation:>b[1]',
    'SetTime': 'time:d', 'SetContinuousStates': 'x:<d[nx] nx:z', 'GetDerivatives': 'derivatives:>d[nx] nx:z',
    'GetEventIndicators': 'eventIndicators:>d[ni] ni:z', 'GetContinuousStates': 'x:>d[nx] nx:z',
    'GetNominalsOfContinuousStates': 'x_nominal:>d[nx] nx:z',
    'SetRealInputDerivatives': 'vr:<u[nvr]* nvr:z order:<i[nvr]* value:<d[nvr]*',
    'GetRealOutputDerivatives': 'vr:<u[nvr]* nvr:z order:<i[nvr]* value:>d[nvr]*',
    'DoStep': 'currentCommunicationPoint:d communicationStepSize:d noSetFMUStatePriorToCurrentPoint:b',
    'GetStatus': 's:i value:>i[1]', 'GetRealStatus': 's:i value:>d[1]', 'GetIntegerStatus': 's:i value:>i[1]',
    'GetBooleanStatus': 's:i value:>b[1]', 'GetStringStatus': 's:i value:>S[1]',
}
for _n in ('EnterInitializationMode', 'ExitInitializationMode', 'Terminate', 'Reset', 'EnterEventMode', 'EnterContinuousTimeMode', 'CancelStep'):
    SPEC2[_n] = ''
for _n, _k in (('Real', 'd'), ('Integer', 'i'), ('Boolean', 'b'), ('String', 'S')):
    SPEC2['Get' + _n] = 'vr:<u[nvr] nvr:z value:>%s[nvr]' % _k
    SPEC2['Set' + _n] = 'vr:<u[nvr] nvr:z value:<%s[nvr]' % _k

ME2 = ('EnterEventMode', 'NewDiscreteStates', 'EnterContinuousTimeMode', 'CompletedIntegratorStep', 'SetTime', 'SetContinuousStates',
       'GetDerivatives', 'GetEventIndicators', 'GetContinuousStates', 'GetNominalsOfContinuousStates')
CS2 = ('SetRealInputDerivatives', 'GetRealOutputDerivatives', 'DoStep', 'CancelStep', 'GetStatus', 'GetRealStatus', 'GetIntegerStatus',
       'GetBooleanStatus', 'GetStringStatus')


def _parse(spec):
    out = []
    for t in spec.split():
        name, k = t.split(':')
        m = re.match(r'([<>])(\w+)\[(\w+)\](\*?)$', k)
        out.append((name, m.group(1), m.group(2), m.group(3), bool(m.group(4))) if m else (name, '', k, None, False))
    return out


SPEC = {2: {n: _parse(s) for n, s in SPEC2.items()}, 3: {n: _parse(s) for n, s in SPEC3.items()}}


def ctype(v, k):
    """the C type of an element of kind k"""
    if k == 'b':
        return C.c_int if v == 2 else C.c_bool
    return {'d': dbl, 'f': C.c_float, 'i': C.c_int32, 'u': u32, 'z': sz, 'h': vp, 'S': vp, 'B': vp, 'c': C.c_bool, 'y': C.c_uint8,
            'Q': C.c_uint64, 'I8': C.c_int8, 'U8': C.c_uint8, 'I16': C.c_int16, 'U16': C.c_uint16, 'I64': C.c_int64, 'E': api.EventInfo2}[k]


LOGFN = C.CFUNCTYPE(None, vp, C.c_int, cp_)
STATES = {1: 'none', 2: 'inst', 4: 'init', 8: 'term', 16: 'conf', 32: 'reconf', 64: 'event', 128: 'ct', 256: 'step', 512: 'clock'}
_imps = {}


def load(kind='importer'):
    if kind not in _imps:
        d = build.ensure_cached(kind)
        _imps[kind] = Importer(os.path.join(d, kind.replace('_', '-') + '.so'))
    return _imps[kind]


class Importer:
    def __init__(self, path):
        L = self.lib = C.CDLL(path)

        def fn(name, res, *args):
            f = L[name]
            f.restype, f.argtypes = res, list(args)
            return f
        fn('vt_imp_init', None)()
        self.state_, self.kind_, self.version_ = [fn('vt_imp_' + n, C.c_int, vp) for n in ('state', 'kind', 'version')]
        self.name_, self.component = fn('vt_imp_name', cp_, vp), fn('vt_imp_component', vp, vp)
        self.errors, self.last_error = fn('vt_imp_errors', C.c_int), fn('vt_imp_last_error', cp_)
        self.create = fn('FMICreateInstance', vp, vp, vp, vp)
        self.load_binary = fn('FMILoadPlatformBinary', C.c_int, vp, cp_)
        self.free = fn('FMIFreeInstance', None, vp)
        self.calloc, self.realloc = fn('FMICalloc', C.c_int, vp, sz, sz), fn('FMIRealloc', C.c_int, vp, sz)
        self.mfree = fn('FMIFree', None, vp)
        self.uri = fn('FMIPathToURI', C.c_int, vp, vp, sz)
        self.binpath = fn('FMIPlatformBinaryPath', C.c_int, vp, vp, C.c_int, vp, sz)
        self.f = {2: {}, 3: {}}
        for v, sig in ((2, api.SIG2), (3, api.SIG3)):
            for n, s in sig.items():
                if n.startswith('Instantiate') or n in ('GetVersion', 'GetTypesPlatform'):
                    continue
                if n == 'FreeInstance':
                    self.f[v][n] = fn('FMI%dFreeInstance' % v, None if v == 2 else C.c_int, vp)
                else:
                    self.f[v][n] = fn('FMI%d%s' % (v, n), C.c_int, *s)
            self.f[v]['GetVersion'] = fn('FMI%dGetVersion' % v, cp_, vp)
        self.f[2]['GetTypesPlatform'] = fn('FMI2GetTypesPlatform', cp_, vp)
        self.f[2]['Instantiate'] = fn('FMI2Instantiate', C.c_int, vp, cp_, C.c_int, cp_, C.c_int, C.c_int)
        b = C.c_bool
        self.f[3]['InstantiateModelExchange'] = fn('FMI3InstantiateModelExchange', C.c_int, vp, cp_, cp_, b, b)
        self.f[3]['InstantiateCoSimulation'] = fn('FMI3InstantiateCoSimulation', C.c_int, vp, cp_, cp_, b, b, b, b, vp, sz, vp)
        self.f[3]['InstantiateScheduledExecution'] = fn('FMI3InstantiateScheduledExecution', C.c_int, vp, cp_, cp_, b, b, vp, vp, vp, vp, vp)

    def state(self, p):
        return STATES.get(self.state_(p), '?')


# --- driving an FMU through the importer as if directly ----------------------------

_callers = {}       # importer instance -> ImpLib


@LOGFN
def _logfn(p, status, message):
    l = _callers.get(p)
    if l is None:
        api.stray.append(('call log', p))
    else:
        l.entries.append((status, message))


class ImpLib:
    """looks like an api.Lib; the component is the importer's instance"""

    def __init__(self, path, version, model, kind='importer', log_calls=False):
        self.path, self.version, self.model = path, version, model
        self.imp = load(kind)
        self.log_calls = log_calls
        self.entries = []           # call log
        self.status = None          # what the instantiate function returned
        g = self.imp.f[version]
        self.f = {n: fn for n, fn in g.items() if not n.startswith('Instantiate')}
        self.f['FreeInstance'] = self.free
        if version == 2:
            self.f['Instantiate'] = self.inst2
        else:
            for n in ('ModelExchange', 'CoSimulation', 'ScheduledExecution'):
                self.f['Instantiate' + n] = getattr(self, n)

    def open(self, name, env, logger):
        nm = C.create_string_buffer(name)
        p = self.imp.create(C.addressof(nm), C.cast(api._log3, vp) if logger else None, C.cast(_logfn, vp) if self.log_calls else None)
        C.memset(C.addressof(nm), 0x5a, len(nm))        # the caller's name is not needed any longer
        if not p:
            return None
        _callers[p] = self
        if env in api._envs:
            api._envs[p] = api._envs[env]
        if self.imp.load_binary(p, self.path.encode()) != 0:
            self.status = 'not loaded'
            self.close(p)
            return None
        return p

    def close(self, p):
        self.imp.free(p)
        _callers.pop(p, None)
        api._envs.pop(p, None)

    def made(self, p, status):
        self.status = status
        if status != 0:
            self.close(p)
            return None
        return p

    def inst2(self, name, kind, guid, res, cbs, visible, logging):
        c = cbs._obj
        p = self.open(name, c.componentEnvironment, c.logger)
        return p and self.made(p, self.imp.f[2]['Instantiate'](p, res, kind, guid, visible, logging))

    def ModelExchange(self, name, token, res, visible, logging, env, lg):
        p = self.open(name, env, lg)
        return p and self.made(p, self.imp.f[3]['InstantiateModelExchange'](p, token, res, visible, logging))

    def CoSimulation(self, name, token, res, visible, logging, ev, early, vrs, n, env, lg, iupd):
        p = self.open(name, env, lg)
        return p and self.made(p, self.imp.f[3]['InstantiateCoSimulation'](p, token, res, visible, logging, ev, early, vrs, n, iupd))

    def ScheduledExecution(self, name, token, res, visible, logging, env, lg, clk, lock, unlock):
        p = self.open(name, env, lg)
        return p and self.made(p, self.imp.f[3]['InstantiateScheduledExecution'](p, token, res, visible, logging, None, None, clk, lock, unlock))

    def free(self, p):
        self.imp.f[self.version]['FreeInstance'](p)
        self.close(p)


# --- mock FMU -----------------------------------------------------------------------

class Mock:
    """the mock FMU binary of a version; on_call(name, args) decides what a function returns"""

    def __init__(self, v, lacks=None):
        self.v = v
        self.path = os.path.join(build.ensure_cached('mock'), 'mock-%d.so' % v)
        if lacks:
            # the same binary with the function renamed
            with open(self.path, 'rb') as f:
                b = f.read()
            n = b'\0fmi%d%s' % (v, lacks.encode())
            self.path = os.path.join(tempfile.mkdtemp(), 'mock.so')
            with open(self.path, 'wb') as f:
                f.write(b.replace(n + b'\0', n[:-1] + b'~\0'))
        self.lib = C.CDLL(self.path)
        self.keep = []
        self.on_call = lambda name, args: 0
        tab = (vp * 200).in_dll(self.lib, 'vt_tab')
        for k, (n, s) in enumerate((api.SIG3 if v == 3 else api.SIG2).items()):
            res, args = s if isinstance(s, tuple) else (C.c_int, s)
            cb = C.CFUNCTYPE(vp if res is cp_ else res, *[vp if a is cp_ else a for a in args])(self.handler(n))
            self.keep.append(cb)
            tab[k] = C.cast(cb, vp)

    def handler(self, n):
        return lambda *args: self.on_call(n, args)


_mocks = {}


def mock(v, lacks=None):
    if (v, lacks) not in _mocks:
        _mocks[v, lacks] = Mock(v, lacks)
    return _mocks[v, lacks]


# --- call log -----------------------------------------------------------------------

class Mismatch(Exception):
    pass


def num_matches(text, x, digits=16):
    """the decimal text gives the double x with this many significant digits"""
    try:
        y = float(text)
    except ValueError:
        return False
    if x != x or y != y:
        return x != x and y != y
    if math.isinf(x):
        return x == y
    if math.isinf(y):
        return abs(x) > 1.797e308 and (x > 0) == (y > 0)
    if x == 0:
        return y == 0 and math.copysign(1, y) == math.copysign(1, x)
    return abs(y - x) <= abs(x) * 0.6 * 10.0 ** (1 - digits) + 5e-324


class Reader:
    """matches the text of a log entry against what was passed and returned"""

    def __init__(self, text):
        self.t, self.p = text, 0

    def fail(self, what):
        raise Mismatch('%s expected at position %d: ...%r' % (what, self.p, self.t[max(0, self.p - 40):self.p + 60]))

    def lit(self, s):
        if not self.t.startswith(s, self.p):
            self.fail(repr(s if len(s) < 80 else s[:80] + b'...'))
        self.p += len(s)

    def re(self, r, what):
        m = re.compile(r).match(self.t, self.p)
        if not m:
            self.fail(what)
        self.p = m.end()
        return m

    def sep(self):
        self.re(rb',\s*', 'separator')

    def key(self, name, names):
        m = re.compile(rb'([A-Za-z_]\w*)\s*=\s*').match(self.t, self.p)
        if m:
            k = m.group(1).decode().lower()
            if k != name.lower() and k in [n.lower() for n in names]:
                self.fail('argument ' + name)
            self.p = m.end()

    def address(self, a):
        m = self.re(rb'(?:0x)*\(nil\)|\(null\)|NULL|(?:0x)*([0-9a-fA-F]+)', 'address')
        if (int(m.group(1), 16) if m.group(1) else 0) != (a or 0):
            self.fail('address %x (before this)' % (a or 0))

    def value(self, k, x):
        if k in ('d', 'f'):
            m = self.re(rb'[-+\w.]+', 'number')
            if not num_matches(m.group(0).decode(), x, 16 if k == 'd' else 7):
                self.p = m.start()
                self.fail('the number %r' % x)
        elif k in ('S',):
            self.lit(b'"' + x + b'"')
        elif k == 'B':
            m = self.re(rb'(?:0x)?([0-9a-fA-F]*)', 'binary')
            if m.group(1).lower() != x.hex().encode():
                self.p = m.start()
                self.fail('the binary of %d bytes' % len(x))
        elif k == 'h':
            self.address(x)
        else:
            m = self.re(rb'-?\d+|true|false', 'integer')
            t = m.group(0)
            if (t == b'true') if t in (b'true', b'false') else int(t) != int(x):
                if t in (b'true', b'false') and (t == b'true') == bool(x):
                    return
                self.p = m.start()
                self.fail('the integer %d' % x)

    def array(self, k, xs):
        self.lit(b'{')
        for i, x in enumerate(xs):
            if i:
                self.sep()
            self.value(k, x)
        self.lit(b'}')


EVENT_INFO = ['newDiscreteStatesNeeded', 'terminateSimulation', 'nominalsOfContinuousStatesChanged', 'valuesOfContinuousStatesChanged',
              'nextEventTimeDefined', 'nextEventTime']


def match(v, name, values, text):
    """values: per parameter the scalar, the list of elements, or (address, elements) where the address may be given"""
    r = Reader(text)
    spec = SPEC[v][name]
    names = [s[0] for s in spec]
    r.lit(b'fmi%d%s(' % (v, name.encode()))
    for i, ((pn, d, k, cnt, ptr), x) in enumerate(zip(spec, values)):
        if i:
            r.sep()
        r.key(pn, names)
        if not d:
            r.value(k, x)
        elif k == 'E':
            r.lit(b'{')
            for j, (en, y) in enumerate(zip(EVENT_INFO, x[1][0])):
                if j:
                    r.sep()
                r.key(en, EVENT_INFO)
                r.value('d' if j == 5 else 'b', y)
            r.lit(b'}')
        elif ptr and not r.t.startswith(b'{', r.p):
            r.address(x[0])
        elif cnt == '1' and not r.t.startswith(b'{', r.p):
            r.value(k, x[1][0])
        else:
            r.array(k, x[1])
    r.lit(b')')
    if r.p != len(text):
        r.fail('end of the entry')


# --- generated calls on the mock -----------------------------------------------------

RANGE = {'i': (-2**31, 2**31 - 1), 'u': (0, 2**32 - 1), 'z': (0, 2**64 - 1), 'y': (0, 255), 'Q': (0, 2**64 - 1), 'I8': (-128, 127),
         'U8': (0, 255), 'I16': (-2**15, 2**15 - 1), 'U16': (0, 2**16 - 1), 'I64': (-2**63, 2**63 - 1)}
CHARS = 'abcXYZ 0189,={}()"%\\/\'\t\n_-%sän€'


def gen_value(rng, k, long=20):
    from . import gen
    if k == 'd':
        r = rng.random()
        if r < 0.2:
            return rng.choice([0.0, -0.0, 1.0, float('nan'), float('inf'), -float('inf'), 5e-324, 1.7976931348623157e308, 0.1, 1e22, 123456789.12345678])
        if r < 0.6:
            return struct.unpack('<d', rng.getrandbits(64).to_bytes(8, 'little'))[0]
        return rng.uniform(-10, 10)
    if k == 'f':
        if rng.random() < 0.2:
            return rng.choice([0.0, 1.0, float('inf'), -float('inf'), float('nan')])
        x = struct.unpack('<f', rng.getrandbits(32).to_bytes(4, 'little'))[0]
        return x
    if k in ('b', 'c'):
        return rng.randint(0, 1)
    if k == 'h':
        return rng.choice([rng.getrandbits(47), 0x10, 2**64 - 16])
    if k == 'S':
        return ''.join(rng.choice(CHARS) for _ in range(rng.randint(0, long)))
    if k == 'B':
        return bytes(rng.getrandbits(8) for _ in range(rng.randint(0, long))).hex()
    if k == 'E':
        return [rng.randint(0, 1) for _ in range(5)] + [gen_value(rng, 'd')]
    lo, hi = RANGE[k]
    return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), max(lo, min(hi, rng.randint(0, 300)))])


def gen_call(rng, v, name, lens=(0, 1, 1, 2, 3, 5), long=20, status=None):
    """[function, values of the parameters (counts left out as None), status]"""
    spec = SPEC[v][name]
    n = {}
    vals = []
    for pn, d, k, cnt, ptr in spec:
        if d:
            if cnt == '1':
                m = 1
            else:
                # values and references come in equal number
                key = 'nv' if cnt in ('nValues', 'nValueReferences') else cnt
                m = n.setdefault(key, rng.choice(lens))
            vals.append(['B' if k == 'B' else '', [gen_value(rng, k, long) for _ in range(m)]][1])
        elif any(s[3] == pn for s in spec):
            vals.append(None)
        else:
            vals.append(gen_value(rng, k, long))
    if 'Binary' in name:
        vals[2] = [len(x) // 2 for x in vals[3]]
    if status is None:
        status = rng.choice([0, 0, 0, 0, 1, 2, 3, 4] + ([5] if v == 2 else []))
    return [name, vals, status]


def _enc(s):
    return s.encode('utf-8', 'surrogateescape')


class Call:
    """performs a generated call through fn and checks what the mock receives and the caller gets back"""

    def __init__(self, v, call):
        self.v = v
        self.name, self.vals, self.status = call
        self.spec = SPEC[v][self.name]
        self.mem = api.Mem()
        self.args = []
        self.seen = 0
        self.errors = []
        counts = {}
        for s, x in zip(self.spec, self.vals):
            if s[1] and s[3] != '1':
                counts.setdefault(s[3], len(x))
        self.bufs = []
        for (pn, d, k, cnt, ptr), x in zip(self.spec, self.vals):
            b = None
            if not d:
                self.args.append(counts[pn] if x is None else x)
            else:
                ct = ctype(v, k)
                if d == '<':
                    b = self.mem.arr(ct, len(x), self.elements(k, x))
                else:
                    b = self.mem.arr(ct, len(x))
                    if C.sizeof(b) and k not in ('S', 'B', 'E'):
                        C.memset(C.addressof(b), 0x11, C.sizeof(b))
                        if k == 'b':
                            b[0] = 1
                self.args.append(None if not x and len(self.name) % 2 else b)
            self.bufs.append(b)
        self.outs = []
        for (pn, d, k, cnt, ptr), x in zip(self.spec, self.vals):
            self.outs.append(self.mem.arr(ctype(v, k), len(x), self.elements(k, x)) if d == '>' else None)

    def elements(self, k, x):
        if k == 'S':
            return [self.mem.bytes(_enc(s) + b'\0') for s in x]
        if k == 'B':
            return [self.mem.bytes(bytes.fromhex(s)) for s in x]
        if k == 'E':
            return [api.EventInfo2(*e) for e in x]
        return x

    def raw(self, b, n, ct):
        return C.string_at(C.addressof(b), n * C.sizeof(ct)) if n else b''

    def receive(self, component, args):
        """called by the mock FMU"""
        self.seen += 1
        try:
            if args[0] != component:
                self.errors.append('the component is %r instead of %r' % (args[0], component))
            for i, ((pn, d, k, cnt, ptr), x, a, b) in enumerate(zip(self.spec, self.vals, args[1:], self.bufs)):
                if not d:
                    want = self.args[i]
                    if k == 'd':
                        ok = struct.pack('<d', a) == struct.pack('<d', want) or (a != a and want != want)
                    else:
                        ok = (a or 0) == want
                    if not ok:
                        self.errors.append('argument %s is %r instead of %r' % (pn, a, want))
                    continue
                n = len(x)
                ct = ctype(self.v, k)
                if not n:
                    continue
                if not a:
                    self.errors.append('argument %s is null' % pn)
                    continue
                if d == '<':
                    if k in ('S', 'B'):
                        got = (vp * n).from_address(a)
                        for j in range(n):
                            w = _enc(x[j]) if k == 'S' else bytes.fromhex(x[j])
                            g = C.string_at(got[j]) if k == 'S' else C.string_at(got[j], len(w))
                            if g != w:
                                self.errors.append('element %d of %s differs' % (j, pn))
                                break
                    elif C.string_at(a, n * C.sizeof(ct)) != self.raw(b, n, ct):
                        self.errors.append('the elements of %s differ' % pn)
                else:
                    C.memmove(a, self.outs[i], n * C.sizeof(ct))
        except Exception as e:
            self.errors.append(repr(e))
        return self.status

    def finish(self):
        """after the call: the caller's buffers"""
        for (pn, d, k, cnt, ptr), x, b, o in zip(self.spec, self.vals, self.bufs, self.outs):
            if d == '>' and self.raw(b, len(x), ctype(self.v, k)) != self.raw(o, len(x), ctype(self.v, k)):
                self.errors.append('the caller gets other values in %s than the FMU returned' % pn)

    def logged(self):
        """the values as expected by match()"""
        out = []
        for (pn, d, k, cnt, ptr), x, a in zip(self.spec, self.vals, self.args):
            if not d:
                out.append(a)
                continue
            y = x
            if k == 'S':
                y = [_enc(s) for s in x]
            elif k == 'B':
                y = [bytes.fromhex(s) for s in x]
            elif k == 'f':
                y = [struct.unpack('<f', struct.pack('<f', s))[0] for s in x]
            out.append((None if a is None else C.addressof(a), y))
        return out
