"""The example programs (examples/*.c) run against an FMU with scripted answers (c/simfmu.c)."""
import _ctypes
import ctypes as C
import os
import re
import tempfile

from . import build, md

X0, A, B, Z, UPD, CIS, STEP, VALS, DIMS, CLK, JUMP = range(11)
PLATFORM = {2: 'linux64', 3: 'x86_64-linux'}
PROGRAMS = build.programs()
NAMES = sorted(PROGRAMS)
FAIL = {
    'me': ['EnterInitializationMode', 'ExitInitializationMode', 'UpdateDiscreteStates', 'EnterContinuousTimeMode', 'EnterEventMode', 'SetTime',
           'CompletedIntegratorStep', 'Terminate', 'get', 'get'],
    'cs': ['EnterInitializationMode', 'ExitInitializationMode', 'DoStep', 'DoStep', 'Terminate', 'get', 'get'],
}
GETS = {2: ['GetReal', 'GetInteger', 'GetBoolean', 'GetString', 'SetReal', 'SetInteger', 'SetBoolean', 'SetString'],
        3: ['GetFloat32', 'GetFloat64', 'GetInt8', 'GetUInt8', 'GetInt16', 'GetUInt16', 'GetInt32', 'GetUInt32', 'GetInt64', 'GetUInt64', 'GetBoolean',
            'GetString', 'GetBinary', 'SetFloat32', 'SetFloat64', 'SetInt8', 'SetUInt8', 'SetInt16', 'SetUInt16', 'SetInt32', 'SetUInt32', 'SetInt64',
            'SetUInt64', 'SetBoolean', 'SetString', 'SetBinary']}
USED = {2: {'BouncingBall': ['GetReal'], 'Dahlquist': ['GetReal'], 'VanDerPol': ['GetReal'], 'Stair': ['GetInteger'], 'Resource': ['GetInteger'],
            'Feedthrough': GETS[2]},
        3: {'BouncingBall': ['GetFloat64'], 'Dahlquist': ['GetFloat64'], 'VanDerPol': ['GetFloat64'], 'Stair': ['GetInt32'], 'Resource': ['GetInt32'],
            'Feedthrough': GETS[3], 'StateSpace': ['GetUInt64', 'GetFloat64'], 'Clocks': ['GetInt32']}}


class Info:
    """what is known about a program"""

    def __init__(self, name):
        self.name = name
        self.v, src, m = PROGRAMS[name]
        self.synth = isinstance(m, int)
        self.model = 'S%d' % m if self.synth else m
        self.prog = src[:-2] if not src.startswith('simulate') else 'simulate'
        self.kind = 'me' if src.endswith('_me.c') or src == 'jacobian.c' else 'se' if src.startswith('scs') else 'cs'
        if self.synth:
            self.nx, self.nz, h, stop = build.SYNTH[m]
            self.h, self.stop = float(h), float(stop)
            self.token = '{synthetic}'
            self.columns = {'a': 1, 'b': 2}
        else:
            t = open(os.path.join(build.REPO, m, 'config.h')).read()

            def d(n, other=None):
                x = re.search(r'#define\s+%s\s+(\S+)' % n, t)
                return x.group(1) if x else other
            self.h, self.stop = float(d('FIXED_SOLVER_STEP')), float(d('DEFAULT_STOP_TIME'))
            self.token = d('INSTANTIATION_TOKEN').strip('"')
            x = md.get(self.v, m)
            self.nx, self.nz = len(x.states), x.n_indicators
            self.columns = {q.name: q.vr for q in x.vars}
        if self.prog == 'simulate':
            self.out, self.step = '%s_%s_out.csv' % (self.model, self.kind), self.h
        else:
            self.out, self.step = self.prog + '_out.csv', 10 * self.h
        if self.prog == 'cs_reconfiguration':
            self.step = 0.1
        if self.prog == 'jacobian':
            self.out = None
        self.n = int(round(self.stop / self.step))
        self.used = (['GetReal', 'SetReal'] if self.v == 2 else ['GetFloat64', 'SetFloat64']) if self.synth else USED[self.v].get(self.model, [])


_infos = {}


def info(name):
    if name not in _infos:
        _infos[name] = Info(name)
    return _infos[name]


def script(rng, name):
    """the answers of an FMU"""
    p = info(name)
    cap = min(p.n, rng.choice([3, 8, 20, 40, 60])) if p.n > 60 else p.n
    full = cap == p.n or rng.random() < (0.02 if p.n > 3000 else 0.06)
    nx = p.nx
    if p.model == 'StateSpace' and p.prog == 'simulate':
        nx = rng.choice([3, 3, 0, 1, 2, 4, 5])
    s = {'x0': [rng.choice([0.0, 1.0, -1.5, rng.uniform(-3, 3)]) for _ in range(nx)], 'a': [rng.choice([0.0, rng.uniform(-2, 2)]) for _ in range(nx)],
         'b': [rng.choice([0.0, rng.uniform(-1, 1)]) for _ in range(nx)], 'jump': [rng.choice([0.0, 1.0, rng.uniform(-2, 2)]) for _ in range(nx)]}
    if p.kind == 'me':
        z = []
        cur = [rng.choice([1.0, -1.0]) for _ in range(p.nz)]
        for _ in range(cap + 2):
            for i in range(p.nz):
                if rng.random() < 0.15:
                    cur[i] = rng.choice([-cur[i], -cur[i], 0.0, 1.0, -1.0, 1e-300, -1e-300])
                z.append(cur[i])
        s['z'] = z
        pe = rng.choice([0, 0, 0.1, 0.3])
        s['cis'] = [[int(rng.random() < pe), int(rng.random() < 0.004)] for _ in range(cap)]
        if not full:
            s['cis'][-1][1] = 1
    pn = rng.choice([0, 0.2, 0.5])
    ups = []
    for _ in range(rng.choice([0, 1, 3, 10, 30])):
        d = rng.choice([0, 0, 1, 2, 2])
        k = rng.randint(0, 6)
        t = k * p.h if d == 2 else rng.choice([rng.randint(0, cap + 1) * p.h, rng.uniform(0, (cap + 1) * p.h)])
        ups.append([int(rng.random() < pn), int(rng.random() < 0.02), int(rng.random() < 0.2), int(rng.random() < 0.35), d, t])
    s['upd'] = ups
    if p.kind == 'cs':
        pe, pr = rng.choice([0, 0.15, 0.5]), rng.choice([0, 0.2, 0.5])
        s['step'] = [[int(rng.random() < pe), int(rng.random() < 0.004), int(rng.random() < pr), rng.choice([0.25, 0.5, 0.75, rng.uniform(0.1, 0.9)]),
                      rng.choice([0, 1, 1, 2, 4])] for _ in range(2 * cap)]
        if not full:
            s['step'][cap - 1][1] = 1
        for u in s['step']:
            if p.prog in ('cs_reconfiguration', 'cs_intermediate_update'):
                u[1] = 0                    # they take no notice of a request to terminate
            if u[1]:
                u[0] = 0
    if p.kind == 'se':
        s['clk'] = [int(rng.random() < 0.4) for _ in range(rng.randint(0, 40))]
    s['vals'] = [rng.choice([0.0, 1.0, -1.0, 0.1, 1e6, -12345.678, rng.uniform(-1, 1), rng.uniform(-1e4, 1e4), 1e-7 * rng.random(), 1e20 * rng.random()])
                 for _ in range(rng.randint(1, 12))]
    if p.model in ('Feedthrough', 'Stair', 'Resource', 'Clocks'):
        s['vals'] = [x if abs(x) < 1e9 else 7.0 for x in s['vals']]
    s['dims'] = [rng.randint(0, 5) for _ in range(rng.randint(1, 4))]
    s['fails'] = []
    u = rng.random()
    if u < 0.03:
        s['null'] = 1
    elif u < 0.4:
        fn = rng.choice(FAIL['me' if p.kind == 'me' else 'cs'])
        if p.v == 2 and rng.random() < 0.05:
            fn = 'SetupExperiment'
        if p.kind == 'me' and p.nx and rng.random() < 0.3:
            fn = rng.choice(['SetContinuousStates', 'GetDerivatives', 'GetContinuousStates', 'GetNominalsOfContinuousStates'])
        if p.kind == 'me' and p.nz and rng.random() < 0.15:
            fn = 'GetEventIndicators'
        if fn == 'get':
            fn = rng.choice(p.used) if p.used and p.prog != 'cs_intermediate_update' else 'Terminate'
        s['fails'] = [[fn, rng.choice([0, 0, 1, 2, rng.randint(0, cap)]), rng.choice([3, 3, 3, 4])]]
    if p.synth:
        s['inputs'] = sorted(rng.sample([i * p.h for i in range(1, p.n)], rng.randint(0, min(3, p.n - 1)))) if p.n > 1 else []
    return s


class Run:
    """one execution of a program"""


_dirs, _sims = {}, {}


def _prepare(v):
    """a scratch directory with the FMUs where the programs look for them"""
    if os.getpid() not in _dirs:
        d = build.ensure_cached('examples')
        t = tempfile.TemporaryDirectory(prefix='vt-sim-')
        for n in NAMES:
            p = info(n)
            b = os.path.join(t.name, str(p.v), p.model, 'binaries', PLATFORM[p.v])
            if not os.path.isdir(b):
                os.makedirs(b)
                os.makedirs(os.path.join(t.name, str(p.v), p.model, 'resources'))
                os.symlink(os.path.join(d, 'sim-%d.so' % p.v), os.path.join(b, p.model + '.so'))
        _dirs.clear()
        _dirs[os.getpid()] = t
    if v not in _sims:
        L = C.CDLL(os.path.join(build.ensure_cached('examples'), 'sim-%d.so' % v))
        L.sim_trace.restype = C.c_char_p
        L.sim_set.argtypes = [C.c_int, C.c_void_p, C.c_int]
        L.sim_fail.argtypes = [C.c_char_p, C.c_int, C.c_int]
        _sims[v] = L
    return os.path.join(_dirs[os.getpid()].name, str(v)), _sims[v]


def _fds():
    return len(os.listdir('/proc/self/fd'))


def run(name, s):
    p = info(name)
    d, L = _prepare(p.v)
    L.sim_reset()

    def put(k, v):
        v = [float(x) for x in v]
        L.sim_set(k, (C.c_double * (len(v) + 1))(*v), len(v))
    put(X0, s['x0'])
    put(A, s['a'])
    put(B, s['b'])
    put(JUMP, s['jump'])
    put(Z, s.get('z', []))
    put(UPD, [x for u in s['upd'] for x in u])
    put(CIS, [x for u in s.get('cis', []) for x in u])
    put(STEP, [x for u in s.get('step', []) for x in u])
    put(VALS, s['vals'])
    put(DIMS, [p.nz] + s['dims'])
    put(CLK, s.get('clk', []))
    for fn, occ, st in s['fails']:
        L.sim_fail(fn.encode(), occ, st)
    L.sim_null(s.get('null', 0))
    old = os.getcwd()
    os.chdir(d)
    try:
        for f in os.listdir('.'):
            if f.endswith(('.csv', '.txt')):
                os.unlink(f)
        lib = C.CDLL(os.path.join(build.ensure_cached('examples'), 'examples', name + '.so'))
        if p.synth:
            t = s.get('inputs', [])
            lib.sim_inputs((C.c_double * (len(t) + 1))(*t), len(t))
        n = _fds()
        r = Run()
        r.rc = lib.sim_main(0, None)
        r.fds = _fds() - n
        _ctypes.dlclose(lib._handle)
        r.csv = open(p.out, errors='replace').read() if p.out and os.path.exists(p.out) else None
        log = [f for f in os.listdir('.') if f.endswith('_log.txt')]
        r.log = open(log[0], errors='replace').read() if len(log) == 1 else None
    finally:
        os.chdir(old)
    r.trace = []
    for line in L.sim_trace().decode(errors='replace').split('\n'):
        if line:
            q = line.split(' ', 3)
            r.trace.append((q[0], int(q[1]), int(q[2]), q[3] if len(q) > 3 else ''))
    return r
