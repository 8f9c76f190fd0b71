"""P01: the model description and the binary agree."""
import struct

from .. import api, core, gen, md, mdcheck

T3 = ['Float32', 'Float64', 'Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64', 'Boolean', 'String', 'Binary']
T2 = ['Real', 'Integer', 'Boolean', 'String']
KINDS = ['ME', 'CS', 'SE']


def declared(v, m):
    return {(x.vr, md.getter_type(v, x.type)) for x in md.get(v, m).vars if x.type != 'Clock'}


def parse_start(v, x):
    """declared start value as reported by Inst.do(['get', ...]), None if there is none"""
    if x.start is None or x.type == 'Clock':
        return None
    T = md.getter_type(v, x.type)
    if T == 'String':
        return [x.start]
    if T == 'Binary':
        return [x.start.lower()]
    if T == 'Boolean':
        b = x.start in ('true', '1')
        return [b if v == 3 else int(b)]
    if T == 'Float32':
        return [struct.unpack('<I', struct.pack('<f', float(x.start)))[0]]
    if T in ('Float64', 'Real'):
        return [float(q) for q in x.start.split()]
    return [int(q) for q in x.start.split()]


def size(v, d, x):
    n = 1
    for vr, const in x.dims:
        n *= int(d.byvr[vr].start) if vr is not None else int(const)
    return n


def initialize(a, v):
    if v == 2:
        core.require(a.do(['setup', 0.0, None]) == [0], 'setup failed')
    core.require(a.do(['enterInit'] if v == 2 else ['enterInit', 0.0, None]) == [0], 'entering initialization failed')


class P01(core.Prop):
    id = 'P01'
    counts = {'quick': 900000, 'thorough': 8000000}
    shrink_lists = ('probes',)
    rule = ('a case instantiates an FMU for an interface type and performs generated probes (reads of declared variables '
            'in generated groups and modes, gets/sets of undeclared references and types, counts, nominals, structure, '
            'capabilities); non-trivial if at least one probe was judged; distinct by FMU, interface, mode and probes')
    technique = 'generated probes, oracle read from the model description XML'
    assumptions = ('the undeclared ability of Clocks to save its state, and reading its input clocks, are not judged', 'memory management flags are not judged',)

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        if mdcheck.variables(v, m):
            return {'v': v, 'model': m}
        d = md.get(v, m)
        kinds = KINDS if v == 3 else KINDS[:2]
        decl = [k for k in kinds if k in d.interfaces]
        kind = rng.choice(decl) if rng.random() < 0.9 else rng.choice(kinds)
        em = kind == 'CS' and v == 3 and rng.random() < 0.35
        stage = rng.choice(['inst', 'init', 'run', 'run', 'run']) if v == 3 else rng.choice(['init', 'run', 'run', 'run'])
        probes = [self.probe(rng, v, m, d, kind) for _ in range(rng.randint(1, 6))]
        return {'v': v, 'model': m, 'kind': kind, 'event_mode': em, 'stage': stage, 'probes': probes}

    def probe(self, rng, v, m, d, kind):
        k = rng.random()
        if k < 0.3:
            xs = [x for x in d.vars if x.type != 'Clock']
            T = md.getter_type(v, rng.choice(xs).type)
            xs = [x for x in xs if md.getter_type(v, x.type) == T]
            return ['read', T, [rng.choice(xs).vr for _ in range(rng.randint(1, min(6, len(xs) + 1)))]]
        if k < 0.6:
            dec = declared(v, m)
            vrs = sorted({x.vr for x in d.vars})
            while True:
                T = rng.choice(T3 if v == 3 else T2)
                q = rng.random()
                if q < 0.5:
                    vr = rng.choice(vrs)
                elif q < 0.8:
                    vr = max(0, rng.choice(vrs) + rng.choice([-1, 1, 2, 3, -2]))
                elif q < 0.95:
                    vr = rng.randint(0, 64)
                else:
                    vr = rng.choice([2**32 - 1, 2**31, 2**31 - 1, 2**16, 2**8, rng.getrandbits(32)])
                if (vr, T) not in dec:
                    return ['undeclared', rng.choice(['get', 'get', 'set']), T, vr]
        if k < 0.62 and v == 3:
            cl = [x.vr for x in d.vars if x.type == 'Clock']
            out = [x.vr for x in d.vars if x.type == 'Clock' and x.causality == 'output']
            if cl and rng.random() < 0.3:
                return ['partition', rng.choice([x.vr for x in d.vars if x.type == 'Clock' and x.causality == 'input'])]
            if out and rng.random() < 0.5:
                return ['clock', rng.choice(out), True]
            while True:
                vr = rng.choice([x.vr for x in d.vars] + [max(cl + [0]) + 1, min(cl + [5]) - 1, rng.randint(0, 64), rng.getrandbits(32)])
                if vr not in cl:
                    return ['clock', vr, False]
        if k < 0.64:
            return ['time', rng.randint(1, 20)]
        if k < 0.65:
            return ['flags']
        if k < 0.68:
            return ['counts', rng.choice([-1, 1, 2])]
        if k < 0.72:
            return ['nominals']
        if k < 0.8:
            return ['structure', rng.randint(0, 2**20)]
        if k < 0.86:
            return ['step', rng.randint(2, 40)]
        if k < 0.9:
            return ['state']
        if k < 0.96:
            return ['jacobian', rng.random() < 0.5]
        return ['categories', rng.random() < 0.5]

    def run(self, case):
        bad = mdcheck.variables(case['v'], case['model'])
        core.require(not bad, 'FMI %d.0 %s: %s', case['v'], case['model'], bad)
        v, m, kind, em = case['v'], case['model'], case['kind'], case['event_mode']
        d = md.get(v, m)
        lib = api.load('plain', v, m)
        supported = kind in d.interfaces and (not em or d.interfaces['CS'].get('hasEventMode') == 'true')
        try:
            a = api.Inst(lib, kind, logging=False, event_mode=em, iupd=(v == 3 and kind == 'CS'))
        except api.InstantiationFailed:
            core.require(not supported, '%s with the declared token %s cannot be instantiated as %s%s although the model '
                         'description declares it', m, d.token, kind, ' with event mode' if em else '')
            return {'nontrivial': True, 'key': '%d%s%s%s' % (v, m, kind, em), 'classes': ['refused ' + kind]}
        try:
            core.require(supported, '%s can be instantiated as %s%s but the model description does not declare it',
                         m, kind, ' with event mode' if em else '')
            stage = case['stage']
            mode = 'inst'
            if stage != 'inst':
                initialize(a, v)
                mode = 'init'
            if stage == 'run':
                core.require(a.do(['exitInit']) == [0], 'initialization with nothing set failed')
                mode = 'event' if kind == 'ME' or em else 'clock' if kind == 'SE' else 'step'
            done = []
            for p in case['probes']:
                r = getattr(self, 'p_' + p[0])(a, v, m, d, kind, mode, *p[1:])
                if r:
                    done.append(p[0])
                if r == 'dead':
                    break
            return {'nontrivial': bool(done), 'key': core.canon([v, m, kind, em, mode, case['probes']]),
                    'classes': ['%d-%s-%s' % (v, m, kind)] + ['probe ' + x for x in set(done)] + ['mode ' + mode]}
        finally:
            a.free_all()

    def p_read(self, a, v, m, d, kind, mode, T, vrs):
        xs = [d.byvr[q] for q in vrs]
        n = [size(v, d, x) for x in xs]
        r = a.do(['get', T, vrs, sum(n)])
        core.require(r[0] == 0, 'reading the declared variables %s with Get%s returned status %d', [x.name for x in xs], T, r[0])
        if mode not in ('event', 'step', 'clock'):
            return True
        k = 0
        for x, c in zip(xs, n):
            got = r[1][k:k + c]
            k += c
            want = parse_start(v, x)
            if want is not None:
                core.require(got == want, 'after initialization %s is %r, declared start value is %r', x.name, got, want)
        return True

    def p_undeclared(self, a, v, m, d, kind, mode, what, T, vr):
        if what == 'get':
            r = a.do(['get', T, [vr]])
            core.require(r[0] == 3, 'Get%s of the undeclared value reference %d returned status %d', T, vr, r[0])
        else:
            val = {'String': 'x', 'Binary': '61', 'Float32': 1.0, 'Float64': 1.0, 'Real': 1.0,
                   'Boolean': True if v == 3 else 1}.get(T, 1)
            r = a.do(['set', T, [vr], [val]])
            core.require(r[0] == 3, 'Set%s of the undeclared value reference %d returned status %d', T, vr, r[0])
        return 'dead'

    def p_clock(self, a, v, m, d, kind, mode, vr, ok):
        if mode not in ('event', 'clock'):
            return False
        r = a.do(['getClock', [vr]])
        core.require((r[0] == 0) == ok, 'GetClock of the %s value reference %d returned status %d', 'output clock with' if ok else 'undeclared', vr, r[0])
        return True if ok else 'dead'

    def p_partition(self, a, v, m, d, kind, mode, vr):
        if kind != 'SE' or mode != 'clock':
            return False
        x = d.byvr[vr]
        core.require(a.do(['activate', vr, 0.0])[0] == 0, 'the input clock %s cannot be activated', x.name)
        if x.interval in ('countdown', 'changing', 'tunable'):
            core.require(a.do(['interval', [vr]])[0] == 0, 'the interval of the %s clock %s cannot be read', x.interval, x.name)
        return True

    def p_time(self, a, v, m, d, kind, mode, n):
        if mode not in ('event', 'step') or kind == 'SE':
            return False
        x = [x for x in d.vars if x.causality == 'independent'][0]
        if kind == 'ME':
            core.require(a.do(['enterCT']) == [0] and a.do(['setTime', n / 8]) == [0], 'the time cannot be set')
            t = n / 8
        else:
            if mode == 'event':
                core.require(a.do(['enterStep']) == [0], 'entering step mode failed')
            t = n * gen.STEP[m] if m != 'Roberts' else 3e-5
            if a.do(['doStep', None, t])[0] != 0 or a.event_mode:
                return 'dead'
        r = a.do(['get', 'Float64' if v == 3 else 'Real', [x.vr]])
        core.require(r[0] == 0 and abs(r[1][0] - t) <= (1e-9 if m != 'Roberts' else 1e-5) * max(1, t), 'the independent variable %s is %r at the time %r', x.name, r, t)
        return 'dead'

    def p_flags(self, a, v, m, d, kind, mode):
        at = d.interfaces[kind]
        on = lambda k: at.get(k) == 'true'
        core.require(not on('needsExecutionTool'), 'an execution tool is declared to be needed')
        b = None
        try:
            b = api.Inst(api.load('plain', v, m), kind, logging=False)
        except api.InstantiationFailed:
            pass
        finally:
            if b is not None:
                b.free()
        core.require((b is None) == on('canBeInstantiatedOnlyOncePerProcess'), 'a second instance %s but canBeInstantiatedOnlyOncePerProcess is %s',
                     'failed' if b is None else 'was created', on('canBeInstantiatedOnlyOncePerProcess'))
        if kind != 'CS' or mode != 'step' or m == 'Roberts':
            return True
        s = gen.STEP[m]
        r = [a.do(['doStep', None, s * k])[0] for k in (1, 2, 1)]
        core.require((r == [0] * 3) == on('canHandleVariableCommunicationStepSize'), 'steps of different size returned %r but '
                     'canHandleVariableCommunicationStepSize is %s', r, on('canHandleVariableCommunicationStepSize'))
        if v == 3:
            core.require((len(a.iupds) > 0) == on('providesIntermediateUpdate'), 'there were %d intermediate updates but providesIntermediateUpdate is %s',
                         len(a.iupds), on('providesIntermediateUpdate'))
        return 'dead'

    def nx(self, v, d):
        return sum(size(v, d, d.byvr[q]) for q in d.states)

    def p_counts(self, a, v, m, d, kind, mode, off):
        nx, nz = self.nx(v, d), d.n_indicators
        if v == 3:
            core.require(a.do(['nStates']) == [0, nx], 'number of continuous states is %r, declared are %d', a.do(['nStates']), nx)
            core.require(a.do(['nInd']) == [0, nz], 'number of event indicators is %r, declared are %d', a.do(['nInd']), nz)
        if kind == 'ME' and mode == 'event':
            for n, q in ((nx, 'getStates'), (nx, 'getDer'), (nx, 'getNom'), (nz, 'getInd')):
                core.require(a.do([q, n])[0] == 0, '%s with the declared number %d failed', q, n)
            q, n = (('getStates', nx), ('getDer', nx), ('getInd', nz))[off % 3]
            if n + off >= 0:
                core.require(a.do([q, n + off])[0] == 3, '%s accepted %d values, declared are %d', q, n + off, n)
                return 'dead'
            return True
        return v == 3

    def p_nominals(self, a, v, m, d, kind, mode):
        if kind != 'ME' or mode != 'event':
            return False
        nx = self.nx(v, d)
        r = a.do(['getNom', nx])
        want = []
        for q in d.states:
            x = d.byvr[q]
            want += [float(x.nominal) if x.nominal else 1.0] * size(v, d, x)
        core.require(r[0] == 0 and r[1] == want, 'nominal values %r, declared %r', r, want)
        return True

    def p_structure(self, a, v, m, d, kind, mode, seed):
        """states, derivatives and indicators are the declared variables in the declared order"""
        if kind != 'ME' or mode != 'event' or not d.states:
            return False
        import random
        rng = random.Random(seed)
        core.require(a.do(['enterCT']) == [0], 'entering continuous-time mode failed')
        nx = self.nx(v, d)
        x = [rng.uniform(0.1, 2) for _ in range(nx)]
        if m == 'Roberts':
            x = [rng.uniform(0, 1), rng.uniform(0, 1e-4)]
        a.do(['setStates', x])
        T = 'Float64' if v == 3 else 'Real'
        names = lambda vrs: [d.byvr[q].name for q in vrs]
        r = a.do(['get', T, d.states, nx])
        core.require(r == [0, x], 'after setting the states to %r the variables %s are %r', x, names(d.states), r)
        r, q = a.do(['get', T, d.derivatives, nx]), a.do(['getDer', nx])
        core.require(api.same(r, q), 'the derivatives are %r but the variables %s are %r', q, names(d.derivatives), r)
        if d.indicators:
            r, q = a.do(['get', T, d.indicators, len(d.indicators)]), a.do(['getInd', len(d.indicators)])
            core.require(m == 'BouncingBall' or api.same(r, q), 'the event indicators are %r but the variables %s are %r',
                         q, names(d.indicators), r)
        return 'dead'

    def p_step(self, a, v, m, d, kind, mode, n):
        s = d.interfaces.get('CS', {}).get('fixedInternalStepSize')
        if kind != 'CS' or v != 3 or s is None or mode not in ('step', 'event'):
            return False
        s = float(s)
        if mode == 'event':
            core.require(a.do(['enterStep']) == [0], 'entering step mode failed')
        h = max(n * gen.STEP[m], 2e-5)
        if m == 'Roberts':
            h = max(h, 3e-5)
        r = a.do(['doStep', None, h])
        core.require(r[0] == 0, 'step failed')
        ts = [0.0] + [u[0] for u in a.iupds]
        core.require(len(ts) > 1, 'no intermediate update')
        for p, q in zip(ts, ts[1:]):
            core.require(abs(q - p - s) <= 1e-6 * s + 1e-12, 'internal step size is %r, declared is %r', q - p, s)
        return 'dead'

    def p_state(self, a, v, m, d, kind, mode):
        at = d.interfaces[kind]
        gs = at.get('canGetAndSetFMUState' if v == 3 else 'canGetAndSetFMUstate') == 'true'
        se = at.get('canSerializeFMUState' if v == 3 else 'canSerializeFMUstate') == 'true'
        if gs:
            core.require(a.do(['getState', 0]) == [0, True], 'the state cannot be saved although declared')
            core.require(a.do(['setState', 0]) == [0], 'the state cannot be restored although declared')
        if se:
            core.require(a.do(['serialize', 0, 0]) == [0], 'the state cannot be serialized although declared')
            core.require(a.do(['deserialize', 0, 1]) == [0], 'the state cannot be deserialized although declared')
        if kind == 'SE':
            return gs or se     # Clocks saves its state without declaring it
        if not gs:
            core.require(a.do(['getState', 0])[0] != 0, 'the state can be saved although not declared')
            return 'dead'
        if not se:
            core.require(a.do(['serialize', 0, 0])[0] != 0, 'the state can be serialized although not declared')
            return 'dead'
        return True

    def p_jacobian(self, a, v, m, d, kind, mode, adj):
        if mode not in ('init', 'event', 'step'):
            return False
        if adj and v == 2:
            return False
        name = 'providesAdjointDerivatives' if adj else 'providesDirectionalDerivatives' if v == 3 else 'providesDirectionalDerivative'
        ann = any(i.get(name) == 'true' for i in d.interfaces.values())
        fl = [x.vr for x in d.vars if x.type in ('Float64', 'Real')]
        u, k = (d.derivatives[0], d.states[0]) if d.derivatives and not size(v, d, d.byvr[d.states[0]]) > 1 else (fl[-1], fl[0])
        r = a.do(['adjDer' if adj else 'dirDer', [u], [k], [1.0]])
        core.require((r[0] == 0) == ann, '%s derivatives returned status %d but %s is %s', 'adjoint' if adj else 'directional',
                     r[0], name, ann)
        return 'dead' if not ann else True

    def p_categories(self, a, v, m, d, kind, mode, on):
        if not d.log_categories:
            return False
        r = a.do(['debug', on, d.log_categories])
        core.require(r == [0], 'the declared log categories %r are refused', d.log_categories)
        return True


PROP = P01()
