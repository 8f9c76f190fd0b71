"""P09: Co-Simulation follows the model equations with the fixed internal step."""
from .. import api, core, gen, md, ref

MODELS = [(v, m) for v, m in gen.FMUS if m not in ('Clocks',)]


def cps(rng, model, start, n, small=False):
    """increasing communication points, clear of the time tolerance"""
    s = gen.STEP[model]
    k = 0
    out = []
    f = 0.0
    for _ in range(n):
        q = rng.random()
        if q < 0.35:
            k += rng.randint(1, 10)
        elif q < 0.75:
            k += rng.randint(5, 60)
        elif q < 0.9 and not small:
            k += rng.randint(60, 500)
        elif q < 0.902 and not small:
            k += rng.randint(500, 12000) if q < 0.9018 else rng.randint(12000, 80000)
        f0 = f
        f = rng.choice([0.0, 0.0, 0.5, 0.3, 0.7]) if model != 'Roberts' else 0.5
        if not out or start + (k + f) * s > out[-1] + 0.05 * s:
            out.append(start + (k + f) * s)
        else:
            f = f0
            k += 1
            out.append(start + (k + f) * s)
    return out


def inputs(rng, v, model, kind, mode, dims=None, wild=False, dae=False):
    """a list of set ops for randomly chosen settable variables in the given mode"""
    d = md.get(v, model)
    ops = []
    for x in d.vars:
        if x.type == 'Clock':
            continue
        T = md.getter_type(v, x.type)
        if gen.settable(v, model, kind, x.vr, T, mode) and rng.random() < 0.4:
            if model == 'Roberts' and x.vr == 6 and not dae:
                continue
            n = gen.SS_SIZE[x.vr](*(dims or (3, 3, 3))) if model == 'StateSpace' else 1
            ops.append(['set', T, [x.vr], [gen.value(rng, v, model, x, wild) for _ in range(n)]])
    rng.shuffle(ops)
    return ops


def start_time(rng, model):
    if model == 'Stair':
        return rng.choice([0.0, 0.0, 0.1, -1.0, 0.5, -0.3, 0.9])
    return rng.choice([0.0, 0.0, 0.0, 1.0, -2.5, 0.3, 7.125, rng.uniform(-5, 5)])


def apply_ref(r, v, op):
    if op[0] == 'set':
        r.set(op[2][0], op[3])


def read_all(a, v, model, r):
    """all variables of the FMU in the order of the model description"""
    d = md.get(v, model)
    out = {}
    for x in d.vars:
        if x.type == 'Clock' or x.vr in out:
            continue
        T = md.getter_type(v, x.type)
        n = 1
        if model == 'StateSpace' and x.vr in gen.SS_SIZE:
            n = gen.SS_SIZE[x.vr](r.m, r.n, r.r)
        if n == 0:
            continue
        q = a.do(['get', T, [x.vr], n])
        out[x.vr] = q[1] if q[0] == 0 else ('status', q[0])
    return out


WIDE = {'BouncingBall': {1: (-5, 300), 3: (-500, 500), 5: (-1000, 200), 6: (-3, 3)}, 'VanDerPol': {1: (-50, 50), 3: (-1e3, 1e3), 5: (-1e4, 1e4)},
        'Dahlquist': {1: (-1e9, 1e9), 3: (-1e4, 1e4)}, 'StateSpace': {}}


def wide(rng, m, vr):
    a, b = WIDE[m].get(vr, (-1e6, 1e6))
    return rng.choice([float(a), float(b), 0.0]) if rng.random() < 0.1 else rng.uniform(a, b) * rng.choice([1, 1, 0.1, 0.01])


class P09(core.Prop):
    id = 'P09'
    counts = {'quick': 200000, 'thorough': 2500000}
    shrink_lists = ('steps', 'pre')
    rule = ('a case sets generated start values, parameters and inputs before and between communication steps of '
            'generated sizes; non-trivial if at least one internal step was taken')
    technique = 'generated scenarios against an independent Euler reference model'
    assumptions = ('start times within [-5, 8], communication points not within the FMU time tolerance of an internal '
                   'step unless on it, moderate values (no overflow)',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        o = gen.options(rng, v, m, 'CS')
        st = start_time(rng, m)
        if m == 'Roberts':
            # its internal step is smaller than the time tolerance of the FMUs, so that the end of a
            # step after an early return is not determined by the communication point
            o.pop('early_return', None)
        c = {'v': v, 'model': m, 'opts': o, 'start': st}
        dims = None
        if m == 'StateSpace' and rng.random() < 0.5:
            dims = [rng.randint(0, 5) for _ in range(3)]
            c['dims'] = dims
        dae = m == 'Roberts' and rng.random() < 0.3
        if dae:
            c['dae'] = True     # y3 is given by the importer
        c['pre'] = inputs(rng, v, m, 'CS', 'inst', dims, dae=dae)
        c['init'] = inputs(rng, v, m, 'CS', 'init', dims, dae=dae) if rng.random() < 0.5 else []
        pts = cps(rng, m, st, rng.randint(1, 8))
        if m == 'Stair':
            pts = [p for p in pts if p < st + 30] or [st + 1.0]
        c['steps'] = [[p, inputs(rng, v, m, 'CS', 'step', dims, dae=dae) if rng.random() < 0.5 else []] for p in pts]
        if m in WIDE and rng.random() < 0.15:
            # large and unphysical values, for a few internal steps
            c['wide'] = True
            c['steps'] = [q for q in c['steps'] if q[0] < st + 6.8 * gen.STEP[m]] or [[st + rng.randint(1, 4) * gen.STEP[m], []]]
            for ops in [c['pre'], c['init']] + [q[1] for q in c['steps']]:
                for op in ops:
                    if op[1] in ('Real', 'Float64'):
                        op[3] = [wide(rng, m, op[2][0]) for _ in op[3]]
        return c

    def run(self, case):
        v, m, o, st = case['v'], case['model'], case['opts'], case['start']
        a = api.Inst(api.load('plain', v, m), 'CS', logging=False, **o)
        r = ref.make(m)
        try:
            def setup(op):
                s = a.do(op)
                if s[0] != 0:
                    raise core.Skip
                apply_ref(r, v, op)
            if case.get('dims') is not None:
                a.do(['enterConf'])
                a.do(['set', 'UInt64', [1, 2, 3], case['dims']])
                if a.do(['exitConf'])[0] != 0:
                    raise core.Skip
                r.m, r.n, r.r = case['dims']
            if case.get('dae'):
                if a.run([['enterConf'], ['set', 'Boolean', [1], [True]], ['exitConf']]) != [[0]] * 3:
                    raise core.Skip
                r.dae = True
            for op in case['pre']:
                setup(op)
            if v == 2:
                a.do(['setup', st, None])
            a.do(['enterInit'] if v == 2 else ['enterInit', st, None])
            for op in case['init']:
                setup(op)
            if m == 'StateSpace':
                for k in range(5):
                    r.xs[k] = r.x0[k]
            if a.do(['exitInit'])[0] != 0:
                raise core.Skip
            em = o.get('event_mode')
            cs = ref.CS(r, st)
            if em:
                a.do(['update'])
                a.do(['enterStep'])
                r.event()
            total = 0
            for p, sets in case['steps']:
                if p <= a.cp:
                    continue
                for op in sets:
                    setup(op)
                guard = 0
                handled = False
                while True:
                    s = a.do(['doStep', None, p - a.cp])
                    if s[0] == 2 and v == 2:
                        break
                    if s[0] != 0:
                        raise core.Skip     # statuses are judged by P04/P11
                    if v == 3 and s[1][0]:
                        # event handling needed
                        a.do(['enterEvent'])
                        u = a.do(['update'])
                        if u[0] != 0:
                            raise core.Skip
                        if u[1][1]:
                            handled = True
                        a.do(['enterStep'])
                    if v == 2 or s[1][1] or handled or not s[1][2]:
                        break
                    guard += 1
                    if guard > 2000:
                        raise core.Skip
                    if p - a.cp <= 1e-12:
                        break
                cs.advance(p)
                total += cs.n
                if r.terminate:
                    break       # the end of the simulation is judged by P15
                got = read_all(a, v, m, r)
                size = max(abs(x) for vr in got for x in r.get(vr)) if case.get('wide') else 0.0
                if not size < 1e200:
                    break
                for vr, val in got.items():
                    if m == 'Feedthrough' and vr != 0:
                        continue
                    want = r.get(vr)
                    core.require(val == want or close(val, want, m, size),
                                 'at communication point %r variable %s (vr %d) is %r, the model equations give %r',
                                 p, md.get(v, m).byvr[vr].name, vr, val, want)
            return {'nontrivial': total > 0,
                    'classes': ['%d-%s' % (v, m)] + (['events'] if cs.events else []) + (['terminated'] if r.terminate else [])
                    + (['given y3'] if case.get('dae') else []) + (['wide'] if case.get('wide') else [])
                    + sorted(o)}
        finally:
            a.free_all()


def close(a, b, m, size=0.0):
    # coarse enough for reordered floating point operations, far below the effect of one internal step
    return api.close(a, b, 1e-9, 1e-12 if m == 'Roberts' else 1e-9 * max(1.0, size))


PROP = P09()
