"""P13: Model Exchange with the same solver reproduces Co-Simulation."""
from .. import api, core, drive, gen, md
from .p09 import MODELS, cps, inputs, start_time


class Euler:
    """explicit Euler on the Model Exchange interface"""

    def __init__(self, a, v, m, start, dims):
        self.a, self.v, self.m, self.h = a, v, m, gen.STEP[m]
        self.start, self.n, self.t = start, 0, start
        self.nx = dims[1] if m == 'StateSpace' else gen.NX[m]
        self.nz = gen.NZ.get(m, 0)
        self.events = 0
        self.term = False
        self.next = None
        self.update()
        self.do(['enterCT'])
        self.z = self.do(['getInd', self.nz])[1]

    def do(self, op):
        r = self.a.do(op)
        if r[0] != 0:
            raise core.Skip
        return r

    def update(self):
        for _ in range(10):
            u = self.do(['update'])[1]
            self.term = self.term or u[1]
            self.next = u[5] if u[4] else None
            if not u[0] or self.term:
                return
        raise core.Skip

    def close(self, a, b):
        return abs(a - b) <= 1e-5 * max(1, abs(a), abs(b))

    def to(self, p):
        while not self.term:
            nt = self.t + self.h
            if nt > p and not self.close(nt, p):
                return
            if self.nx:
                x, d = self.do(['getStates', self.nx])[1], self.do(['getDer', self.nx])[1]
                x = [q + self.h * e for q, e in zip(x, d)]
            self.n += 1
            self.t = self.start + self.n * self.h
            self.do(['setTime', self.t])
            if self.nx:
                self.do(['setStates', x])
            z = self.do(['getInd', self.nz])[1]
            ev = any((q <= 0 < e) or (q > 0 >= e) for q, e in zip(self.z, z))
            self.z = z
            c = self.do(['completed'])[1]
            if ev or c[0] or (self.next is not None and self.t >= self.next):
                self.events += 1
                self.do(['enterEvent'])
                self.update()
                self.do(['enterCT'])
                self.z = self.do(['getInd', self.nz])[1]


class P13(core.Prop):
    id = 'P13'
    counts = {'quick': 60000, 'thorough': 800000}
    shrink_lists = ('points', 'pre', 'init')
    rule = ('a case simulates generated parameters, start values and inputs through both interfaces to generated '
            'communication points; non-trivial if internal steps were taken')
    technique = 'generated scenarios, differential oracle (Model Exchange with explicit Euler == Co-Simulation)'
    assumptions = ('the ball starts above the ground; moderate values; tolerance 1e-9',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        o = gen.options(rng, v, m, 'CS')
        if m == 'Roberts':
            o.pop('early_return', None)
        st = start_time(rng, m)
        c = {'v': v, 'model': m, 'opts': o, 'start': st}
        dims = None
        if m == 'StateSpace' and rng.random() < 0.5:
            dims = c['dims'] = [rng.randint(0, 5) for _ in range(3)]
        c['pre'] = inputs(rng, v, m, 'CS', 'inst', dims)
        c['init'] = inputs(rng, v, m, 'CS', 'init', dims) if rng.random() < 0.4 else []
        pts = cps(rng, m, st, rng.randint(1, 5))
        c['points'] = [[p, self.common(inputs(rng, v, m, 'CS', 'step', dims), v, m) if rng.random() < 0.5 else []] for p in pts]
        return c

    def common(self, ops, v, m):
        """sets that are also possible in Model Exchange after initialization"""
        return [op for op in ops if gen.settable(v, m, 'ME', op[2][0], op[1], 'event')]

    def run(self, case):
        v, m, st = case['v'], case['model'], case['start']
        dims = case.get('dims') or (3, 3, 3)
        lib = api.load('plain', v, m)
        if m == 'BouncingBall':
            for op in case['pre'] + case['init']:
                if op[2][0] == 1 and op[3][0] <= 0:
                    raise core.Skip
        a, b = api.Inst(lib, 'CS', logging=False, **case['opts']), api.Inst(lib, 'ME', logging=False)
        rd = drive.reads(v, m, dims)
        try:
            for x in (a, b):
                drive.begin(x, v, m, st, None, case.get('dims'), case['pre'], case['init'])
            e = Euler(b, v, m, st, dims)
            for p, sets in case['points']:
                if sets:
                    for op in sets:
                        if a.do(op)[0] != 0:
                            raise core.Skip
                    e.do(['enterEvent'])
                    for op in sets:
                        e.do(op)
                    e.do(['enterCT'])
                if e.term:
                    break
                q = drive.to(a, v, p)
                e.to(p)
                if q == 'term' or e.term:
                    if not a.event_mode:
                        core.require(e.term and q == 'term', 'only one of the interfaces requests to terminate by %r', p)
                    break
                x, y = a.run(rd), b.run(rd)
                for op, f, g in zip(rd, x, y):
                    core.require(api.same(f, g) or api.close(f, g, 1e-9, 1e-12 if m == 'Roberts' else 1e-9),
                                 'at %r %r returns %r in Co-Simulation and %r in Model Exchange', p, op, f, g)
            return {'nontrivial': e.n > 0, 'classes': ['%d-%s' % (v, m)] + sorted(case['opts']) + (['events'] if e.events else [])}
        finally:
            a.free()
            b.free()


PROP = P13()
