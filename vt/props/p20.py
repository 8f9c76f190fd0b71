"""P20: the intermediate update callback reports every internal step consistently."""
from .. import api, core, drive, gen, md
from .p09 import cps, inputs, start_time

MODELS = [m for v, m in gen.FMUS if v == 3 and m != 'Clocks']


class P20(core.Prop):
    id = 'P20'
    counts = {'quick': 24000, 'thorough': 500000}
    shrink_lists = ('steps', 'reads', 'pre', 'init')
    rule = ('a case simulates with generated values and steps three times: with the callback (reading generated variables in it), '
            'without it, and without it one internal step at a time; non-trivial if the callback was invoked at least twice; '
            'distinct by values, steps and reads')
    technique = 'generated scenarios, metamorphic oracle (callback values == values of a run stopped at that internal step; results == run without callback)'
    assumptions = ('values read in the callback of an internal step with an event may be those before or after the event',
                   'Roberts: the internal step is smaller than the time tolerance, so the run is not stopped at each internal step')

    def gen(self, rng, i, tier):
        m = MODELS[i % len(MODELS)]
        o = gen.options(rng, 3, m, 'CS')
        o.pop('iupd', None)
        st = start_time(rng, m)
        c = {'model': m, 'opts': o, 'start': st}
        dims = None
        if m == 'StateSpace' and rng.random() < 0.5:
            dims = c['dims'] = [rng.randint(0, 5) for _ in range(3)]
        c['pre'] = inputs(rng, 3, m, 'CS', 'inst', dims)
        c['init'] = inputs(rng, 3, m, 'CS', 'init', dims) if rng.random() < 0.4 else []
        pts = [p for p in cps(rng, m, st, rng.randint(1, 8)) if p < st + (25 if m == 'Stair' else (400 if rng.random() < 0.1 else 60) * gen.STEP[m])] or [st + gen.STEP[m] * 5]
        if m != 'Stair' and rng.random() < 0.003:
            pts.append(pts[-1] + gen.STEP[m] * (rng.randint(3000, 6000) if rng.random() < 0.1 else rng.randint(500, 1500)))
        c['steps'] = [[p, inputs(rng, 3, m, 'CS', 'step', dims) if rng.random() < 0.4 else []] for p in pts]
        if rng.random() < 0.4:
            c['stop'] = pts[-1] + rng.choice([0, 0, 0, 0.4]) * gen.STEP[m]
        r = []
        full = drive.reads(3, m, dims)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            op = rng.choice(full)
            if m == 'StateSpace':
                r.append(op)
            else:
                n = rng.randint(1, len(op[2]))
                r.append(['get', op[1], rng.sample(op[2], n)])
        if rng.random() < 0.6:
            r += full
        if m == 'BouncingBall' and rng.random() < 0.4:
            r.append(['outDer', [1, 3], [1, 1]])
        if m == 'VanDerPol' and rng.random() < 0.4:
            r.append(['dirDer', [2, 4], [1, 3], [1.0, 0.5]])
        c['reads'] = r
        return c

    def run(self, case):
        m, o, st, dims = case['model'], case['opts'], case['start'], case.get('dims')
        lib = api.load('plain', 3, m)
        a = api.Inst(lib, 'CS', logging=False, iupd=True, **o)
        b = c = None
        try:
            b = api.Inst(lib, 'CS', logging=False, **o)
            c = api.Inst(lib, 'CS', logging=False, **o)
            return self.go(case, a, b, c)
        finally:
            for x in (a, b, c):
                if x:
                    x.free()

    def handle(self, x):
        s = x.do(['enterEvent']), x.do(['update'])
        e = x.do(['enterStep'])
        return [s[0], s[1], e]

    def go(self, case, a, b, c):
        m, o, st, dims = case['model'], case['opts'], case['start'], case.get('dims')
        h = gen.STEP[m]
        ns = len(api.stray)
        for x in (a, b, c):
            # b goes beyond the end in half internal steps
            drive.begin(x, 3, m, st, None if x is b else case.get('stop'), dims, case['pre'], case['init'])
        core.require(not a.iupds, 'the callback was invoked during initialization')
        full = drive.reads(3, m, dims)
        a.iupd_reads = case['reads'] + full
        nr = len(case['reads'])
        single = m != 'Roberts'
        k = 0               # internal steps so far
        events = 0
        early = 0
        last = st
        for p, sets in case['steps']:
            for op in sets:
                for x in (a, b, c):
                    if x.do(op)[0] != 0:
                        raise core.Skip
            for _ in range(3000):
                if p <= a.cp or p - a.cp <= 1e-12 * max(1, abs(p)):
                    break
                a.iupds = []
                hh = p - a.cp
                s = a.do(['doStep', None, hh])
                t = c.do(['doStep', None, hh])
                if t[0] != 0:
                    raise core.Skip
                core.require(s == t, 'DoStep to %r returned %r with the callback, %r without', p, s, t)
                va, vc = a.run(full), c.run(full)
                core.require(api.same(va, vc), 'after DoStep to %r the values are %r with the callback, %r without', p, va, vc)
                need, term, er, lst = s[1]
                for j, u in enumerate(a.iupds):
                    k += 1
                    when = 'internal step %d, %d. invocation in DoStep to %r' % (k, j + 1, p)
                    core.require(u[1:5] == [False, True, True, False], '%s: flags %r', when, u[1:5])
                    core.require(u[0] > last, '%s: time %r after %r', when, u[0], last)
                    core.require(api.close(u[0], st + k * h, 1e-12, 1e-9 * h), '%s: time %r, expected %r', when, u[0], st + k * h)
                    last = u[0]
                    for op, q in zip(a.iupd_reads, u[5]):
                        core.require(q[0] == 0, '%s: %r returned %r in the callback', when, op, q)
                    vals = u[5][nr:]
                    tm = self.time_of(full, vals)
                    core.require(tm is None or tm == u[0], '%s: the time variable is %r, the reported time %r', when, tm, u[0])
                    for op, q in zip(case['reads'], u[5]):
                        if op in full:
                            core.require(api.same(q, vals[full.index(op)]), '%s: reading %r twice gives %r and %r', when, op, q, vals[full.index(op)])
                    if single:
                        events += self.compare(case, b, full, vals, st + (k + 0.5) * h, when, j == len(a.iupds) - 1, need)
                core.require(lst == last, 'DoStep to %r stopped at %r, the last reported internal step was %r', p, lst, last)
                core.require(k == 0 or api.close(lst, st + k * h, 1e-12, 1e-9 * h), 'DoStep to %r stopped at %r after %d reported internal steps', p, lst, k)
                if term:
                    return self.info(case, k, events, early, True)
                if need:
                    x, y = self.handle(a), self.handle(c)
                    core.require(x == y, 'event handling returned %r with the callback, %r without', x, y)
                    if x[1][0] != 0 or (single and self.handle(b)[1][0] != 0):
                        raise core.Skip
                    if x[1][1][1]:
                        return self.info(case, k, events, early, True)
                if not er:
                    break
                early += 1
        va, vc = a.run(full), c.run(full)
        core.require(api.same(va, vc), 'finally the values are %r with the callback, %r without', va, vc)
        core.require(len(api.stray) == ns, 'a callback was invoked with a foreign environment')
        return self.info(case, k, events, early, False)

    def time_of(self, full, vals):
        for op, q in zip(full, vals):
            if op[1] == 'Float64' and 0 in op[2]:
                # time is value reference 0 and a scalar in all models
                return q[1][0] if sorted(op[2])[0] == op[2][0] == 0 else None
        return None

    def compare(self, case, b, full, vals, target, when, is_last, need):
        """take one internal step with b and compare its values with those of the callback"""
        m = case['model']
        s = b.do(['doStep', None, target - b.cp])
        if s[0] != 0:
            raise core.Skip
        w = b.run(full)
        ev = s[1][0]
        if not api.same(vals, w):
            # the event may be handled before or after the callback
            if m == 'BouncingBall' and not b.event_mode:
                x = dict(zip(full[0][2], vals[0][1]))
                ev = x[1] <= 0
            elif m == 'Stair' and not b.event_mode:
                x, y = [q[[op[1] for op in full].index('Int32')][1][0] for q in (vals, w)]
                ev = y == x + 1
            core.require(ev and m in ('BouncingBall', 'Stair'), '%s: values in the callback %r, after a DoStep ending at that internal step %r', when, vals, w)
        if s[1][0] and not (is_last and need):
            # handled inside the DoStep of the other run
            if self.handle(b)[1][0] != 0:
                raise core.Skip
            b.cp = target if not s[1][2] else b.cp
        return 1 if ev else 0

    def info(self, case, k, events, early, term):
        cl = ['%s%s%s' % (case['model'], '-event' if case['opts'].get('event_mode') else '', '-early' if case['opts'].get('early_return') else '')]
        if events:
            cl.append('events')
        if early:
            cl.append('early returns')
        if term:
            cl.append('terminated')
        if 'stop' in case:
            cl.append('stop time')
        if case['reads']:
            cl.append('generated reads')
        return {'nontrivial': k >= 2, 'classes': cl}


PROP = P20()
