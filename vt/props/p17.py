"""P17: StateSpace computes its linear system for every dimension."""
from .. import api, core, gen, ref

H = 1e-3
NAMES = {4: 'A', 5: 'B', 6: 'C', 7: 'D', 8: 'x0', 9: 'u', 10: 'y', 11: 'x', 12: 'der(x)'}


def dot(*pairs):
    """sum of products; None (unknown) if any factor is unknown"""
    s = 0.0
    for a, b in pairs:
        if a is None or b is None:
            return None
        s += a * b
    return s


class Sys:
    """x' = Ax + Bu, y = Cx + Du; elements that were out of range since they were set are unknown (None)"""

    def __init__(self):
        self.m = self.n = self.r = 3
        self.val = {}
        for q in (4, 5, 6, 7):
            for i in range(3):
                for j in range(3):
                    self.val[q, i, j] = 1.0 if i == j else 0.0
        for i in range(3):
            self.val[9, i, 0] = float(i + 1)
            self.val[8, i, 0] = self.val[11, i, 0] = 0.0

    def shape(self, q):
        m, n, r = self.m, self.n, self.r
        return {4: (n, n), 5: (n, m), 6: (r, n), 7: (r, m), 8: (n, 1), 9: (m, 1), 10: (r, 1), 11: (n, 1), 12: (n, 1)}[q]

    def size(self, q):
        if q == 0:
            return 1
        a, b = self.shape(q)
        return a * b

    def resize(self, vr, d):
        setattr(self, 'mnr'[vr - 1], d)
        for q, i, j in list(self.val):
            a, b = self.shape(q)
            if i >= a or j >= b:
                del self.val[q, i, j]

    def v(self, q, i, j=0):
        return self.val.get((q, i, j))

    def set(self, q, vals):
        a, b = self.shape(q)
        for i in range(a):
            for j in range(b):
                self.val[q, i, j] = vals[i * b + j]

    def lin(self, q1, q2, rows):
        return [dot(*[(self.v(q1, i, j), self.v(11, j)) for j in range(self.n)] +
                    [(self.v(q2, i, j), self.v(9, j)) for j in range(self.m)]) for i in range(rows)]

    def get(self, q):
        if q == 10:
            return self.lin(6, 7, self.r)
        if q == 12:
            return self.lin(4, 5, self.n)
        a, b = self.shape(q)
        return [self.v(q, i, j) for i in range(a) for j in range(b)]

    def euler(self):
        x, d = self.get(11), self.get(12)
        self.set(11, [None if p is None or q is None else p + H * q for p, q in zip(x, d)])


class P17(core.Prop):
    id = 'P17'
    counts = {'quick': 250000, 'thorough': 2500000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated history of configuration, reconfiguration, set, get, step and state calls; initial dimensions '
            'cycle through all 216 triples; non-trivial if a derivative, output or state was compared after coefficients were set')
    technique = 'generated histories against an independent dense linear system'
    assumptions = ('moderate coefficients; relative and absolute tolerance 1e-9; elements that were out of range are not judged '
                   'until they are set again',)

    def gen(self, rng, i, tier):
        kind = rng.choice(['ME', 'CS', 'CS'])
        ev = kind == 'CS' and rng.random() < 0.5
        d = [i % 6, i // 6 % 6, i // 36 % 6]
        ops = []
        s = Sys()
        val = lambda: gen.nice_float(rng, -3, 3)

        def sets(p, qs):
            qs = [q for q in qs if rng.random() < p]
            rng.shuffle(qs)
            while qs:
                k = rng.randint(1, len(qs))
                ops.append(['set', 'Float64', qs[:k], [val() for q in qs[:k] for _ in range(s.size(q))]])
                qs = qs[k:]

        def dims(new):
            vrs = [1, 2, 3]
            rng.shuffle(vrs)
            if rng.random() < 0.5:
                ops.append(['set', 'UInt64', vrs, [new[q - 1] for q in vrs]])
            else:
                ops.extend(['set', 'UInt64', [q], [new[q - 1]]] for q in vrs)
            s.m, s.n, s.r = new

        def gets(extra=()):
            k = rng.random()
            if k < 0.5:
                qs = [rng.choice([4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 12, 12]) for _ in range(rng.randint(1, 4))]
                ops.append(['get', 'Float64', qs, sum(s.size(q) for q in qs)])
            elif k < 0.65:
                ops.append(['get', 'UInt64', [1, 2, 3]])
            elif k < 0.75:
                ops.append(['nStates'])
            elif extra:
                ops.append(rng.choice(extra)())
        if rng.random() < 0.95:
            ops.append(['enterConf'])
            dims(d)
            ops.append(['exitConf'])
            if rng.random() < 0.1:
                gets()
                ops.append(['enterConf'])
                dims([rng.randint(0, 5) for _ in range(3)])
                ops.append(['exitConf'])
        full = rng.random() < 0.85
        if rng.random() < 0.3:
            sets(1 if full else 0.4, [4, 5, 6, 7, 8, 9])
            ops.append(['enterInit', rng.choice([0.0, 0.0, 1.5, -2.0]), None])
            sets(0.2, [4, 5, 6, 7, 8, 9])
        else:
            ops.append(['enterInit', rng.choice([0.0, 0.0, 1.5, -2.0]), None])
            sets(1 if full else 0.4, [4, 5, 6, 7, 8, 9])
        me = [lambda: ['getStates', s.n], lambda: ['getDer', s.n], lambda: ['getNom', s.n]]
        for _ in range(rng.randint(0, 2)):
            gets(me if kind == 'ME' else ())
        ops.append(['exitInit'])
        mode = 'event' if kind == 'ME' or ev else 'step'
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            if mode == 'event':
                if k < 0.35:
                    mode = 'ct' if kind == 'ME' else 'step'
                    ops.append(['enterCT' if kind == 'ME' else 'enterStep'])
                elif k < 0.5:
                    sets(0.3, [4, 5, 6, 7, 9, 11])
                elif k < 0.6:
                    ops.append(['update'])
                elif k < 0.75:
                    ops.append(['enterConf'])
                    dims([rng.randint(0, 5) if rng.random() < 0.6 else q for q in (s.m, s.n, s.r)])
                    ops.append(['exitConf'])
                    mode = 'event' if kind == 'ME' else 'step'
                    if kind == 'ME' and rng.random() < 0.7:
                        sets(1, [4, 5, 6, 7, 9, 11])
                    elif rng.random() < 0.5:
                        sets(1, [4, 5, 6, 7, 9])
                else:
                    gets(me if kind == 'ME' else ())
            elif mode == 'ct':
                if k < 0.2:
                    ops.append(['enterEvent'])
                    mode = 'event'
                elif k < 0.4:
                    ops.append(['setStates', [val() for _ in range(s.n)]])
                elif k < 0.55:
                    sets(0.3, [4, 5, 6, 7, 9, 11])
                elif k < 0.6:
                    ops.append(['completed'])
                else:
                    gets(me)
            else:
                if k < 0.1 and ev:
                    ops.append(['enterEvent'])
                    mode = 'event'
                elif k < 0.4:
                    ops.append(['doStep', None, H * rng.randint(1, 12)])
                elif k < 0.55:
                    sets(0.3, [4, 5, 6, 7, 8, 9])
                elif k < 0.65:
                    ops.append(['enterConf'])
                    dims([rng.randint(0, 5) if rng.random() < 0.6 else q for q in (s.m, s.n, s.r)])
                    ops.append(['exitConf'])
                    if rng.random() < 0.5:
                        sets(1, [4, 5, 6, 7, 9])
                else:
                    gets()
        wrong = None
        if rng.random() < 0.25:
            q = rng.choice([4, 5, 6, 7, 8, 9, 10, 11, 12])
            wrong = [rng.choice(['get', 'set']), q, rng.choice([-1, 1, 1, 2])]
        return {'kind': kind, 'event_mode': ev, 'ops': ops, 'wrong': wrong}

    def run(self, c):
        a = api.Inst(api.load('plain', 3, 'StateSpace'), c['kind'], logging=False, event_mode=c['event_mode'])
        s = Sys()
        mode = 'inst'
        changed = judged = 0
        cls = set()
        try:
            for op in c['ops']:
                n = op[0]
                if n == 'get' and op[1] == 'Float64':
                    op = op[:3] + [sum(s.size(q) for q in op[2])]
                elif n == 'set' and op[1] == 'Float64':
                    if not all(gen.settable(3, 'StateSpace', c['kind'], q, 'Float64', mode) for q in op[2]):
                        continue
                    k = sum(s.size(q) for q in op[2])
                    op = op[:3] + [(op[3] + [0.5] * 200)[:k]]
                elif n == 'setStates':
                    op = [n, (op[1] + [0.5] * 5)[:s.n]]
                elif n in ('getStates', 'getDer', 'getNom'):
                    op = [n, s.n]
                if n != 'set' and mode not in gen.ALLOWED3[n]:
                    raise core.Skip
                r = a.do(op)
                if n == 'nStates' or n[:3] == 'get' or n == 'set' and op[1] == 'Float64' or n == 'setStates':
                    core.require(r[0] == 0, '%r with m, n, r = %d, %d, %d in mode %s returns status %r', op, s.m, s.n, s.r, mode, r[0])
                elif r[0] != 0:
                    raise core.Skip
                if n == 'set' and op[1] == 'UInt64':
                    for q, x in zip(op[2], op[3]):
                        s.resize(q, x)
                    cls.add('reconfigured' if mode == 'reconf' else 'configured')
                elif n == 'set':
                    p = 0
                    for q in op[2]:
                        x = op[3][p:p + s.size(q)]
                        p += s.size(q)
                        s.set(q, x)
                        if q == 8 and mode in ('inst', 'init', 'conf'):
                            s.set(11, x)
                        changed += 1
                elif n == 'setStates':
                    s.set(11, op[1])
                elif n == 'doStep':
                    if r[1][0] or r[1][1] or r[1][2]:
                        raise core.Skip
                    for _ in range(round(op[2] / H)):
                        s.euler()
                    cls.add('steps')
                elif n == 'nStates':
                    core.require(r[1] == s.n, 'number of states is %r for n = %d', r[1], s.n)
                elif n == 'get' and op[1] == 'UInt64':
                    core.require(r[1] == [s.m, s.n, s.r], 'm, n, r are %r, configured %r', r[1], [s.m, s.n, s.r])
                elif n == 'get' or n in ('getStates', 'getDer', 'getNom'):
                    p = 0
                    for q in (op[2] if n == 'get' else [{'getStates': 11, 'getDer': 12, 'getNom': -1}[n]]):
                        want = s.get(q) if q > 0 else [1.0] * s.n
                        got = r[1][p:p + len(want)]
                        p += len(want)
                        for i, (x, y) in enumerate(zip(got, want)):
                            if y is None:
                                continue
                            core.require(api.close(x, y), '%s: element %d of %s is %r, expected %r (m, n, r = %d, %d, %d, mode %s)',
                                         n, i, NAMES.get(q, 'nominals'), x, y, s.m, s.n, s.r, mode)
                            judged += q in (10, 11, 12) and changed > 0
                mode = gen.after(3, c['kind'], c['event_mode'], mode, n)
            if c['wrong'] and mode != 'term':
                n, q, e = c['wrong']
                k = s.size(q) + e
                if k >= 0 and gen.settable(3, 'StateSpace', c['kind'], q, 'Float64', mode) or n == 'get':
                    k = max(0, k)
                    if k != s.size(q):
                        r = a.do(['get', 'Float64', [q], k] if n == 'get' else ['set', 'Float64', [q], [0.5] * k])
                        core.require(r[0] == 3, '%s of %s with %d values returns %r for m, n, r = %d, %d, %d',
                                     n, NAMES[q], k, r[0], s.m, s.n, s.r)
                        cls.add('wrong number of values')
            return {'nontrivial': judged > 0, 'classes': [c['kind'] + (' event mode' if c['event_mode'] else '')] + sorted(cls)}
        finally:
            a.free()


PROP = P17()
