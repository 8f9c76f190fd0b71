"""P18: clocked model partitions follow their specification."""
from .. import api, core, gen

TICKS = {1001: 2001, 1002: 2002, 1003: 2003}
TOTAL, RESULT2, INPUT2, OUTPUT3 = 2004, 2005, 2006, 2007
VRS = [2001, 2002, 2003, 2004, 2005, 2006, 2007]


class Ref:
    def __init__(self):
        self.v = dict.fromkeys(VRS, 0)
        self.out = False
        self.qual = 0

    def activate(self, clk, t):
        """returns whether the clock update callback is due"""
        self.v[TICKS[clk]] += 1
        self.v[TOTAL] += 1
        if clk == 1001 and int(t) == 4:
            self.qual = 2
        elif clk == 1002:
            self.v[RESULT2] += self.v[INPUT2]
            self.v[INPUT2] = 0
        elif clk == 1003:
            self.v[OUTPUT3] = 1000
        self.out = self.v[TOTAL] % 5 == 0
        return self.out or (clk == 1001 and self.qual == 2)

    def clock(self):
        r, self.out = self.out, False
        return r

    def interval(self):
        r = self.qual
        if r == 2:
            self.qual = 1
        return r


class Inst(api.Inst):
    """reads clocks in the clock update callback and the total around the preemption lock"""
    in_clk = ()

    def on_clk(self):
        self.trace.append(['clk'] + [self.do(op) for op in self.in_clk])

    def on_lock(self):
        self.trace.append(['lock', self.do(['get', 'Int32', [TOTAL]])])

    def on_unlock(self):
        self.trace.append(['unlock', self.do(['get', 'Int32', [TOTAL]])])


class P18(core.Prop):
    id = 'P18'
    counts = {'quick': 400000, 'thorough': 4000000}
    hang_s = 120
    shrink_lists = ('ops',)
    rule = ('a case is a generated sequence of activations, input writes and reads; non-trivial if the output clock became active '
            'or an interval was announced')
    technique = 'generated activation schedules against a reference state machine, including the order of the callbacks'

    def gen(self, rng, i, tier):
        ops = []
        t = 0.0
        style = rng.choice(['mixed', 'one', 'timeline'])
        one = rng.choice([1001, 1002, 1003])
        n = rng.randint(5, 40)
        wide = rng.random() < 0.05
        k = rng.random()
        many = rng.randrange(n) if k < 0.004 else -1
        for j in range(n):
            if j == many:
                # counters get large
                ops.append(['many', rng.choice([1001, 1002, 1003]), rng.uniform(0, 10), rng.randint(33000, 70000) if k < 0.00004 else rng.randint(200, 2500)])
            k = rng.random()
            if k < 0.5:
                c = one if style == 'one' and rng.random() < 0.9 else rng.choice([1001, 1001, 1002, 1003])
                if style == 'timeline':
                    t += rng.choice([0.0, 0.25, 0.5, 1.0])
                else:
                    t = rng.choice([0.0, 1.0, 3.0, 4.0, 4.0, 4.5, 5.0, 4.999999, 3.9999999, -4.0, 1e6, -0.5, rng.uniform(0, 10)])
                ops.append(['activate', c, t])
            elif k < 0.62:
                ops.append(['set', 'Int32', [INPUT2], [rng.choice([1, 7, -3, rng.randint(-100000, 100000)])]])
                if wide:        # once: result2 must not overflow
                    ops[-1][3] = [rng.choice([-1, 1]) * rng.randint(10**5, 2 * 10**9)]
                    wide = False
            elif k < 0.74:
                ops.append(['getClock', [1005] * rng.choice([1, 1, 1, 2])])
            elif k < 0.86:
                ops.append(['interval', [1003] * rng.choice([1, 1, 1, 2])])
            elif k < 0.87:
                ops.append(['restart'])
            else:
                ops.append(['get', 'Int32', VRS if rng.random() < 0.6 else [rng.choice(VRS) for _ in range(rng.randint(1, 4))]])
        return {'ops': ops, 'locks': rng.random() < 0.85, 'clk': rng.random() < 0.85, 'start': rng.choice([0.0, 2.0]),
                'in_clk': [q for q in (['getClock', [1005]], ['interval', [1003]]) if rng.random() < 0.35]}

    def run(self, c):
        a = Inst(api.load('plain', 3, 'Clocks'), 'SE', logging=False, locks=c['locks'], clk=c['clk'])
        a.in_clk = c['in_clk']
        r = Ref()
        cls = set()
        nt = False

        def start():
            for op in (['enterInit', c['start'], None], ['exitInit']):
                if a.do(op)[0] != 0:
                    raise core.Skip
        try:
            start()
            ops = c['ops'] + [['get', 'Int32', VRS]]
            if any(op[0] == 'many' for op in ops):
                cls.add('many activations')
                ops = [q for op in ops for q in ([['activate', *op[1:3]]] * op[3] if op[0] == 'many' else [op])]
            for k, op in enumerate(ops):
                n = op[0]
                if n == 'restart':
                    if a.do(['reset'])[0] != 0:
                        raise core.Skip
                    start()
                    r = Ref()
                    continue
                a.trace = []
                x = a.do(op)
                core.require(x[0] == 0, '%r returns status %r', op, x[0])
                if n == 'activate':
                    before = r.v[TOTAL]
                    due = r.activate(op[1], op[2])
                    want = []
                    if c['locks'] and op[1] != 1001:
                        want += [['lock', [0, [before]]], ['unlock', [0, [before + 1]]]]
                    if r.out:
                        nt = True
                        cls.add('output clock active')
                    if r.qual == 2:
                        nt = True
                        cls.add('interval announced')
                    if due and c['clk']:
                        w = ['clk']
                        for q in c['in_clk']:
                            cls.add('read in callback')
                            if q[0] == 'getClock':
                                w.append([0, [r.clock()]])
                            else:
                                j = r.interval()
                                w.append([0, [0.0 if j == 2 else -1.0], [j]])
                        want.append(w)
                    got = [list(q) for q in a.trace]
                    core.require(self.same(got, want), 'activation of %d at %r with total %d: callbacks %r, expected %r',
                                 op[1], op[2], before + 1, got, want)
                elif n == 'set':
                    r.v[INPUT2] = op[3][-1]
                elif n == 'getClock':
                    want = [r.clock() for _ in op[1]]
                    core.require(x[1] == want, 'output clock reads %r, expected %r at total %d', x[1], want, r.v[TOTAL])
                elif n == 'interval':
                    want = [r.interval() for _ in op[1]]
                    core.require(x[2] == want, 'interval qualifiers %r, expected %r', x[2], want)
                    core.require(all(q == 0.0 for q, w in zip(x[1], want) if w == 2), 'interval %r announced', x[1])
                elif n == 'get':
                    want = [r.v[q] for q in op[2]]
                    core.require(x[1] == want, 'variables %r are %r, expected %r', op[2], x[1], want)
                if n != 'activate':
                    core.require(not a.trace, '%r calls back %r', op, a.trace)
            return {'nontrivial': nt, 'classes': sorted(cls)}
        finally:
            a.free()

    def same(self, got, want):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if len(g) != len(w) or g[0] != w[0]:
                return False
            for p, q in zip(g[1:], w[1:]):
                if len(q) == 3:     # an interval: the value is only defined if it changed
                    if p[0] != q[0] or p[2] != q[2] or (q[2] == [2] and p[1] != q[1]):
                        return False
                elif p != q:
                    return False
        return True


PROP = P18()
