"""P08: instances are independent of each other."""
from .. import api, core, gen, tape

NO_TAPE = ('serialize', 'deserialize', 'debug')


class Inst(api.Inst):
    """keeps the undecoded log messages and everything else its callbacks received"""

    def __init__(self, *a, **k):
        self.raw = []
        super().__init__(*a, **k)

    def on_log(self, name, status, category, message):
        super().on_log(name, status, category, message)
        e = lambda x: None if x is None else x.encode()
        self.raw.append((name, status, e(category), e(message)))


class P08(core.Prop):
    id = 'P08'
    kinds = ('plain', 'threads', 'sched')
    counts = {'quick': 60000, 'thorough': 1000000}
    shrink_lists = ('sched', 'ops')
    repeats = 6
    hang_s = 60
    rule = ('a case runs generated call sequences of 2 to 4 instances of one FMU interleaved by a generated schedule, or on concurrent threads '
            '(each repeated many times), and compares with the sequences run alone; non-trivial if at least two instances made 3 calls each; '
            'distinct by call sequences and schedule')
    technique = 'generated interleavings and concurrent repetitions, metamorphic oracle (each instance == the same calls alone)'
    assumptions = ('the interleavings of concurrent threads are those the scheduler produces',)

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        threads = rng.random() < 0.5
        n = rng.choice([2, 2, 3, 4])
        insts = []
        same = rng.random() < 0.3
        for k in range(n):
            kind = rng.choice(gen.interfaces(v, m))
            o = gen.options(rng, v, m, kind)
            if kind == 'CS' and v == 3 and rng.random() < 0.3:
                o['iupd'] = True
            w = gen.Walker(rng, v, m, kind, o, p_bad=rng.choice([0.0, 0.0, 0.05]))
            ops = []
            for _ in range(rng.randint(5, 40)):
                op = w.next()
                if threads and (op[0] in NO_TAPE or (op[0] in ('get', 'set') and op[1] in ('String', 'Binary')) or (op[0] == 'activate' and op[1] == 1003)):
                    continue
                ops.append(op)
            insts.append({'kind': kind, 'opts': o, 'ops': ops, 'logging': rng.random() < 0.5})
            if same:
                insts = insts * n
                break
        c = {'v': v, 'model': m, 'insts': insts}
        if threads:
            c['threads'] = True
            c['reps'] = rng.choice([5, 20, 60])
            if rng.random() < 0.8:
                # change between the threads at generated memory accesses
                c['reps'] = 1
                c['switch'] = [rng.randrange(2**32), int(10 ** rng.uniform(0, 4)), rng.choice([20, 100, 300])]
        else:
            # schedule: which instance makes its next call; -1-k frees instance k
            s = []
            left = [len(x['ops']) for x in insts]
            k = 0
            while any(left):
                if rng.random() < 0.5 or not left[k]:
                    k = rng.choice([j for j in range(n) if left[j]])
                s.append(k)
                left[k] -= 1
                if not left[k] and rng.random() < 0.5:
                    s.append(-1 - k)
            c['sched'] = s
            c['late'] = rng.random() < 0.5      # instances are created at their first call
            c['solo_first'] = rng.random() < 0.5
        return c

    def make(self, case, k, lib):
        x = case['insts'][k]
        return Inst(lib, x['kind'], name='inst%d' % k, logging=x['logging'], **x['opts'])

    def observed(self, a):
        return {'log': a.raw, 'names': sorted({str(r[0]) for r in a.raw}), 'iupd': a.iupds, 'clk': a.clks, 'trace': a.trace}

    def solo(self, case, k, lib, n=None):
        a = self.make(case, k, lib)
        try:
            return [a.do(op) for op in case['insts'][k]['ops'][:n]], self.observed(a)
        finally:
            a.free_all()

    def run(self, case):
        ns = len(api.stray)
        r = self.threads(case) if case.get('threads') else self.interleaved(case)
        core.require(len(api.stray) == ns, 'a callback was invoked with an unknown environment')
        return r

    def interleaved(self, case):
        v, m, n = case['v'], case['model'], len(case['insts'])
        lib = api.load('plain', v, m)
        cnt = [case['sched'].count(k) for k in range(n)]
        alone = None
        if case['solo_first']:
            alone = [self.solo(case, k, lib, cnt[k]) for k in range(n)]
        inst = [None] * n
        res = [[] for _ in range(n)]
        seen = [None] * n
        try:
            if not case['late']:
                for k in range(n):
                    inst[k] = self.make(case, k, lib)
            for k in case['sched']:
                if k < 0:
                    k = -1 - k
                    if inst[k]:
                        seen[k] = self.observed(inst[k])
                        inst[k].free_all()
                    continue
                if inst[k] is None:
                    inst[k] = self.make(case, k, lib)
                if inst[k].c:
                    res[k].append(inst[k].do(case['insts'][k]['ops'][len(res[k])]))
            for k in range(n):
                if inst[k] and inst[k].c:
                    seen[k] = self.observed(inst[k])
        finally:
            for a in inst:
                if a and a.c:
                    a.free_all()
        for k in range(n):
            if not cnt[k]:
                continue
            q = alone[k] if alone else self.solo(case, k, lib, cnt[k])
            for j, (x, y) in enumerate(zip(res[k], q[0])):
                core.require(api.same(x, y), 'instance %d, call %d %r: %r, alone %r', k, j, case['insts'][k]['ops'][j], x, y)
            if len(res[k]) == len(q[0]):
                for what in ('log', 'names', 'iupd', 'clk', 'trace'):
                    core.require(api.same(seen[k][what], q[1][what]), 'instance %d: callbacks (%s) %r, alone %r', k, what, seen[k][what], q[1][what])
        return {'nontrivial': sum(c >= 3 for c in cnt) >= 2, 'classes': ['interleaved', '%d-%s interleaved' % (v, m)]}

    def threads(self, case):
        v, m, s = case['v'], case['model'], case.get('switch')
        tape.lib()
        lib = api.load('sched' if s else 'plain', v, m)
        tapes = []
        for k, x in enumerate(case['insts']):
            r = tape.Rec(lib)
            a = self.make(case, k, r)
            for op in x['ops']:
                a.do(op)
            a.free_all()
            r.finish(a)
            tapes.append(r)
        # the recording itself has to be repeatable
        d = tape.run(tapes, 1, concurrent=False)
        core.require(d is None, 'one after another: %s', d)
        d = tape.run(tapes, case['reps'], sched=s)
        core.require(d is None, 'on concurrent threads: %s', d)
        return {'nontrivial': sum(len(x['ops']) >= 3 for x in case['insts']) >= 2, 'classes': ['scheduled threads' if s else 'threads', '%d-%s threads' % (v, m)]}


PROP = P08()
