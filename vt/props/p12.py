"""P12: Model Exchange evaluates the documented equations."""
from .. import api, core, gen, md, ref

MODELS = [(v, m) for v, m in gen.FMUS if m != 'Clocks']


class P12(core.Prop):
    id = 'P12'
    counts = {'quick': 400000, 'thorough': 4000000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated legal Model Exchange history of sets (time, states, parameters, inputs) and reads in any '
            'order; non-trivial if at least one read followed a set of a state, parameter, input or the time')
    technique = 'generated Model Exchange histories against independent reference equations'
    assumptions = ('values up to 1e31 (no overflow); relative and absolute tolerance 1e-9',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        w = gen.Walker(rng, v, m, 'ME', {}, p_bad=0, wild=0, states=False, stop=False, debug=False, resets=rng.random() < 0.2)
        ops = []
        if m == 'Roberts' and rng.random() < 0.4:
            ops = [['enterConf'], ['set', 'Boolean', [1], [True]], ['exitConf'], ['set', 'Float64', [6], [rng.uniform(0, 1)]]]
        ops += w.walk(rng.randint(5, 15))
        if w.mode not in ('ct',) and rng.random() < 0.5:
            w2 = gen.Walker(rng, v, m, 'ME', {}, p_bad=0, wild=0, states=False, stop=False, debug=False, resets=False)
            ops = ops[:4] if m == 'Roberts' and ops[0] == ['enterConf'] and len(ops) > 15 else []
            ops += w2.to_mode(rng.choice(['event', 'ct', 'ct']))
            w = w2
        ops += w.walk(rng.randint(5, 30))
        # frequently: set, then read everything
        out = []
        big = m in ('VanDerPol', 'Dahlquist', 'BouncingBall') and rng.random() < 0.1
        for op in ops:
            if big and rng.random() < 0.7 and (op[0] == 'setStates' or op[0] == 'set' and op[1] in ('Real', 'Float64')):
                op = op[:-1] + [[x * 10 ** rng.uniform(0, rng.choice([1, 3, 30])) for x in op[-1]]]
            if op[0] == 'setStates' and m == 'BouncingBall' and rng.random() < 0.4:
                # close to the ground
                op = ['setStates', [rng.choice([0.0, -0.0, -1, -1, 1]) * rng.choice([1e-12, 9e-11, 1e-10, 2e-10, 5e-10, 1e-3, 1e-9]),
                                    rng.choice([0.0, 0.0, -0.0, 1e-12, -1e-12, 5e-324, 0.1, -0.1])]]
            out.append(op)
            if op[0] == 'setTime' and rng.random() < 0.3:
                out.append(['setTime', op[1] - 0.005])      # a solver goes back to a smaller step
            if op[0] in ('set', 'setStates', 'setTime', 'update') and rng.random() < 0.5:
                rd = self.all_reads(w, v)
                rng.shuffle(rd)
                out += rd[:rng.randint(1, len(rd))]
        return {'v': v, 'model': m, 'ops': out}

    def all_reads(self, w, v):
        return [['getDer', w.nx], ['getInd', w.nz], ['getStates', w.nx], ['getNom', w.nx], w.g_get(), w.g_get()]

    def run(self, case):
        v, m = case['v'], case['model']
        d = md.get(v, m)
        a = api.Inst(api.load('plain', v, m), 'ME', logging=False)
        r = ref.make(m)
        mode = 'inst'
        known = m != 'Roberts'
        changed = judged = 0
        table = gen.ALLOWED3 if v == 3 else gen.ALLOWED2
        try:
            for op in case['ops']:
                n = op[0]
                if n in ('getDer', 'getInd', 'getStates', 'getNom'):
                    if mode not in table[n]:
                        continue
                    if m == 'StateSpace' and n != 'getInd':
                        op = [n, r.n]
                if n == 'get' and mode not in table['get']:
                    continue
                if m == 'StateSpace':
                    if n in ('get', 'set') and op[1] == 'Float64':
                        c = sum(gen.SS_SIZE[q](r.m, r.n, r.r) for q in op[2])
                        op = op[:3] + [c if n == 'get' else (op[3] + [0.25] * 200)[:c]]
                    elif n == 'setStates':
                        op = [n, (op[1] + [0.25] * 5)[:r.n]]
                if m == 'Roberts' and n == 'set':
                    if op[1] == 'Boolean' and (mode != 'conf' or not op[3][-1] or changed):
                        continue
                    if 6 in op[2] and not r.dae:
                        continue
                x = a.do(op)
                if x[0] != 0:
                    raise core.Skip
                if n == 'set':
                    p = 0
                    for q in op[2]:
                        c = gen.SS_SIZE[q](r.m, r.n, r.r) if m == 'StateSpace' and op[1] == 'Float64' else 1
                        r.set(q, op[3][p:p + c])
                        if m == 'StateSpace' and q == 8 and mode in ('inst', 'init', 'conf'):
                            r.set(11, op[3][p:p + c])
                        p += c
                    changed += 1
                elif n == 'setTime':
                    r.time = op[1]
                    changed += 1
                elif n == 'setStates':
                    r.set_x(op[1])
                    changed += 1
                elif n in ('enterInit', 'setup') and len(op) > 1:
                    r.time = op[1]
                    start = op[1]
                elif n == 'reset':
                    r = ref.make(m)
                    changed = 0
                elif n == 'update':
                    r.event()
                    if r.terminate:
                        break
                elif n == 'get':
                    p = 0
                    for q in op[2]:
                        c = gen.SS_SIZE[q](r.m, r.n, r.r) if m == 'StateSpace' and op[1] == 'Float64' else 1
                        got = x[1][p:p + c]
                        p += c
                        if m == 'Feedthrough' and q != 0:
                            continue
                        want = r.get(q)
                        judged += changed > 0
                        core.require(got == want or self.close(got, want, m), '%s (vr %d) is %r in mode %s, the equations give %r',
                                     d.byvr[q].name, q, got, mode, want)
                elif n in ('getDer', 'getInd', 'getStates', 'getNom'):
                    want = {'getDer': r.der, 'getInd': r.z, 'getStates': r.x, 'getNom': r.nominals}[n]()
                    judged += changed > 0
                    core.require(self.close(x[1], want, 'Roberts' if m == 'BouncingBall' and n == 'getInd' else m), '%s returns %r in mode %s, the equations give %r', n, x[1], mode, want)
                mode = gen.after(v, 'ME', False, mode, n)
            return {'nontrivial': judged > 0, 'classes': ['%d-%s' % (v, m), 'ends in ' + mode]}
        finally:
            a.free()

    def close(self, a, b, m):
        return api.close(a, b, 1e-9, 1e-11 if m == 'Roberts' else 1e-9)


PROP = P12()
