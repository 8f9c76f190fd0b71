"""P07: a reset instance behaves like a freshly created one."""
from .. import api, core, gen


class P07(core.Prop):
    id = 'P07'
    counts = {'quick': 200000, 'thorough': 3000000}
    shrink_lists = ('pre', 'cont')
    rule = ('a case is a generated history (with errors, terminations, reconfigurations, restored states), a reset and a '
            'generated continuation compared with a new instance; non-trivial if the history has a successful call that '
            'changes the instance and the continuation has successful calls')
    technique = 'generated call histories, metamorphic oracle (reset instance == fresh instance)'

    def gen(self, rng, i, tier):
        v, m, k = gen.pick_fmu(rng, i)
        o = gen.options(rng, v, m, k)
        if v == 3 and k == 'CS' and rng.random() < 0.3:
            o['iupd'] = True
        w = gen.Walker(rng, v, m, k, o, p_bad=rng.choice([0, 0, 0.05]), states=rng.random() < 0.3)
        pre = w.walk(rng.randint(1, 30))
        if m == 'Stair' and rng.random() < 0.5:
            # run into the termination
            w = gen.Walker(rng, v, m, k, o, p_bad=0, states=False)
            pre = w.to_mode('init') + [['set', 'Int32' if v == 3 else 'Integer', [1], [rng.choice([7, 8, 9])]]]
            pre += [w.note(['exitInit'])] + [w.next() for _ in range(rng.randint(2, 12))]
            if k == 'CS':
                pre += [['doStep', None, rng.choice([1.0, 2.0, 3.0])]] * rng.randint(1, 3)
            else:
                pre += [['setTime', float(rng.randint(1, 4))], ['enterEvent'], ['update'], ['update']]
        w = gen.Walker(rng, v, m, k, o, p_bad=rng.choice([0, 0, 0, 0.05]), states=rng.random() < 0.2)
        cont = []
        if v == 2 and rng.random() < 0.3:
            w.did_setup = True      # without setting up the experiment
        if v == 3 or rng.random() < 0.5:
            cont += w.reads() if v == 3 else []
        cont += w.walk(rng.randint(3, 30)) + w.reads()
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'pre': pre, 'cont': cont}

    def run(self, case):
        v, m, k, o = case['v'], case['model'], case['kind'], case['opts']
        lib = api.load('plain', v, m)
        a, b = api.Inst(lib, k, logging=False, **o), api.Inst(lib, k, logging=False, **o)
        try:
            r0 = a.run(case['pre'])
            r = a.do(['reset'])
            if r[0] != 0:
                raise core.Skip     # P04
            a.cp = b.cp
            for q in list(a.states):
                a.do(['freeState', q])
            a.blobs.clear()
            n = 0
            a.iupds, a.trace = [], []
            for op in case['cont']:
                x, y = a.do(op), b.do(op)
                core.require(api.same(x, y), 'after a reset %r returned %r, a new instance returns %r', op, x, y)
                n += x[0] == 0
                core.require(api.same([a.iupds, a.trace], [b.iupds, b.trace]), 'after a reset %r invoked the callbacks %r, for a new instance %r',
                             op, [a.iupds, a.trace], [b.iupds, b.trace])
                a.iupds, a.trace, b.iupds, b.trace = [], [], [], []
            return {'nontrivial': n > 2 and any(q[0] == 0 and op[0] not in ('get', 'debug') for op, q in zip(case['pre'], r0)),
                    'classes': ['%d-%s-%s' % (v, m, k)] + (['error in history'] if any(q[0] == 3 for q in r0) else [])
                    + (['reset from terminated/error'] if r0 and r0[-1][0] == 3 else [])
                    + (['termination requested'] if any(op[0] in ('doStep', 'update') and len(q) > 1 and q[1][1] for op, q in zip(case['pre'], r0))
                       or any(q[0] == 2 for q in r0) else [])}
        finally:
            a.free_all()
            b.free_all()


PROP = P07()
