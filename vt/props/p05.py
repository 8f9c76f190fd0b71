"""P05: wrong arguments are refused without touching memory out of bounds."""
from .. import api, core, gen
from ..bad import Bad


class P05(core.Prop):
    id = 'P05'
    kinds = ('asan',)
    sanitize = True
    counts = {'quick': 45000, 'thorough': 600000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated call sequence with buffers of exactly the announced size, mixing legal calls and calls with '
            'invalid arguments; non-trivial if at least one call with invalid arguments and one legal get or set were performed')
    technique = 'generated call sequences under AddressSanitizer and UndefinedBehaviorSanitizer, buffers allocated exactly'
    assumptions = ('overflows inside the FMU\'s own instance structure are only visible through the returned status',)

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        if rng.random() < 0.12:
            v, m = 3, 'StateSpace'
        k = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, k)
        w = gen.Walker(rng, v, m, k, o, p_bad=0.02, legal_set=0.95)
        b = Bad(w)
        ops = []
        if m == 'StateSpace' and rng.random() < 0.7:
            w.dims = [rng.randint(0, 5) for _ in range(3)]
            ops += [['enterConf'], ['set', 'UInt64', [1, 2, 3], list(w.dims)], ['exitConf']]
        modes = ['init'] + ({'ME': ['event', 'ct'], 'CS': ['step', 'event'] if o.get('event_mode') else ['step'], 'SE': ['clock']}[k])
        if rng.random() < 0.7:
            ops += w.to_mode(rng.choice((['conf'] * (5 if m == 'StateSpace' else 1) if v == 3 else []) + modes))
        for n in range(rng.randint(4, 25)):
            if rng.random() < 0.3 or n == 0 and w.mode == 'conf' and rng.random() < 0.5:
                op, label = n == 0 and w.mode == 'conf' and b.content() or b.make()
                if op[0] in ('badSerialize', 'badDeserialize'):
                    s = op[1]
                    ops += [['getState', s]]
                    if op[0] == 'badDeserialize':
                        ops += [['serialize', s, s]]
                    w.slots.add(s)
                ops.append(['bad', label, op] + ([list(w.dims)] if m == 'StateSpace' else []))
                w.mode = 'term'
                if rng.random() < 0.6:
                    ops.append(w.note(['reset']))
                    if rng.random() < 0.6:
                        ops += w.to_mode(rng.choice(modes))
            else:
                if v == 3 and w.mode == 'event' and rng.random() < 0.15:
                    # the results are optional
                    ops.append(['raw', 'UpdateDiscreteStates'] + [rng.choice([None, ['ref']]) for _ in range(6)])
                op = w.next()
                if op[0] == 'doStep':
                    op[2] = min(op[2], gen.STEP[m] * 50)
                ops.append(op)
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'ops': ops}

    def run(self, c):
        a = api.Inst(api.load('asan', c['v'], c['model']), c['kind'], **c['opts'])
        cls = set()
        good = bad = 0
        try:
            for op in c['ops']:
                if op[0] == 'bad':
                    if len(op) > 3 and a.do(['get', 'UInt64', [1, 2, 3]]) != [0, op[3]]:
                        continue
                    r = a.do(op[2])
                    if isinstance(r[0], str):
                        continue
                    core.require(r[0] == 3, '%s: %r returns status %r', op[1], op[2], r[0])
                    bad += 1
                    cls.add(op[1])
                else:
                    r = a.do(op)
                    good += op[0] in ('get', 'set') and r[0] == 0
            return {'nontrivial': bad > 0 and good > 0, 'classes': ['%d-%s' % (c['v'], c['model'])] + sorted(cls)}
        finally:
            a.free_all()


PROP = P05()
