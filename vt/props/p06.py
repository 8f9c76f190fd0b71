"""P06: a saved FMU state restores the complete behaviour."""
from .. import api, core, gen


def record(a, ops):
    """results of the calls and callbacks"""
    out = []
    for op in ops:
        a.iupds, a.trace = [], []
        r = a.do(op)
        out.append(r + [['callbacks', a.iupds, a.trace]] if a.iupds or a.trace else r)
    return out


class P06(core.Prop):
    id = 'P06'
    counts = {'quick': 110000, 'thorough': 1800000}
    shrink_lists = ('script', 'pre', 'mid', 'contA', 'contB', 'noise')
    rule = ('a case is a generated call history with two points A and B, and a script of operations with state handles on two instances: '
            'save into fresh and used handles, serialize at once or later, deserialize into fresh and used handles, free, restore, other '
            'calls, and continuations from A or B compared with those of an instance that never saved; it is non-trivial if a restored '
            'state was continued after other calls and a call of the continuation succeeded')
    technique = 'generated call histories, metamorphic oracle (continuation after save == continuation after restore)'

    def gen(self, rng, i, tier):
        v, m, k = gen.pick_fmu(rng, i)
        o = gen.options(rng, v, m, k)
        if v == 3 and k == 'CS' and rng.random() < 0.2:
            o['iupd'] = True
        pb = rng.choice([0, 0, 0, 0.05])

        def walker(p, other=None):
            w = gen.Walker(rng, v, m, k, o, p_bad=p, states=False)
            if other:
                w.mode, w.dims, w.did_setup = other.mode, list(other.dims), other.did_setup
            return w
        w = walker(pb)
        pre = w.walk(rng.randint(0, 30))
        wa, wn = walker(pb, w), walker(0.03, w)
        cont_a = wa.walk(rng.randint(3, 25)) + wa.reads()
        mid = w.walk(rng.randint(0, 15))
        wb = walker(pb, w)
        cont_b = wb.walk(rng.randint(2, 20)) + wb.reads()
        c = {'v': v, 'model': m, 'kind': k, 'opts': o, 'pre': pre, 'mid': mid, 'contA': cont_a, 'contB': cont_b, 'noise': wn.walk(rng.randint(0, 20))}
        c['script'] = self.script(rng)
        if any(q[1] for q in c['script']):
            c['other'] = dict(gen.options(rng, v, m, k), iupd=o.get('iupd', False)) if rng.random() < 0.7 else o     # the other instance may have been created with other options
        return c

    def script(self, rng):
        """operations [name, instance, ...]"""
        other = rng.random() < 0.4
        both = lambda: rng.choice([0, 0, 1]) if other else 0
        s = [['save', 0, 0]]
        if rng.random() < 0.3:
            s += [['serialize', 0, 0, 0], ['deserialize', 0, 0, rng.choice([0, 1])]]
        if rng.random() < 0.6:
            s += [['mid', 0]] + ([['save', 0, rng.choice([0, 1, 1, 2])]] if rng.random() < 0.8 else [])
        n = rng.choice([2, 2, 4, 7, 10])
        for _ in range(n):
            q = rng.random()
            if q < 0.2:
                s.append(['noise', both()])
            elif q < 0.32:
                s.append(['cont', both()])
            elif q < 0.45:
                s.append(['save', both(), rng.randrange(3)])
            elif q < 0.6:
                s.append(['serialize', both(), rng.randrange(3), rng.randrange(2)])
            elif q < 0.75:
                s.append(['deserialize', both(), rng.randrange(2), rng.randrange(3)])
            elif q < 0.8:
                s.append(['free', both(), rng.randrange(3)])
            else:
                s += [['restore', both(), both(), rng.randrange(3)]] + ([['cont', 0]] if rng.random() < 0.3 else [])
        i = both()
        r = rng.sample(range(3), 3)
        s += [['noise', i]] if rng.random() < 0.8 else []
        for slot in r:
            for src in ([0, 1] if other else [0]):
                s += [['restore', i, src, slot], ['cont', i]]
        return s

    def run(self, case):
        v, m, k, o = case['v'], case['model'], case['kind'], case['opts']
        lib = api.load('plain', v, m)
        inst = [api.Inst(lib, k, logging=False, **o)]
        try:
            if any(q[1] for q in case['script']):
                inst.append(api.Inst(lib, k, logging=False, **case.get('other', o)))
            # references never save
            want, cps = {}, {}
            ref = api.Inst(lib, k, logging=False, **o)
            inst_free = [ref]
            try:
                want['pre'] = ref.run(case['pre'])
                cps['A'] = ref.cp
                want['A'] = record(ref, case['contA'])
                if ['mid', 0] in case['script']:
                    ref = api.Inst(lib, k, logging=False, **o)
                    inst_free.append(ref)
                    ref.run(case['pre'])
                    want['mid'] = ref.run(case['mid'])
                    cps['B'] = ref.cp
                    want['B'] = record(ref, case['contB'])
            finally:
                for x in inst_free:
                    x.free_all()
            return self.follow(case, inst, want, cps)
        finally:
            for x in inst:
                x.free_all()

    def follow(self, case, inst, want, cps):
        a = inst[0]
        r0 = a.run(case['pre'])
        self.cmp(case['pre'], want['pre'], r0, 'two equal histories differ')
        cur = ['A', None]       # the point an instance is at, if known
        slots, blobs = {}, {}   # the points of saved states
        seen = set()
        dirty, nontrivial = False, False
        for q in case['script']:
            op, i = q[:2]
            x = inst[i] if i < len(inst) else None
            if x is None:
                continue
            if op == 'mid':
                if cur[i] == 'A':
                    self.cmp(case['mid'], want['mid'], x.run(case['mid']), 'behaviour differs')
                    cur[i] = 'B'
            elif op == 'noise':
                if case['noise']:
                    x.run(case['noise'])
                    cur[i] = None
                    dirty = True
            elif op == 'cont':
                if cur[i]:
                    c = case['cont' + cur[i]]
                    self.cmp(c, want[cur[i]], record(x, c), 'continuing from %s%s, behaviour differs' % (cur[i], ' in the other instance' if i else ''))
                    nontrivial = nontrivial or dirty and any(y[0] == 0 for y in want[cur[i]])
                    cur[i] = None
                    dirty = True
            elif op == 'save':
                if (i, q[2]) in slots:
                    seen.add('save into a used handle')
                s = x.do(['getState', q[2]])
                core.require(s[0] == 0 and s[1], 'getting the FMU state failed: %r', s)
                slots[i, q[2]] = cur[i]
            elif op == 'serialize':
                if (i, q[2]) in slots:
                    core.require(x.do(['serialize', q[2], q[3]]) == [0], 'serialize failed')
                    blobs[q[3]] = i, slots[i, q[2]]
                    if slots[i, q[2]] != cur[i]:
                        seen.add('serialized later')
            elif op == 'deserialize':
                if q[2] in blobs:
                    src, point = blobs[q[2]]
                    if (i, q[3]) in slots:
                        seen.add('deserialize into a used handle')
                    if src != i:
                        seen.add('deserialize in another instance')
                    core.require(x.op_deserialize(q[2], q[3], inst[src]) == [0], 'deserialize failed')
                    slots[i, q[3]] = point
            elif op == 'free':
                if (i, q[2]) in slots:
                    core.require(x.do(['freeState', q[2]])[0] == 0, 'free failed')
                    del slots[i, q[2]]
            elif op == 'restore':
                src, s = q[2:]
                if (src, s) in slots:
                    core.require(x.op_setState(s, inst[src]) == [0], 'setting the FMU state failed')
                    cur[i] = slots[src, s]
                    if cur[i]:
                        x.cp = cps[cur[i]]
                    if src != i:
                        seen.add('restore in another instance')
        return {'nontrivial': nontrivial,
                'classes': ['%d-%s-%s' % (case['v'], case['model'], case['kind'])] + sorted(seen)
                + (['error in history'] if any(x[0] == 3 for x in r0) else [])
                + (['error in continuation'] if any(x[0] == 3 for x in want['A']) else [])
                + (['steps'] if any(op[0] == 'doStep' and x[0] == 0 for op, x in zip(case['contA'], want['A'])) else [])}

    def cmp(self, ops, want, got, what):
        for op, x, y in zip(ops, want, got):
            core.require(api.same(x, y), '%s: %r returned %r instead of %r', what, op, y, x)


PROP = P06()
