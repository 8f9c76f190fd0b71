"""P26: running out of memory is reported and does no damage."""
from .. import api, core, drive, gen, shim
from ..bad import Bad


class P26(core.Prop):
    id = 'P26'
    kinds = ('wrap',)
    counts = {'quick': 350000, 'thorough': 2500000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated call sequence in which one allocation, or one and all later ones, fail; non-trivial if an allocation '
            'was made to fail; distinct by call sequence and failing allocation')
    technique = 'fault injection at generated allocations of generated call sequences, compared with the same calls without fault'
    assumptions = ('allocations are made with the functions of the C library that c/alloc_shim.c replaces',
                   'a call that fails anyway may report the same status when its log message cannot be allocated')

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        k = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, k)
        w = gen.Walker(rng, v, m, k, o, p_bad=rng.choice([0.0, 0.03]), terminate=False, resets=rng.random() < 0.3)
        b = Bad(w)
        ops = []
        for _ in range(rng.randint(0, 14)):
            q = rng.random()
            if q < 0.3:
                ops.append(w.g_state_op())
            elif q < 0.34:
                op, _ = b.make()
                ops.append(op)
                w.mode = 'term'
            elif q < 0.4:
                h = rng.randint(0, 2)
                w.slots.add(h)
                ops += [['getState', h], ['serialize', h, h], ['freeState', h], ['deserialize', h, h]]
            else:
                op = w.next()
                if op[0] == 'doStep':
                    op[2] = min(op[2], gen.STEP[m] * 50)
                if op[0] == 'activate' and op[1] == 1003:
                    op[1] = 1002
                ops.append(op)
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'ops': ops, 'where': rng.random(), 'inst': rng.random() < 0.12,
                'sticky': rng.random() < 0.3, 'resource': rng.choice([None, None, 'some/where']) if m != 'Resource' else None,
                'logger': v == 2 or rng.random() < 0.85}

    def make(self, c, s):
        k = dict(c['opts'])
        if c['resource']:
            k['resource'] = c['resource']
        return api.Inst(s.lib, c['kind'], logger=c['logger'], **k)

    def run(self, c):
        v, m = c['v'], c['model']
        s = shim.get(v, m)
        s.reset()
        full = drive.reads(v, m)
        # without fault: allocations and results of each call
        a = self.make(c, s)
        ninst = s.count()
        pts, ref = [], []
        try:
            for j, op in enumerate(c['ops']):
                n = s.count()
                ref.append(a.do(op))
                pts += [(j, k) for k in range(s.count() - n)]
        finally:
            a.free_all()
        s.reset()
        if c['inst'] or not pts:
            return self.instantiate(c, s, ninst)
        j, k = pts[min(int(c['where'] * len(pts)), len(pts) - 1)]
        a = self.make(c, s)
        t = None
        lost = 0
        try:
            t = self.make(c, s)
            for q, op in enumerate(c['ops'][:j]):
                x, y = a.do(op), t.do(op)
                core.require(api.same(x[:1], ref[q][:1]), 'call %d %r is not repeatable: %r, %r', q, op, x, ref[q])
            op = c['ops'][j]
            before = t.run(full)
            handles = dict(a.states)
            s.arm(k, c['sticky'])
            f = s.failed()
            r = a.do(op)
            lost = s.failed() - f
            core.require(lost > 0, 'call %d %r does not repeat its allocations', j, op)
            core.require(isinstance(r[0], int) and r[0] >= 2, 'call %d %r returned %r although allocation %d failed', j, op, r, k)
            core.require(s.wrong() == 0, 'call %d %r frees memory it does not own when allocation %d fails', j, op, k)
            if ref[j][0] == 0:
                # it would have succeeded: nothing may have changed
                x = a.run(full)
                for p, y, z in zip(full, before, x):
                    if y[0] == 0 and z[0] == 0:
                        core.require(api.same(y, z), '%r is %r after call %d %r failed for lack of memory, before %r', p, z, j, op, y)
                for h in handles:
                    core.require(a.states.get(h) == handles[h], 'call %d %r failed for lack of memory but replaced a state handle', j, op)
            if c['sticky']:
                for q, op2 in enumerate(c['ops'][j + 1:]):
                    f = s.failed()
                    r = a.do(op2)
                    core.require(s.failed() == f or not isinstance(r[0], int) or r[0] >= 2, 'later call %r returned %r although an allocation failed', op2, r)
                    core.require(s.wrong() == 0, 'later call %r frees memory it does not own', op2)
            s.arm(-1, 0)
            # the states saved before are intact, and the instance can be used again
            for h in handles:
                x, y = a.do(['setState', h]), t.do(['setState', h])
                if y[0] == 0 and x[0] == 0:
                    if not c['sticky']:
                        p, q = a.run(full), t.run(full)
                        core.require(api.same(p, q), 'a state saved before the failure restores %r, expected %r', p, q)
            for h in list(a.states):
                a.do(['freeState', h])
            core.require(a.do(['reset'])[0] == 0, 'reset is refused after call %d %r failed for lack of memory', j, op)
            a.states.clear()
            a.blobs.clear()
            for q, op2 in enumerate(c['ops']):
                if op2[0] == 'deserialize' and op2[1] not in a.blobs:
                    break
                r = a.do(op2)
                core.require(r[0] == ref[q][0], 'after reset call %d %r returns %r, at first %r', q, op2, r, ref[q])
        finally:
            s.arm(-1, 0)
            a.free_all()
            if t:
                t.free_all()
        core.require(s.wrong() == 0, 'memory is freed that is not owned')
        core.require(s.live() == 0, '%d blocks (%d bytes) remain after call %d %r failed for lack of memory', s.live(), s.live_bytes(), j, op)
        core.require(s.stale() == 0, 'freed memory was written to')
        return {'nontrivial': lost > 0, 'classes': ['%d-%s' % (v, m), ('sticky ' if c['sticky'] else 'once ') + (op[0] if op[0] in (
            'getState', 'deserialize') else 'message')]}

    def instantiate(self, c, s, n):
        k = min(int(c['where'] * n), n - 1)
        s.arm(k, c['sticky'])
        try:
            try:
                a = self.make(c, s)
            except api.InstantiationFailed:
                pass
            else:
                a.free()
                core.require(False, 'instantiation succeeded although allocation %d failed', k)
        finally:
            s.arm(-1, 0)
        core.require(s.failed() > 0, 'instantiation does not repeat its allocations')
        core.require(s.wrong() == 0, 'failing instantiation frees memory it does not own')
        core.require(s.live() == 0, 'failing instantiation leaves %d blocks', s.live())
        core.require(s.stale() == 0, 'freed memory was written to')
        a = self.make(c, s)
        a.free()
        return {'nontrivial': True, 'key': 'inst %s %d %s' % (core.canon({q: c[q] for q in ('v', 'model', 'kind', 'opts', 'sticky', 'resource', 'logger')}), k, ''),
                'classes': ['%d-%s' % (c['v'], c['model']), 'instantiation']}


PROP = P26()
