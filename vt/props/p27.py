"""P27: everything an FMU allocates is released."""
import os
import tempfile

from .. import api, core, gen, shim
from ..bad import Bad


# contents of y.txt
FILES = {'empty': b'', 'ff': b'\xff', 'one': b'a', 'directory': None, 'long': b'x' * 10000}


class P27(core.Prop):
    id = 'P27'
    kinds = ('wrap',)
    counts = {'quick': 200000, 'thorough': 3000000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated call sequence including failing calls, saves into fresh and used state handles and failing '
            'instantiations, after which the states (in generated order) and the instance are freed; non-trivial if the FMU allocated '
            'memory besides the instance (a state or a message); distinct by call sequence')
    technique = 'generated call sequences on FMUs linked with an allocator that keeps account of blocks and files'
    assumptions = ('allocations are made with the functions of the C library that c/alloc_shim.c replaces',)

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        k = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, k)
        w = gen.Walker(rng, v, m, k, o, p_bad=rng.choice([0.0, 0.05, 0.2]))
        b = Bad(w)
        ops = []
        for _ in range(rng.randint(3, 30)):
            q = rng.random()
            if q < 0.08:
                s = rng.randint(0, 2)
                w.slots.add(s)
                ops.append(['saves', s, rng.randint(2, 6)])
            elif q < 0.2:
                ops.append(w.g_state_op())
            elif q < 0.28:
                op, _ = b.make()
                ops.append(op)
                w.mode = 'term'
            elif q < 0.31:
                ops.append(['badInst', rng.choice(['name', 'token', 'iface'])])
            elif q < 0.4:
                h = rng.randint(0, 2)
                w.slots.add(h)
                ops += [['getState', h], ['serialize', h, h], ['freeState', h], ['deserialize', h, h]]
            else:
                op = w.next()
                if op[0] == 'doStep':
                    op[2] = min(op[2], gen.STEP[m] * 50)
                if op[0] == 'activate' and op[1] == 1003 and rng.random() < 0.9:
                    op[1] = 1002
                ops.append(op)
        c = {'v': v, 'model': m, 'kind': k, 'opts': o, 'ops': ops, 'order': rng.random(), 'logging': rng.random() < 0.5, 'logger': v == 2 or rng.random() < 0.8}
        if m == 'Resource' and rng.random() < 0.4:
            c['resource'] = rng.choice(['/nonexistent/', 'file:///nonexistent', 'x' * 5000, 'file:///%zz', ''])
            if rng.random() < 0.5:
                c['resource'] = rng.choice(sorted(FILES))
        return c

    def location(self, c):
        r = c['resource']
        if r not in FILES:
            return r
        d = os.path.join(tempfile.gettempdir(), 'resource-%d' % os.getpid(), r)
        if not os.path.isdir(d):
            os.makedirs(d)
            if FILES[r] is None:
                os.mkdir(os.path.join(d, 'y.txt'))
            else:
                with open(os.path.join(d, 'y.txt'), 'wb') as f:
                    f.write(FILES[r])
        return d + '/' if c['v'] == 3 else 'file://' + d

    def bad_inst(self, c, s, what):
        v = c['v']
        n = s.live()
        try:
            x = api.Inst(s.lib, c['kind'] if what != 'iface' or v == 2 else 'SE' if c['model'] != 'Clocks' else 'ME',
                         name='' if what == 'name' or (what == 'iface' and v == 2) else 'i', token='no' if what == 'token' else None)
        except api.InstantiationFailed:
            core.require(s.live() == n, 'a failing instantiation (%s) leaves %d blocks', what, s.live() - n)
            return
        x.free()

    def run(self, c):
        s = shim.get(c['v'], c['model'])
        s.reset()
        k = dict(c['opts'])
        if 'resource' in c:
            k['resource'] = self.location(c)
        a = api.Inst(s.lib, c['kind'], logging=c['logging'], logger=c['logger'], **k)
        base = s.count()
        cls = set()
        try:
            for op in c['ops']:
                if op[0] == 'badInst':
                    self.bad_inst(c, s, op[1])
                    cls.add('failing instantiation')
                elif op[0] == 'saves':
                    r = a.do(['getState', op[1]])
                    n, by = s.live(), s.live_bytes()
                    for _ in range(op[2]):
                        a.do(['getState', op[1]])
                    if r[0] == 0:
                        core.require(s.live() <= n and s.live_bytes() <= by, 'saving %d times into the same handle: %d blocks and %d bytes more', op[2], s.live() - n, s.live_bytes() - by)
                        cls.add('repeated saves')
                else:
                    r = a.do(op)
                    if op[0] == 'freeState' and r[0] == 0:
                        core.require(r[1], 'the handle of a freed state is not cleared, so that it is freed twice')
                    if isinstance(r[0], int) and r[0] > 1:
                        cls.add('failing calls')
                core.require(s.wrong() == 0, '%r frees memory or closes files it does not own', op)
            hs = sorted(a.states)
            if c['order'] < 0.5:
                hs.reverse()
            for h in hs:
                r = a.do(['freeState', h])
                core.require(s.wrong() == 0, 'freeing a state frees memory it does not own')
                if r[0] > 1:
                    raise core.Skip
            if hs:
                cls.add('states')
        finally:
            a.free()
        core.require(s.wrong() == 0, 'freeing the instance frees memory it does not own')
        core.require(s.live() == 0, 'after freeing the instance and its states %d blocks (%d bytes) remain', s.live(), s.live_bytes())
        core.require(s.files() == 0, 'after freeing the instance %d files remain open', s.files())
        core.require(s.stale() == 0, 'freed memory was written to')
        return {'nontrivial': s.count() > base, 'classes': ['%d-%s' % (c['v'], c['model'])] + sorted(cls)}


PROP = P27()
