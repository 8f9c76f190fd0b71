"""P10: results do not depend on how the interval is split into steps."""
from .. import api, core, drive, gen
from .p09 import MODELS, cps, inputs, start_time


class P10(core.Prop):
    id = 'P10'
    counts = {'quick': 250000, 'thorough': 2500000}
    shrink_lists = ('points', 'pre', 'init')
    rule = ('a case simulates with the same generated values to common communication points with one step and with a '
            'generated partition of each interval; non-trivial if an interval was split and internal steps were taken')
    technique = 'generated scenarios and partitions, metamorphic oracle (one step == any partition, exactly)'
    assumptions = ('common communication points on the internal grid or at least 0.3 internal steps away from it',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        o = gen.options(rng, v, m, 'CS')
        if m == 'Roberts':
            o.pop('early_return', None)
        st = start_time(rng, m)
        c = {'v': v, 'model': m, 'opts': o, 'start': st}
        dims = None
        if m == 'StateSpace' and rng.random() < 0.5:
            dims = c['dims'] = [rng.randint(0, 5) for _ in range(3)]
        c['pre'] = inputs(rng, v, m, 'CS', 'inst', dims)
        c['init'] = inputs(rng, v, m, 'CS', 'init', dims) if rng.random() < 0.4 else []
        s = gen.STEP[m]
        prev = st
        pts = []
        for p in cps(rng, m, st, rng.randint(1, 5)):
            sub = []
            n = rng.choice([0, 1, 2, 3, 5, 8, 20])
            k = rng.random()
            for _ in range(n):
                if k < 0.3:
                    q = prev + (p - prev) * rng.random()
                elif k < 0.6:
                    q = prev + s * rng.uniform(0, 3)
                elif k < 0.8:
                    q = st + s * int((prev - st) / s + rng.randint(1, 6))
                else:
                    q = p - s * rng.uniform(0, 1.2)
                if prev < q < p:
                    sub.append(q)
            if k > 0.95:
                j = prev
                while j + s * 0.4 < p and len(sub) < 40:
                    j += s * 0.4
                    sub.append(j)
            sub = sorted(set(x for x in sub if p - x > 1e-9))
            pts.append([p, sub, inputs(rng, v, m, 'CS', 'step', dims) if rng.random() < 0.4 else []])
            prev = p
        c['points'] = pts
        return c

    def run(self, case):
        v, m, o, st = case['v'], case['model'], case['opts'], case['start']
        dims = case.get('dims')
        lib = api.load('plain', v, m)
        a, b = api.Inst(lib, 'CS', logging=False, **o), api.Inst(lib, 'CS', logging=False, **o)
        rd = drive.reads(v, m, dims)
        split = False
        try:
            for x in (a, b):
                drive.begin(x, v, m, st, None, dims, case['pre'], case['init'])
            for p, sub, sets in case['points']:
                for op in sets:
                    if a.do(op)[0] != 0 or b.do(op)[0] != 0:
                        raise core.Skip
                r = drive.to(a, v, p)
                q = 'ok'
                for c in sub:
                    split = True
                    q = drive.to(b, v, c)
                    if q == 'term':
                        break
                if q == 'ok':
                    q = drive.to(b, v, p)
                if r == 'term' or q == 'term':
                    # without event mode, the end is reached in both (with it, the request may come one internal step later)
                    core.require(r == q or a.event_mode, 'the request to terminate depends on the step size')
                    break
                x, y = a.run(rd), b.run(rd)
                for op, f, g in zip(rd, x, y):
                    core.require(api.same(f, g), 'at communication point %r %r returns %r after one step and %r after '
                                 'the partition %r', p, op, f, g, sub)
            return {'nontrivial': split, 'classes': ['%d-%s' % (v, m)] + sorted(o) + (['split'] if split else [])}
        finally:
            a.free()
            b.free()


PROP = P10()
