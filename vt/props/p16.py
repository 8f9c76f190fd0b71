"""P16: directional and adjoint derivatives are those of the model equations."""
import math

from .. import api, core, gen, md

# unknown -> knowns; VanDerPol's mu is a known in initialization mode only, Roberts' y3 in DAE mode only
UNK = {'VanDerPol': [2, 4], 'Roberts': [3, 5, 8, 9, 10]}
KNOWN = {'VanDerPol': [1, 3], 'Roberts': [2, 4]}
FUN = ['dirDer', 'adjDer']


def announced(v, m, kind, fn):
    a = md.get(v, m).interfaces.get(kind, {})
    return 'true' in (a.get('provides%sDerivatives' % fn), a.get('provides%sDerivative' % fn))


class P16(core.Prop):
    id = 'P16'
    counts = {'quick': 450000, 'thorough': 4500000}
    shrink_lists = ('calls', 'steps', 'init')
    rule = ('a case drives an FMU to a random state in a random mode and asks for derivatives with random lists (with '
            'repetition) and seeds; non-trivial if an FMU that announces derivatives returned a non-zero sensitivity')
    technique = ('generated states, lists and seeds; oracle: Jacobian obtained from the values of a second instance by central '
                 'differences with large steps, which are exact for these (at most quadratic) equations')
    assumptions = ('moderate values; relative tolerance 1e-9 of the sum of the absolute terms',)

    def gen(self, rng, i, tier):
        if rng.random() < 0.05:
            v, m = rng.choice([q for q in gen.FMUS if q[1] not in UNK])
        else:
            v, m = [(2, 'VanDerPol'), (3, 'VanDerPol'), (3, 'Roberts')][i % 3]
        kind = rng.choice(gen.interfaces(v, m))
        if m == 'Roberts':
            kind = 'ME'
        d = md.get(v, m)
        dae = m == 'Roberts' and rng.random() < 0.4
        c = {'v': v, 'model': m, 'kind': kind, 'dae': dae,
             'mode': rng.choice(['init', 'event', 'ct', 'term'] if kind == 'ME' else ['init', 'step', 'term']),
             'init': [], 'steps': []}
        if m in UNK:
            kn = KNOWN[m] + ([5] if m == 'VanDerPol' else [6] if dae else [])
            for q in rng.sample(kn, rng.randint(0, len(kn))):
                c['init'].append([q, gen.value(rng, v, m, d.byvr[q])])
            for _ in range(rng.choice([0, 1, 2])):
                if kind == 'CS':
                    c['steps'].append(['doStep', None, gen.STEP[m] * rng.randint(1, 30)])
                elif rng.random() < 0.8:
                    q = rng.choice(KNOWN[m] + ([6] if dae else []))
                    c['steps'].append(['set', 'Real' if v == 2 else 'Float64', [q], [gen.value(rng, v, m, d.byvr[q])]])
                else:
                    c['steps'].append(['setStates', [gen.value(rng, v, m, d.byvr[q]) for q in d.states]])
            unk = UNK[m] + ([6] if m == 'Roberts' and not dae else [])
            kns = KNOWN[m] + ([5] if m == 'VanDerPol' and c['mode'] == 'init' else [6] if dae else [])
        else:
            unk = kns = sorted({x.vr for x in d.vars if x.type != 'Clock'}) or [1]
        calls = []
        for _ in range(rng.randint(1, 4)):
            adj = v == 3 and rng.random() < 0.45
            u = [rng.choice(unk) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
            k = [rng.choice(kns) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
            if rng.random() < 0.03:
                (u if adj else k).clear()
            seed = [rng.choice([0.0, 1.0, -1.0]) if rng.random() < 0.2 else rng.uniform(-5, 5) * 10 ** rng.randint(-3, 3)
                    for _ in (u if adj else k)]
            calls.append([FUN[adj], u, k, seed])
        c['calls'] = calls
        return c

    def drive(self, a, c, final):
        v, T = c['v'], 'Real' if c['v'] == 2 else 'Float64'
        ops = []
        if c['dae']:
            ops += [['enterConf'], ['set', 'Boolean', [1], [True]], ['exitConf']]
        if v == 2:
            ops += [['setup', 0.0, None], ['enterInit']]
        else:
            ops += [['enterInit', 0.0, None]]
        ops += [['set', T, [q], [x]] for q, x in c['init']]
        mode = c['mode']
        if mode != 'init':
            ops += [['exitInit']]
            if c['kind'] == 'ME' and mode != 'event':
                ops += [['enterCT']]
            for op in c['steps']:
                if op[0] == 'setStates' and mode == 'event':
                    continue
                ops.append(op)
            if mode == 'term' and final:
                ops += [['terminate']]
        for op in ops:
            if a.do(op)[0] != 0:
                raise core.Skip

    def read(self, b, T, unk):
        r = b.do(['get', T, unk])
        if r[0] != 0:
            raise core.Skip
        return r[1]

    def jac(self, b, c, unk, kn):
        """columns of the Jacobian, and the rounding error of each entry"""
        T = 'Real' if c['v'] == 2 else 'Float64'
        J, E = {}, {}
        for k in kn:
            x = self.read(b, T, [k])[0]
            if not abs(x) < 1e4:
                raise core.Skip     # diverged
            h = max(abs(x), 2.0 ** -6 if (c['model'], k) == ('Roberts', 4) else 0.5)
            h = 2.0 ** round(math.log2(h))
            f = []
            for y in (x + h, x - h):
                if b.do(['set', T, [k], [y]])[0] != 0:
                    raise core.Skip
                f.append((y, self.read(b, T, unk)))
            if b.do(['set', T, [k], [x]])[0] != 0:
                raise core.Skip
            w = f[0][0] - f[1][0]
            for j, u in enumerate(unk):
                p, q = f[0][1][j], f[1][1][j]
                # x +- h is rounded: the nodes are not exactly symmetric, the error is of the order of rounding too
                J[u, k] = (p - q) / w
                E[u, k] = 4e-15 * (abs(p) + abs(q) + (3e7 * h * h if (c['model'], k) == ('Roberts', 4) else 0) + 4) / abs(w) + 1e-12 * abs(J[u, k])
        return J, E

    def run(self, c):
        v, m, kind = c['v'], c['model'], c['kind']
        cls = ['%d-%s-%s %s' % (v, m, kind, c['mode'])]
        a = api.Inst(api.load('plain', v, m), kind, logging=False)
        b = None
        try:
            if m not in UNK:
                if c['mode'] == 'step' and kind == 'SE':
                    raise core.Skip
                self.drive(a, dict(c, steps=[], init=[]), True)
                for fn, u, k, s in c['calls']:
                    if not u or not k:
                        continue
                    r = a.do([fn, u, k, s])
                    core.require(r[0] == 3, '%s does not announce %s but returns %r', m, fn, r)
                return {'nontrivial': False, 'classes': ['not announced: %d-%s' % (v, m)]}
            b = api.Inst(api.load('plain', v, m), kind, logging=False)
            self.drive(a, c, True)
            self.drive(b, c, False)
            us = sorted({q for _, u, _, _ in c['calls'] for q in u})
            ks = sorted({q for _, _, k, _ in c['calls'] for q in k})
            J, E = self.jac(b, c, us, ks)
            nt = False
            for fn, u, k, s in c['calls']:
                if not announced(v, m, kind, 'Directional' if fn == 'dirDer' else 'Adjoint'):
                    continue
                r = a.do([fn, u, k, s])
                core.require(r[0] == 0, '%r in mode %s returns status %r', [fn, u, k, s], c['mode'], r)
                for i, got in enumerate(r[1]):
                    if fn == 'dirDer':
                        terms = [(J[u[i], q] * z, E[u[i], q] * abs(z)) for q, z in zip(k, s)]
                    else:
                        terms = [(J[q, k[i]] * z, E[q, k[i]] * abs(z)) for q, z in zip(u, s)]
                    want = sum(t for t, _ in terms)
                    tol = 1e-9 * sum(abs(t) for t, _ in terms) + sum(e for _, e in terms) + 1e-13
                    nt = nt or abs(want) > 1e-6
                    core.require(abs(got - want) <= tol, '%s of unknowns %r, knowns %r, seed %r in mode %s: element %d is %r, '
                                 'differences of the values give %r (tolerance %g)', fn, u, k, s, c['mode'], i, got, want, tol)
                cls.append(fn)
            return {'nontrivial': nt, 'classes': cls}
        finally:
            a.free()
            if b:
                b.free()


PROP = P16()
