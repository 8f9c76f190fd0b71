"""P03: a variable can be set only where its causality and variability allow."""
from .. import api, core, gen, md


def legal_walk(rng, v, m, k, o, n, **kw):
    w = gen.Walker(rng, v, m, k, o, p_bad=0, states=False, stop=False, **kw)
    return w, w.walk(n)


class P03(core.Prop):
    id = 'P03'
    counts = {'quick': 500000, 'thorough': 5000000}
    shrink_lists = ('pre',)
    rule = ('a case is a generated legal history reaching a mode and a set of one declared variable whose acceptance the '
            'property determines; non-trivial always; distinct by FMU, interface, mode, variable and history')
    technique = 'generated histories and sets against a table of allowed modes, invariant: refused sets change no variable'

    def gen(self, rng, i, tier):
        v, m, k = gen.pick_fmu(rng, i)
        o = gen.options(rng, v, m, k)
        w, pre = legal_walk(rng, v, m, k, o, rng.randint(0, 14))
        d = md.get(v, m)
        x = rng.choice([x for x in d.vars if x.type != 'Clock'])
        T = md.getter_type(v, x.type)
        exp = gen.settable(v, m, k, x.vr, T, w.mode)
        if m == 'StateSpace' and T == 'UInt64':
            vals = [rng.randint(0, 5)]
        else:
            vals = [gen.value(rng, v, m, x, rng.random() < 0.3) for _ in range(w.size(x.vr) if T == 'Float64' else 1)]
        if m == 'Stair' and T in ('Int32', 'Integer') and rng.random() < 0.5:
            vals = [rng.choice([10, 11, 2**31 - 1, 9, rng.randint(10, 10**6)])]
            if vals[0] >= 10:
                exp = False
        content = False
        if m in ('Feedthrough', 'StateSpace') and rng.random() < (0.25 if w.mode not in ('conf', 'reconf') else 0.5):
            q = self.illegal(rng, v, m, k, w.mode)
            if q:
                x, T, vals, exp = q
                content = True
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'pre': pre, 'set': ['set', T, [x.vr], vals], 'mode': w.mode,
                'expect': exp, 'reads': w.reads(), 'content': content}

    def illegal(self, rng, v, m, k, mode):
        """a settable variable and a value out of its range"""
        d = md.get(v, m)
        if m == 'StateSpace':
            if mode not in ('conf', 'reconf'):
                return None
            return d.byvr[rng.choice([1, 2, 3])], 'UInt64', [rng.choice([6, 6, 7, 8, 100, 2**32, 2**32 + 2, 2**63, 2**64 - 1])], False
        x = rng.choice([x for x in d.vars if x.causality == 'input' and x.type in ('Enumeration', 'String', 'Binary')])
        T = md.getter_type(v, x.type)
        if x.type == 'Enumeration':
            vals = [rng.choice([0, 3, -1, 2**31 - 1, -2**31, 257, rng.randint(3, 10**6)] + ([2**32 + 1, 2**32 + 2, -2**63] if v == 3 else []))]
        elif x.type == 'String':
            vals = [rng.choice(['x', 'long']) * rng.choice([128, 129, 200, 1000])]
        else:
            vals = ['a5' * rng.choice([129, 130, 200, 1000])]
        return x, T, vals, False

    def run(self, case):
        v, m, k = case['v'], case['model'], case['kind']
        exp = case['expect']
        if exp is None:
            raise core.Skip
        a = api.Inst(api.load('plain', v, m), k, logging=False, **case['opts'])
        try:
            if any(r[0] != 0 for r in a.run(case['pre'])):
                raise core.Skip
            w = gen.Walker(None, v, m, k, case['opts'])
            for op in case['pre']:
                w.note(op)
            if w.mode != case['mode']:
                raise core.Skip
            late = v == 2 and case['mode'] == 'inst'
            before = None if late else a.run(case['reads'])
            op = case['set']
            s = a.do(op)
            x = md.get(v, m).byvr[op[2][0]]
            what = '%s FMI %d %s: Set%s of %s (%s %s) in mode %s' % (m, v, k, op[1], x.name, x.variability, x.causality, case['mode'])
            if exp:
                core.require(s[0] == 0, '%s returned status %d', what, s[0])
            else:
                if case.get('content') and s[0] == 0:
                    raise core.Skip     # whether the value is legal is judged by P05
                core.require(s[0] == 3, '%s returned status %d, it must be refused', what, s[0])
                if late:
                    b = api.Inst(api.load('plain', v, m), k, logging=False, **case['opts'])
                    try:
                        b.run(case['pre'])
                        b.do(['enterInit'])
                        before = b.run(case['reads'])
                    finally:
                        b.free()
                if any(r[0] != 0 for r in before):
                    raise core.Skip
                after = a.run(case['reads'])
                for r, p, q in zip(case['reads'], before, after):
                    core.require(api.same(p, q), '%s was refused but changed values: %r returned %r before and %r after',
                                 what, r, p, q)
            return {'nontrivial': True, 'classes': ['%d-%s-%s %s' % (v, m, k, 'accepted' if exp else 'refused'),
                                                    'mode ' + case['mode']]}
        finally:
            a.free()


PROP = P03()
