"""P14: FMI 2.0 and FMI 3.0 builds of a model behave the same."""
from .. import api, core, gen, md

TMAP = {'Real': 'Float64', 'Integer': 'Int32', 'Boolean': 'Boolean', 'String': 'String'}
SAME = ('exitInit', 'enterEvent', 'enterCT', 'terminate', 'reset', 'update', 'completed', 'setTime', 'setStates', 'getStates',
        'getDer', 'getInd', 'getNom', 'dirDer', 'outDer', 'getState', 'setState', 'freeState', 'serialize', 'deserialize', 'debug')

_same = set()


def declared(m, d2, d3):
    """the model descriptions declare the same variables"""
    if m in _same:
        return
    for x in d2.vars:
        y = d3.byname.get(x.name)
        core.require(y is not None, 'the variable %s of %s exists in FMI 2.0 only', x.name, m)
        for k in ('vr', 'causality', 'variability', 'start', 'nominal', 'min', 'max'):
            p, q = getattr(x, k), getattr(y, k)
            core.require(p == q or number(p) is not None and number(p) == number(q), '%s of %s has %s %r in FMI 2.0 and %r in FMI 3.0', x.name, m, k, p, q)
    _same.add(m)


def number(s):
    try:
        return float(s)
    except (TypeError, ValueError):
        return None


class P14(core.Prop):
    id = 'P14'
    counts = {'quick': 350000, 'thorough': 3500000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated FMI 2.0 call sequence executed on the FMI 2.0 build and, translated call by call, on the '
            'FMI 3.0 build; non-trivial if at least three calls succeeded after initialization')
    technique = 'generated call sequences, differential oracle (FMI 2.0 build == FMI 3.0 build)'

    def gen(self, rng, i, tier):
        m = gen.MODELS2[i % len(gen.MODELS2)]
        k = rng.choice(['ME', 'CS'])
        w = gen.Walker(rng, 2, m, k, {}, p_bad=0, states=rng.random() < 0.4, legal_set=rng.choice([1, 1, 0.9]))
        ops = w.walk(rng.randint(6, 40))
        return {'model': m, 'kind': k, 'ops': ops}

    def translate(self, d2, d3, op):
        """the corresponding FMI 3.0 call or None"""
        T = op[1]
        calls = []
        for j, q in enumerate(op[2]):
            x2 = [x for x in d2.vars if x.vr == q and md.getter_type(2, x.type) == T]
            if not x2:
                return None
            x3 = d3.byname.get(x2[0].name)
            if x3 is None:
                return None
            calls.append((md.getter_type(3, x3.type), x3.vr))
        if len({t for t, _ in calls}) != 1:
            return None
        t3 = calls[0][0]
        if op[0] == 'get':
            return ['get', t3, [q for _, q in calls], len(calls)]
        vals = [bool(x) for x in op[3]] if t3 == 'Boolean' else op[3]
        return ['set', t3, [q for _, q in calls], vals]

    def run(self, case):
        m, k = case['model'], case['kind']
        d2, d3 = md.get(2, m), md.get(3, m)
        declared(m, d2, d3)
        a = api.Inst(api.load('plain', 2, m), k, logging=False)
        b = api.Inst(api.load('plain', 3, m), k, logging=False)
        mode = 'inst'
        setup = None
        okc = 0
        refused = False
        slots, blobs = {}, {}
        try:
            for op in case['ops']:
                n = op[0]
                if n == 'setup':
                    if mode != 'inst':
                        continue
                    setup = op
                    continue
                if n == 'enterInit':
                    if mode != 'inst':
                        continue
                    if setup is None:
                        setup = ['setup', 0.0, None]
                    s, x, y = a.do(setup)[0], a.do(['enterInit']), b.do(['enterInit', setup[1], setup[2]])
                    x = [max(s, x[0])] + x[1:]
                elif n in ('get', 'set'):
                    if mode == 'inst' and n == 'get':
                        continue
                    q = self.translate(d2, d3, op)
                    if q is None:
                        continue
                    x, y = a.do(op), b.do(q)
                    if n == 'get' and x[0] == 0 and op[1] == 'Boolean':
                        x = [x[0], [bool(e) for e in x[1]]]
                elif n == 'doStep':
                    x, y = a.do(op), b.do(op)
                    if y[0] == 0:
                        if y[1][1]:
                            core.require(x[0] == 2, '%r: the FMI 3.0 FMU requests to terminate, FMI 2.0 returns %r', op, x)
                            core.require(y[1][3] == a.do(['status', 'Real', 2])[1], 'different times of termination')
                            break
                        y = [0]
                elif n in SAME:
                    if n == 'getDer' and mode == 'init' or n == 'getNom' and mode in ('init', 'inst') \
                            or n == 'enterEvent' and mode == 'event' or n == 'dirDer' and mode == 'inst':
                        continue
                    x, y = a.do(op), b.do(op)
                else:
                    continue
                core.require(api.same(x, y), '%r returns %r in FMI 2.0 and %r in FMI 3.0 (mode %s)', op, x, y, mode)
                if x[0] == 3:
                    refused = True
                    mode = 'term'
                elif x[0] == 'noslot' or x[0] == 'noblob':
                    continue
                elif n == 'getState':
                    slots[op[1]] = (mode, setup, a.cp, b.cp)
                elif n == 'serialize':
                    blobs[op[2]] = slots[op[1]]
                elif n == 'deserialize':
                    slots[op[2]] = blobs[op[1]]
                elif n == 'setState':
                    mode, setup, a.cp, b.cp = slots[op[1]]
                else:
                    okc += mode in ('event', 'ct', 'step')
                    mode = gen.after(2, k, False, mode, n)
                    if n == 'reset':
                        setup = None
                        a.cp = b.cp = 0.0
            return {'nontrivial': okc >= 3, 'classes': ['%s-%s' % (m, k)] + (['refused call'] if refused else [])}
        finally:
            a.free_all()
            b.free_all()


PROP = P14()
