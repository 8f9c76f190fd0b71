"""P31: the declared dependencies are those of the equations."""
import os
import struct
import xml.etree.ElementTree as ET

from .. import api, build, core, gen, md, mdcheck

FLOATS = ('Float32', 'Float64', 'Real')
SECTIONS = {'Outputs': 'Output', 'Derivatives': 'ContinuousStateDerivative', 'InitialUnknowns': 'InitialUnknown'}
_cache = {}


def structure(v, m):
    """{(section, unknown): {known: kind} or None}, both by value reference"""
    if (v, m) not in _cache:
        ms = ET.parse(os.path.join(build.REPO, m, 'FMI%d.xml' % v)).getroot().find('ModelStructure')
        d = md.get(v, m)
        out = {}
        items = [(e.tag, e) for e in ms] if v == 3 else [(SECTIONS[s.tag], e) for s in ms for e in s]
        ref = (lambda q: int(q)) if v == 3 else (lambda q: d.vars[int(q) - 1].vr)
        for tag, e in items:
            deps = e.get('dependencies')
            if deps is not None:
                kinds = e.get('dependenciesKind')
                deps = [ref(q) for q in deps.split()]
                deps = dict(zip(deps, kinds.split() if kinds else ['dependent'] * len(deps)))
            out[tag, ref(e.get('valueReference' if v == 3 else 'index'))] = deps
        _cache[v, m] = out
    return _cache[v, m]


def reach(st, init, u):
    """everything the unknown depends on, directly or through listed unknowns; None: anything"""
    secs = ('InitialUnknown',) if init else ('Output', 'ContinuousStateDerivative')
    deps = set()
    todo = [u]
    while todo:
        d = st.get(todo.pop())
        if d is None:
            return None
        for k in d:
            if k not in deps:
                deps.add(k)
                todo += [(s, k) for s in secs if (s, k) in st]
    return deps


FMUS = [q for q in gen.FMUS if q[1] in ('BouncingBall', 'Dahlquist', 'Feedthrough', 'VanDerPol', 'Roberts', 'Clocks')]
FMUS += [q for q in FMUS if q[1] != 'Clocks']
OTHERS = [q for q in gen.FMUS if q not in FMUS]
TICKS = (2001, 2002, 2003, 2004, 2005, 2007)


def number(rng, scale=1):
    """an odd multiple of scale * 2^-11: no product or sum of few of them vanishes by chance"""
    return scale * (2 * rng.randint(-4096, 4095) + 1) / 2048


class P31(core.Prop):
    id = 'P31'
    counts = {'quick': 150000, 'thorough': 2500000}
    shrink_lists = ('probes',)       # the start values are not generic
    rule = ('a case brings an FMU to generated values in a mode and changes knowns one at a time (in the clocked model: activates partitions), '
            'reading all unknowns with declared dependencies around each change; non-trivial if a change was judged; distinct by values and changes')
    technique = 'generated values and changes, metamorphic oracle (what is not declared to depend does not change, what is declared does, with constant factors)'
    assumptions = ('an output that is a state depends on itself without listing it', 'knowns are inputs and states, in Initialization Mode all variables '
                   'that can be set', 'Roberts with y3 calculated (the DAE mode is described by another file)')

    def gen(self, rng, i, tier):
        v, m = FMUS[i % len(FMUS)]
        if mdcheck.structure(v, m) or mdcheck.variables(v, m):
            return {'v': v, 'model': m}
        kind = rng.choice(gen.interfaces(v, m))
        if m == 'Roberts' and kind == 'CS' and rng.random() < 0.5:
            kind = 'ME'
        c = {'v': v, 'model': m, 'kind': kind}
        if m == 'Clocks':
            c['probes'] = [['set', rng.randint(-50, 50)] if rng.random() < 0.3 else [rng.choice([1001, 1002, 1003]), float(k)] for k in range(rng.randint(1, 15))]
            return c
        mode = c['mode'] = rng.choice(['init', 'event', 'ct', 'ct'] if kind == 'ME' else ['init', 'step', 'step'])
        d = md.get(v, m)
        init = [x for x in d.vars if x.type != 'Clock' and gen.settable(v, m, kind, x.vr, md.getter_type(v, x.type), 'init') and (m, x.vr) != ('Roberts', 6)]
        kn = init if mode == 'init' else [x for x in init if (x.causality == 'input' or x.vr in d.states)
                                          and (gen.settable(v, m, kind, x.vr, md.getter_type(v, x.type), mode))]
        scale = rng.choice([1, 1, 2, 4, 8, 16] if m in ('Roberts', 'VanDerPol') else [1, 1, 2, 16, 256, 4096, 65536])

        def base():
            return [[x.vr, self.value(rng, v, m, x, scale)] for x in init if m != 'Feedthrough' or rng.random() < 0.5]

        def probes(n):
            return [[x.vr, self.value(rng, v, m, x, scale)] for x in (rng.choice(kn) for _ in range(n))] if kn else []
        c['base'] = base()
        c['steps'] = rng.choice([0, 0, 1, 7]) if mode == 'step' and m not in ('VanDerPol', 'Roberts') else 0
        c['probes'] = probes(rng.randint(2, 10))
        if rng.random() < 0.4 and mode in ('event', 'ct'):
            c['probes'].insert(rng.randint(0, len(c['probes'])), [0, number(rng)])
        if kind == 'ME' and mode != 'init' and rng.random() < 0.5:
            c['vectors'] = True
        if rng.random() < 0.4:
            c['again'] = [base(), probes(rng.randint(1, 6))]
        return c

    def value(self, rng, v, m, x, scale):
        if x.type in FLOATS:
            return number(rng, scale)
        return gen.value(rng, v, m, x)

    def run(self, c):
        v, m = c['v'], c['model']
        for w, n in [(v, m)] + OTHERS:
            bad = mdcheck.structure(w, n) or mdcheck.variables(w, n)
            core.require(not bad, 'FMI %d.0 %s: %s', w, n, bad)
        a = api.Inst(api.load('plain', v, m), c['kind'], logging=False)
        try:
            st = structure(v, m)
            if m == 'Clocks':
                return self.clocks(c, a, st)
            slopes = {}
            r = self.judge(c, a, st, slopes)
            if c.get('again') and a.do(['reset'])[0] == 0:
                for q in [q for q in slopes if slopes[q][2] != 'constant']:
                    slopes.pop(q)
                self.judge(dict(c, base=c['again'][0], probes=c['again'][1], steps=0), a, st, slopes)
            return r
        finally:
            a.free()

    def read(self, a, c, T, vr):
        r = a.do(['getbits' if T in FLOATS else 'get', T, [vr]])
        if r[0] != 0:
            raise core.Skip
        return r[1][0]

    def num(self, T, x):
        if T == 'Float32':
            return struct.unpack('<f', struct.pack('<I', int(x, 16)))[0]
        return struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0] if T in FLOATS else None

    def judge(self, c, a, st, slopes):
        v, m, kind, mode = c['v'], c['model'], c['kind'], c['mode']
        d = md.get(v, m)
        T = {x.vr: md.getter_type(v, x.type) for x in d.vars}

        def do(op):
            if a.do(op)[0] != 0:
                raise core.Skip
        if v == 2:
            do(['setup', 0.0, None])
        do(['enterInit'] if v == 2 else ['enterInit', 0.0, None])
        for q, x in c['base']:
            do(['set', T[q], [q], [x]])
        if mode != 'init':
            do(['exitInit'])
            if mode == 'ct':
                do(['enterCT'])
            for _ in range(c['steps']):
                do(['doStep', None, gen.STEP[m]])
        secs = ('InitialUnknown',) if mode == 'init' else ('Output', 'ContinuousStateDerivative', 'EventIndicator')
        unk = [q for q in st if q[0] in secs and st[q] is not None]
        deps = {q: reach(st, mode == 'init', q) for q in unk}
        vec = {}
        if c.get('vectors'):
            for sec, fn in (('ContinuousStateDerivative', 'getDer'), ('EventIndicator', 'getInd')):
                every = [q for q in st if q[0] == sec]
                vec.update({q: (fn, len(every), i) for i, q in enumerate(every)})

        def unknowns():
            r = {q: self.read(a, c, T[q[1]], q[1]) for q in unk if q not in vec}
            for q in unk:
                if q in vec:
                    fn, k, i = vec[q]
                    y = a.do([fn, k])
                    if y[0] != 0:
                        raise core.Skip
                    r[q] = struct.pack('>d', y[1][i]).hex()
            return r
        n = changed = 0
        for k, x in c['probes']:
            old = unknowns()
            ko = self.read(a, c, T[k], k)
            do(['setTime', x] if k == 0 else ['set', T[k], [k], [x]])
            kn = self.read(a, c, T[k], k)
            if kn == ko:
                continue
            new = unknowns()
            for q in unk:
                if q[1] == k:
                    continue
                n += 1
                what = '%s %s (vr %d) of FMI %d.0 %s %s in mode %s' % (q[0], d.byvr[q[1]].name, q[1], v, m, kind, mode)
                ch = '%s (vr %d) changed from %r to %r' % (d.byvr[k].name, k, ko, kn)
                if deps[q] is not None and k not in deps[q]:
                    core.require(new[q] == old[q], '%s does not list vr %d but is %r instead of %r after %s', what, k, new[q], old[q], ch)
                kd = st[q].get(k)
                if kd is None:
                    continue
                changed += 1
                core.require(new[q] != old[q], '%s lists vr %d but stays %r when %s', what, k, old[q], ch)
                if kd in ('constant', 'fixed') and T[k] in FLOATS and T[q[1]] in FLOATS:
                    f = [self.num(T[q[1]], y) for y in (old[q], new[q])]
                    g = [self.num(T[k], y) for y in (ko, kn)]
                    w = g[1] - g[0]
                    s = (f[1] - f[0]) / w
                    e = (1e-6 if T[k] == 'Float32' else 1e-13) * (abs(f[0]) + abs(f[1]) + abs(g[0]) + abs(g[1])) / abs(w) + 1e-12 * abs(s)
                    if (q, k) in slopes:
                        s0, e0 = slopes[q, k][:2]
                        core.require(abs(s - s0) <= e + e0, '%s: the factor of vr %d is declared %s but was %r and is %r', what, k, kd, s0, s)
                    slopes[q, k] = s, e, kd
        return {'nontrivial': n > 0, 'classes': ['%d-%s-%s %s' % (v, m, kind, mode)] + (['declared dependency changed'] if changed else [])
                + (['factors compared'] if slopes else []) + (['vectors'] if vec else [])}

    def clocks(self, c, a, st):
        for op in (['enterInit', 0.0, None], ['exitInit']):
            if a.do(op)[0] != 0:
                raise core.Skip
        out = [q for q in TICKS if st.get(('Output', q)) is not None]
        n = 0
        for p in c['probes']:
            k = 2006 if p[0] == 'set' else p[0]
            old = a.do(['get', 'Int32', list(out)])
            if a.do(['set', 'Int32', [2006], [p[1]]] if k == 2006 else ['activate', k, p[1]])[0] != 0:
                raise core.Skip
            new = a.do(['get', 'Int32', list(out)])
            for q, x, y in zip(out, old[1], new[1]):
                n += 1
                core.require(x == y or k in st['Output', q], 'output %d does not list vr %d but changed from %r to %r', q, k, x, y)
        return {'nontrivial': n > 0, 'classes': ['Clocks']}


PROP = P31()
