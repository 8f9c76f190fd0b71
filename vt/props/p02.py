"""P02: what is written to a variable is what is read back."""
import random

from .. import api, core, gen, md

FLOATS = ('Float32', 'Float64', 'Real')
# variables that do not depend on other variables of the model
BASE = {
    'BouncingBall': (0, 1, 3, 5, 6, 7), 'Dahlquist': (0, 1, 3), 'VanDerPol': (0, 1, 3, 5), 'Stair': (0, 1),
    'Roberts': (0, 1, 2, 4, 6, 7), 'StateSpace': (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11), 'Resource': (0, 1),
}


def raw(rng, v, m, x):
    """any value of the type of x; floats as bit patterns"""
    T = md.getter_type(v, x.type)
    if x.type == 'Enumeration' or m == 'Stair':
        return gen.value(rng, v, m, x)
    if T in FLOATS:
        bits = 32 if T == 'Float32' else 64
        k = rng.random()
        if k < 0.25:
            e = 0xff800000 if bits == 32 else 0xfff0000000000000
            sp = [0, 1 << (bits - 1), e, e & ~(1 << (bits - 1)), e | 1, (e & ~(1 << (bits - 1))) | 1, (1 << bits) - 1, 1, 2,
                  (1 << (bits - 1)) - 1, (1 << (bits - 1)) | 1]
            return '%x' % rng.choice(sp)
        if k < 0.5:
            import struct
            f = rng.uniform(-10, 10)
            return struct.pack('>f' if bits == 32 else '>d', f).hex().lstrip('0') or '0'
        return '%x' % rng.getrandbits(bits)
    if T == 'Boolean':
        return rng.random() < 0.5 if v == 3 else rng.randint(0, 1)
    if T == 'String':
        return gen.any_string(rng)
    if T == 'Binary':
        return gen.any_binary(rng)
    return gen.any_int(rng, T)


class P02(core.Prop):
    id = 'P02'
    counts = {'quick': 120000, 'thorough': 1800000}
    shrink_lists = ('sets',)
    rule = ('a case brings an FMU into a mode and performs generated set calls (grouped, repeated references, any bit '
            'patterns), reading all independent variables after each; non-trivial if at least one set succeeded')
    technique = 'generated writes, round-trip oracle with a shadow copy, metamorphic regrouping'

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        if m == 'Resource' and i % 7:
            v, m = 3, 'Feedthrough'
        if rng.random() < 0.25:
            m = 'Feedthrough'
        k = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, k)
        modes = {'ME': ['inst', 'init', 'event', 'ct'], 'CS': ['inst', 'init', 'step', 'step'], 'SE': ['inst', 'init', 'clock']}[k]
        if o.get('event_mode'):
            modes = modes + ['event']
        if v == 3:
            modes = modes + ['conf', 'reconf']
        mode = rng.choice(modes)
        w = gen.Walker(rng, v, m, k, o)
        pre = []
        if m in ('StateSpace', 'Roberts') and rng.random() < 0.5:
            if m == 'StateSpace':
                w.dims = [rng.randint(0, 5) for _ in range(3)]
                s = ['set', 'UInt64', [1, 2, 3], list(w.dims)]
            else:
                s = ['set', 'Boolean', [1], [True]]
            pre = [['enterConf'], s, ['exitConf']]
        dae = m == 'Roberts' and bool(pre)
        pre += w.to_mode(mode)
        cands = {}
        for x in md.get(v, m).vars:
            if x.type == 'Clock' or (m == 'Roberts' and x.vr == 6 and not dae):
                continue
            T = md.getter_type(v, x.type)
            if gen.settable(v, m, k, x.vr, T, mode):
                cands.setdefault(T, []).append(x)
        sets = []
        if cands:
            for _ in range(rng.randint(1, 10)):
                T = rng.choice(sorted(cands))
                xs = [rng.choice(cands[T]) for _ in range(rng.choice([1, 1, 1, 2, 3, 4, 6]) if rng.random() < 0.997 else rng.randint(20, 300))]
                vals, sizes = [], []
                for x in xs:
                    n = w.size(x.vr) if T == 'Float64' else 1
                    if T == 'UInt64' and m == 'StateSpace':
                        q = [rng.randint(0, 5)]
                        w.dims[x.vr - 1] = q[0]
                    else:
                        q = [raw(rng, v, m, x) for _ in range(n)]
                    vals += q
                    sizes.append(n)
                sets.append([T, [x.vr for x in xs], vals, sizes])
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'mode': mode, 'pre': pre, 'sets': sets, 'dae': dae,
                'perm': rng.getrandbits(20)}

    def read(self, a, case, rng):
        """all independent variables, in generated groups"""
        v, m = case['v'], case['model']
        d = md.get(v, m)
        by = {}
        for x in d.vars:
            if x.type != 'Clock' and (m not in BASE or x.vr in BASE[m]):
                if m == 'Roberts' and x.vr == 6 and not case['dae']:
                    continue
                by.setdefault(md.getter_type(v, x.type), set()).add(x.vr)
        dims = (0, 0, 0)
        if m == 'StateSpace':
            q = a.do(['get', 'UInt64', [1, 2, 3]])
            dims = q[1] if q[0] == 0 else dims
        out = {}
        for T in sorted(by):
            vrs = sorted(by[T])
            rng.shuffle(vrs)
            while vrs:
                c = rng.choice([1, 2, 4, len(vrs)])
                grp, vrs = vrs[:c], vrs[c:]
                if rng.random() < 0.2:
                    # some references repeatedly
                    for q in rng.choices(grp, k=rng.choice([1, 1, 2, 5]) if rng.random() < 0.99 else rng.randint(50, 300)):
                        grp.insert(rng.choice([grp.index(q), rng.randint(0, len(grp))]), q)
                sizes = [gen.SS_SIZE[q](*dims) if m == 'StateSpace' and T == 'Float64' else 1 for q in grp]
                r = a.do(['getbits' if T in FLOATS else 'get', T, grp, sum(sizes)])
                if r[0] != 0:
                    raise core.Skip
                p = 0
                for q, n in zip(grp, sizes):
                    val = r[1][p:p + n]
                    p += n
                    if (T, q) in out:
                        core.require(out[T, q] == val, 'variable %d (%s) is %r and %r in one call', q, T, out[T, q], val)
                    out[T, q] = val
        return out

    def run(self, case):
        v, m, k, mode = case['v'], case['model'], case['kind'], case['mode']
        d = md.get(v, m)
        lib = api.load('plain', v, m)
        rng = random.Random(case['perm'])
        a = api.Inst(lib, k, logging=False, **case['opts'])
        b = api.Inst(lib, k, logging=False, **case['opts'])
        late = v == 2 and mode == 'inst'
        try:
            for i in (a, b):
                if any(r[0] != 0 for r in i.run(case['pre'])):
                    raise core.Skip
            if late:
                c = api.Inst(lib, k, logging=False, **case['opts'])
                try:
                    c.do(['enterInit'])
                    shadow = self.read(c, case, rng)
                finally:
                    c.free()
            else:
                shadow = self.read(a, case, rng)
            ok = 0
            T2out = {}
            if m == 'Feedthrough':
                for x in d.vars:
                    if '_input' in x.name:
                        y = d.byname.get(x.name.replace('_input', '_output'))
                        if y:
                            T2out[md.getter_type(v, x.type), x.vr] = (md.getter_type(v, y.type), y.vr)
            for T, vrs, vals, sizes in case['sets']:
                if a.do(['set', T, vrs, vals])[0] != 0:
                    raise core.Skip
                ok += 1
                p = 0
                for q, n in zip(vrs, sizes):
                    val = vals[p:p + n]
                    p += n
                    b.do(['set', T, [q], val])
                    shadow[T, q] = val
                    if (T, q) in T2out:
                        shadow[T2out[T, q]] = val
                    if m == 'StateSpace':
                        if q == 8 and mode in ('inst', 'init', 'conf'):
                            shadow[T, 11] = val
                        if T == 'UInt64':
                            shadow = {z: s for z, s in shadow.items() if z[0] != 'Float64'}
                if not late:
                    self.cmp(case, d, shadow, self.read(a, case, rng), 'after Set%s(%r, %r)' % (T, vrs, vals))
            if late:
                a.do(['enterInit'])
                b.do(['enterInit'])
                self.cmp(case, d, shadow, self.read(a, case, rng), 'after all sets')
            self.cmp(case, d, self.read(a, case, rng), self.read(b, case, rng), 'set one by one instead of in groups')
            return {'nontrivial': ok > 0, 'classes': ['%d-%s-%s-%s' % (v, m, k, mode)]}
        finally:
            a.free()
            b.free()

    def cmp(self, case, d, want, got, when):
        for key in want:
            if key in got:
                core.require(want[key] == got[key], '%s: variable %s (vr %d, Get%s) is %r, expected %r', when,
                             d.byvr[key[1]].name, key[1], key[0], got[key], want[key])


PROP = P02()
