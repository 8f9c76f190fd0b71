"""Generates calls that have an invalid argument, whatever the mode of the instance."""
from . import gen, md

STR_MAX, BIN_MAX = 128, 128


def _vals(rng, v, T, n):
    """n values for a set call as an argument of op_raw"""
    if T == 'String':
        return ['strs', [gen.any_string(rng, 20) for _ in range(n)]]
    if T in ('Float64', 'Float32', 'Real'):
        return ['in', T, [rng.uniform(-3, 3) for _ in range(n)]]
    if T == 'Boolean':
        return ['in', 'Boolean' if v == 3 else 'Bool2', [rng.randint(0, 1) for _ in range(n)]]
    return ['in', T, [rng.randint(0, 3) for _ in range(n)]]


def _out(v, T, n):
    if T == 'String':
        return ['out', 'ptr', n]
    return ['out', 'Bool2' if T == 'Boolean' and v == 2 else T, n]


def _get(rng, v, T, vrs, n, null=None):
    """raw get call with n values; null: 'vrs' or 'values' or 'sizes'"""
    a = None if null == 'vrs' else ['in', 'vr', vrs]
    if v == 3 and T == 'Binary':
        return ['raw', 'GetBinary', a, len(vrs), None if null == 'sizes' else ['out', 'size', n],
                None if null == 'values' else ['out', 'ptr', n], n]
    o = None if null == 'values' else _out(v, T, n)
    return ['raw', 'Get' + T, a, len(vrs), o] + ([n] if v == 3 else [])


def _set(rng, v, T, vrs, n, null=None, vals=None):
    a = None if null == 'vrs' else ['in', 'vr', vrs]
    if v == 3 and T == 'Binary':
        b = vals if vals is not None else [gen.any_binary(rng, 20) for _ in range(n)]
        return ['raw', 'SetBinary', a, len(vrs), None if null == 'sizes' else ['in', 'size', [len(q) // 2 for q in b]],
                None if null == 'values' else ['bins', b], n]
    o = None if null == 'values' else (vals if vals is not None else _vals(rng, v, T, n))
    return ['raw', 'Set' + T, a, len(vrs), o] + ([n] if v == 3 else [])


class Bad:
    def __init__(self, w):
        """w: the Walker whose mode and dimensions are used"""
        self.w, self.rng, self.v, self.m = w, w.rng, w.v, w.model
        self.types = sorted(w.getters)
        self.all_types = [t for t in (gen.INT_RANGE if self.v == 3 else {}) if t != 'Integer'] + \
            ['Float32', 'Float64', 'Boolean', 'String', 'Binary'] if self.v == 3 else ['Real', 'Integer', 'Boolean', 'String']

    def declared(self, T, q):
        return any(x.vr == q for x in self.w.getters.get(T, ()))

    def some(self, T, k=3):
        return [self.rng.choice(self.w.getters[T]).vr for _ in range(self.rng.randint(1, k))]

    def count(self, T, vrs):
        return sum(self.w.size(q) for q in vrs) if T == 'Float64' else len(vrs)

    def settable(self, T):
        return [x for x in self.w.getters.get(T, ()) if gen.settable(self.v, self.m, self.w.kind, x.vr, T, self.w.mode)]

    def make(self):
        """(op, label)"""
        rng = self.rng
        for _ in range(50):
            f = rng.choice([self.n_values, self.undeclared, self.undeclared, self.nulls, self.nulls, self.content, self.content, self.content, self.states,
                            self.states, self.derivs, self.clocks, self.serial, self.debug, self.not_settable_n, self.single])
            r = f()
            if r is not None:
                return r
        return self.undeclared()

    def n_values(self):
        rng = self.rng
        if self.v == 2:
            return None
        T = rng.choice(self.types)
        vrs = self.some(T)
        n = self.count(T, vrs)
        k = n + rng.choice([1, 1, 2, 7, -1, -1, -2, 100])
        if k < 0 or k == n:
            return None
        return _get(rng, 3, T, vrs, k), 'number of values (get)'

    def not_settable_n(self):
        rng = self.rng
        if self.v == 2:
            return None
        T = rng.choice(self.types)
        c = self.settable(T)
        if not c:
            return None
        vrs = [rng.choice(c).vr for _ in range(rng.randint(1, 3))]
        n = self.count(T, vrs)
        k = n + rng.choice([1, 1, 2, 7, -1, -1, -2, 100])
        if k < 0 or k == n:
            return None
        return _set(rng, 3, T, vrs, k), 'number of values (set)'

    def undeclared(self):
        rng = self.rng
        T = rng.choice(self.all_types)
        vrs = self.some(T, 2) if T in self.types else []
        decl = sorted({x.vr for x in self.w.md.vars})
        q = rng.choice(decl) if rng.random() < 0.4 else rng.choice([max(decl) + 1, 0xffffffff, 0x80000000, 100000, rng.getrandbits(32),
                                                                    rng.randint(0, 60)])
        if self.declared(T, q):
            return None
        vrs.insert(rng.randint(0, len(vrs)), q)
        n = self.count(T, vrs)
        k = rng.choice([n, n, n + 1])
        if self.v == 2:
            k = len(vrs)
        if rng.random() < 0.5:
            return _get(rng, self.v, T, vrs, k), 'undeclared (get)'
        return _set(rng, self.v, T, vrs, k), 'undeclared (set)'

    def nulls(self):
        rng = self.rng
        T = rng.choice(self.types)
        if 'Binary' in self.types and rng.random() < 0.3:
            T = 'Binary'
        get = rng.random() < 0.5
        c = self.w.getters[T] if get else self.settable(T)
        if not c:
            return None
        vrs = [rng.choice(c).vr for _ in range(rng.randint(1, 3))]
        n = self.count(T, vrs)
        if n == 0:
            return None
        null = rng.choice(['vrs', 'values'] + (['sizes'] if T == 'Binary' else []))
        return (_get if get else _set)(rng, self.v, T, vrs, n, null), 'null ' + null

    def content(self):
        """values out of range"""
        rng = self.rng
        k = rng.randint(0, 2)
        fit = ('conf', 'reconf') if self.m == 'StateSpace' else ('inst', 'init', 'event', 'step')
        if self.w.mode not in fit and rng.random() < 0.9:
            return None
        if self.m == 'Feedthrough' and k < 2:
            T = 'String' if k == 0 or self.v == 2 else 'Binary'
            xs = [x for x in self.w.getters[T] if x.causality == 'input']
            if not xs:
                return None
            if T == 'String':
                n = rng.choice([STR_MAX, STR_MAX, STR_MAX + 1, 200, 1000, 5000])
                vals = ['strs', [None if rng.random() < 0.1 else rng.choice('ax%') * n]]
            else:
                n = rng.choice([BIN_MAX + 1, BIN_MAX + 1, 200, 1000])
                vals = [rng.choice(['00', '5a']) * n]
            return _set(rng, self.v, T, [xs[0].vr], 1, vals=vals), 'too long'
        if self.m == 'Feedthrough' and k == 2:
            T = 'Int64' if self.v == 3 else 'Integer'
            xs = [x for x in self.w.getters[T] if x.type == 'Enumeration' and x.causality == 'input']
            if not xs:
                return None
            e = rng.choice([0, 3, -1, 2**31 - 1, -2**31, 257, 258] + ([2**32 + 1, 2**32 + 2, 2**40, -2**63] if self.v == 3 else []))
            return _set(rng, self.v, T, [xs[0].vr], 1, vals=['in', T, [e]]), 'enumeration'
        if self.m == 'StateSpace':
            q = rng.choice([1, 2, 3])
            return _set(rng, 3, 'UInt64', [q], 1, vals=['in', 'UInt64', [rng.choice([6, 6, 7, 100, 2**32, 2**32 + 2, 2**64 - 1, 2**63])]]), \
                'dimension'
        return None

    def states(self):
        rng = self.rng
        ind = rng.random() < 0.25
        n = self.w.nz if ind else self.w.nx
        fn = 'GetEventIndicators' if ind else rng.choice(['GetContinuousStates', 'SetContinuousStates', 'GetNominalsOfContinuousStates',
                                                          'GetDerivatives' if self.v == 2 else 'GetContinuousStateDerivatives'])
        T = 'Float64'
        if rng.random() < 0.3 and n > 0:
            return ['raw', fn, None, n], 'null states'
        k = n + rng.choice([1, 1, 2, 5, -1, -1, -2])
        if k < 0 or k == n:
            return None
        a = ['in', T, [rng.uniform(-1, 1) for _ in range(k)]] if fn[0] == 'S' else ['out', T, k]
        return ['raw', fn, a, k], 'number of states'

    def derivs(self):
        rng, v = self.rng, self.v
        if rng.random() < 0.4:
            n = rng.randint(1, 3)
            vrs = ['in', 'vr', [rng.choice([1, 3]) for _ in range(n)]]
            ords = ['in', 'i32', [1] * n]
            vals = ['out', 'Float64', n]
            k = rng.randint(0, 4)
            nv = n
            if k == 0:
                vrs = None
            elif k == 1:
                ords = None
            elif k == 2:
                vals = None
            elif k == 3:
                if rng.random() < 0.5:
                    ords[2][rng.randrange(n)] = rng.choice([0, 2, -1, 2**31 - 1])
                else:
                    vrs[2][rng.randrange(n)] = rng.choice([0, 2, 4, 77, 2**32 - 1])
            else:
                if v == 2:
                    return None
                nv = n + rng.choice([1, -1, 2])
                vals = ['out', 'Float64', nv]
            if v == 2:
                return ['raw', 'GetRealOutputDerivatives', vrs, n, ords, vals], 'output derivatives'
            return ['raw', 'GetOutputDerivatives', vrs, n, ords, vals, nv], 'output derivatives'
        nu, nk = rng.randint(1, 3), rng.randint(1, 3)
        adj = v == 3 and rng.random() < 0.5
        dv = self.w.md.derivatives or [1]
        st = self.w.md.states or [1]
        a = [['in', 'vr', [rng.choice(dv) for _ in range(nu)]], nu, ['in', 'vr', [rng.choice(st) for _ in range(nk)]], nk]
        ns, no = (nu, nk) if adj else (nk, nu)
        if v == 2:
            a += [['in', 'Float64', [1.0] * ns], ['out', 'Float64', no]]
            a[rng.choice([0, 2, 4, 5])] = None
        else:
            a += [['in', 'Float64', [1.0] * ns], ns, ['out', 'Float64', no], no]
            if rng.random() < 0.5:
                a[rng.choice([0, 2, 4, 6])] = None
            else:
                i = rng.choice([5, 7])
                k = max(0, a[i] + rng.choice([-1, 1, 2]))
                if k == a[i]:
                    return None
                a[i] = k
                a[i - 1] = ['in', 'Float64', [1.0] * k] if i == 5 else ['out', 'Float64', k]
        return ['raw', 'GetAdjointDerivative' if adj else 'GetDirectionalDerivative'] + a, 'derivatives'

    def clocks(self):
        rng = self.rng
        if self.v == 2:
            return None
        n = rng.randint(1, 3)
        fn = rng.choice(['GetClock', 'SetClock', 'GetIntervalDecimal', 'ActivateModelPartition'])
        good = {'GetClock': 1005, 'SetClock': 1001, 'GetIntervalDecimal': 1003}.get(fn)
        if fn == 'ActivateModelPartition':
            return ['raw', fn, rng.choice([0, 1, 1000, 1004, 1005, 2001, 2**32 - 1]), 1.0], 'partition'
        if self.m != 'Clocks':
            good = None
        bad = rng.choice([0, 2001, 77, 2**32 - 1, 1000])
        null = rng.random() < 0.5
        if fn == 'SetClock' and not null and self.m == 'Clocks':
            return None         # accepts any clock
        vrs = ['in', 'vr', [good or bad] * n]
        if not null:
            vrs[2][rng.randrange(n)] = bad
        a = [vrs, n, ['in', 'Clock', [True] * n] if fn == 'SetClock' else ['out', 'Clock', n] if fn == 'GetClock' else ['out', 'Float64', n]]
        if fn == 'GetIntervalDecimal':
            a.append(['out', 'Qualifier', n])
        if null:
            a[rng.choice([0, 2] + ([3] if len(a) > 3 else []))] = None
        return ['raw', fn] + a, 'clocks'

    def serial(self):
        rng = self.rng
        null = rng.random() < 0.2
        d = 0 if null else rng.choice([-1, 1, -8, 8, -10**6, 1000])
        if rng.random() < 0.5:
            return ['badSerialize', rng.randint(0, 2), d, null], 'serialize'
        return ['badDeserialize', rng.randint(0, 2), d, null], 'deserialize'

    def single(self):
        """null instead of the address of a single value or state"""
        rng = self.rng
        if rng.random() < 0.4:
            n = rng.choice([0, 1, 100, 5000])
            return ['raw', 'SerializeFMUState' if self.v == 3 else 'SerializeFMUstate', None, ['out', 'Bytes', n], n], 'null state'
        if self.w.kind != 'ME':
            return None
        a = rng.choice([[None, ['ref']], [['ref'], None], [None, None]])
        return ['raw', 'CompletedIntegratorStep', rng.random() < 0.5] + a, 'null result'

    def debug(self):
        rng = self.rng
        on = rng.random() < 0.5
        k = rng.randint(0, 2)
        if k == 0:
            return ['raw', 'SetDebugLogging', on, rng.randint(1, 3), None], 'categories'
        bad = None if k == 1 else rng.choice(['', 'logEvent', 'logevents', 'logEventsX', 'logStatusErro', 'logAll', '%s%s%n', 'x' * 300])
        cats = [rng.choice(['logEvents', 'logStatusError']) for _ in range(rng.randint(0, 2))]
        cats.insert(rng.randint(0, len(cats)), bad)
        return ['raw', 'SetDebugLogging', on, len(cats), ['strs', cats]], 'categories'
