"""P23: the importer's call log records each call completely."""
import re

from .. import api, core, gen, imp
from .p22 import COMP, OPS_CS, OPS_ME, P22

ARRAYS = {v: [n for n, s in imp.SPEC[v].items() if any(p[1] and p[3] != '1' and not p[4] for p in s)] for v in (2, 3)}
LONG = {v: [n for n, s in imp.SPEC[v].items() if any(p[2] in 'SB' for p in s)] for v in (2, 3)}


def near(rng):
    """a length near the size of the message buffer (which doubles from 1024)"""
    k = rng.choice([1024, 1024, 1024, 2048, 4096, 8192])
    return max(0, k - rng.randint(0, 220))


class P23(core.Prop):
    id = 'P23'
    kinds = ('plain', 'importer', 'mock')
    counts = {'quick': 45000, 'thorough': 500000}
    shrink_lists = ('ops', 'calls')
    rule = ('a case makes generated calls through the importer on a mock FMU (known arguments, results and statuses) or on a real FMU and reads the '
            'call log; non-trivial if at least one entry was compared; distinct by call sequence')
    technique = 'generated calls, oracle: each log entry read against the arguments passed and the results returned'
    assumptions = ('valid pointers and strings', 'arrays whose addresses are logged may be given by address')

    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            c = P22.gen_real(self, rng, i)
            c['log_calls'] = True
            return c
        v = rng.choice([2, 3, 3])
        kind = rng.choice(['ME', 'CS'] if v == 2 else ['ME', 'CS', 'SE'])
        ok = lambda n: v == 3 or n not in (imp.CS2 if kind == 'ME' else imp.ME2)
        names = [n for n in imp.SPEC[v] if ok(n)]
        calls = []
        for _ in range(rng.randint(1, 8)):
            k = rng.random()
            if k < 0.4:
                c = imp.gen_call(rng, v, rng.choice(names))
            elif k < 0.65:
                n = rng.choice([x for x in ARRAYS[v] if ok(x)])
                lens = rng.choice([(rng.randint(30, 140),), (rng.randint(30, 140),), (rng.randint(140, 400),), (1500,)])
                c = imp.gen_call(rng, v, n, lens=lens, long=10)
            else:
                n = rng.choice([x for x in LONG[v] if ok(x)])
                c = imp.gen_call(rng, v, n, lens=(1, 1, 2, 3))
                for p, x in zip(imp.SPEC[v][n], c[1]):
                    if p[2] in 'SB' and x:
                        j = rng.randrange(len(x))
                        m = near(rng)
                        x[j] = '%02x' % rng.getrandbits(8) * (m // 2) if p[2] == 'B' else rng.choice('ab%"{') * m
                if 'Binary' in n:
                    c[1][2] = [len(x) // 2 for x in c[1][3]]
            calls.append(c)
        return {'part': 'mock', 'v': v, 'kind': kind, 'calls': calls, 'name': 'n' * rng.choice([0, 3, 3, near(rng)]),
                'token': rng.choice(['{abc}', '', '%s%d', 't' * near(rng)]), 'resource': rng.choice([None, '', '/a b/%20/', 'r' * near(rng)]),
                'visible': rng.randint(0, 1), 'logging': rng.randint(0, 1), 'event_mode': rng.randint(0, 1), 'early': rng.randint(0, 1),
                'vrs': [rng.getrandbits(32) for _ in range(rng.choice([0, 1, 3]))], 'iupd': rng.random() < 0.5,
                'logger': rng.random() < 0.8, 'log_calls': True, 'fail': rng.random() < 0.05}

    belongs = P22.belongs
    text = P22.text
    copy = P22.copy
    instantiate = P22.instantiate

    def run(self, case):
        try:
            return getattr(self, case['part'])(case)
        finally:
            for p in list(imp._callers):
                imp._callers.pop(p)

    def one(self, il, n, what, status):
        e = il.entries[n:]
        core.require(len(e) == 1, '%s: %d log entries: %r', what, len(e), e)
        core.require(status is None or e[0][0] == status, '%s: status %r is logged, but %r returned', what, e[0][0], status)
        core.require(e[0][1] is not None, '%s: no text', what)
        return e[0][1]

    def creation(self, case, text, name):
        """text of the entry for the instantiation"""
        v, kind = case['v'], case['kind']
        r = imp.Reader(text)
        r.lit(b'fmi%d%s(' % (v, name.encode()))
        e = lambda s: s.encode()
        ps = [('instanceName', 'S', e(case['name']))]
        if v == 2:
            ps += [('fmuType', 'i', 0 if kind == 'ME' else 1), ('fmuGUID', 'S', e(case['token']))]
        else:
            ps += [('instantiationToken', 'S', e(case['token']))]
        ps += [('fmuResourceLocation' if v == 2 else 'resourcePath', 'S', None if case['resource'] is None else e(case['resource']))]
        if v == 2:
            ps += [('functions', '{', None)]
        ps += [('visible', 'b', case['visible']), ('loggingOn', 'b', case['logging'])]
        if v == 3 and kind == 'CS':
            ps += [('eventModeUsed', 'b', case['event_mode']), ('earlyReturnAllowed', 'b', case['early']), ('requiredIntermediateVariables', '*', case['vrs']),
                   ('nRequiredIntermediateVariables', 'z', len(case['vrs']))]
        names = [p[0] for p in ps]
        for i, (pn, k, x) in enumerate(ps):
            if i:
                r.sep()
            r.key(pn, names)
            if k == '{':
                r.re(rb'\{[^{}]*\}', 'functions')
            elif k == '*':
                if r.t.startswith(b'{', r.p):
                    r.array('u', x)
                else:
                    r.re(rb'[()\w]+', 'address')
            elif x is None:
                r.re(rb'"\(null\)"|\(null\)|NULL|""', 'null')
            else:
                r.value(k, x)
        r.re(rb'(?s)[^{}"]*\)$', 'rest of the arguments')

    def mock(self, case):
        v, kind = case['v'], case['kind']
        mk = imp.mock(v)
        il = imp.ImpLib(mk.path, v, 'BouncingBall', log_calls=True)
        st = {'args': None, 'call': None, 'logger': None}

        def on_call(n, args):
            if n.startswith('Instantiate'):
                st['args'] = (n, [self.copy(v, n, i, x) for i, x in enumerate(args)])
                return None if case['fail'] else COMP
            if n in ('GetVersion', 'GetTypesPlatform'):
                import ctypes as C
                return C.addressof(self.text(b'1'))
            if n == 'FreeInstance':
                return None
            return st['call'].receive(COMP, args) if st['call'] and st['call'].name == n else 0
        mk.on_call = on_call
        a = self.instantiate(case, il, [], st)
        name = {'ME': 'InstantiateModelExchange', 'CS': 'InstantiateCoSimulation', 'SE': 'InstantiateScheduledExecution'}[kind] if v == 3 else 'Instantiate'
        if a is None and not case['fail']:
            raise core.Skip
        try:
            t = self.one(il, 0, name, None if a is None else 0)
            try:
                self.creation(case, t, name)
            except imp.Mismatch as e:
                raise core.Violation('entry for fmi%d%s: %s' % (v, name, e))
            if a is None:
                core.require(il.entries[0][0] != 0, 'a failed instantiation is logged with status OK')
                return {'nontrivial': True, 'classes': ['failed instantiation']}
            for j, x in enumerate(case['calls']):
                c = st['call'] = imp.Call(v, x)
                n = len(il.entries)
                s = a.f[c.name](a.c, *c.args)
                t = self.one(il, n, 'call %d fmi%d%s' % (j, v, c.name), s)
                if s == c.status and c.seen == 1 and not c.errors:
                    try:
                        imp.match(v, c.name, c.logged(), t)
                    except imp.Mismatch as e:
                        raise core.Violation('call %d fmi%d%s: %s' % (j, v, c.name, e))
                st['call'] = None
                c.mem.done()
            for f in ('GetVersion',) + (('GetTypesPlatform',) if v == 2 else ()):
                n = len(il.entries)
                a.f[f](a.c)
                t = self.one(il, n, f, 0)
                core.require(t == b'fmi%d%s()' % (v, f.encode()), '%s is logged as %r', f, t)
            n = len(il.entries)
            a.free()
            t = self.one(il, n, 'FreeInstance', 0)
            core.require(t == b'fmi%dFreeInstance()' % v, 'FreeInstance is logged as %r', t)
            return {'nontrivial': True, 'classes': ['mock', 'mock %d-%s' % (v, kind)] + ['f%d%s' % (v, c[0]) for c in case['calls']]}
        finally:
            if a is not None:
                a.free()

    def real(self, case):
        v, m, kind = case['v'], case['model'], case['kind']
        lib = api.load('plain', v, m)
        il = imp.ImpLib(lib.path, v, m, log_calls=True)
        a = api.Inst(il, kind, **dict(case['opts'], name=case['name'], logging=case['logging']))
        made = [0]

        def wrap(n, fn):
            def f(*args):
                k = len(il.entries)
                made[0] += 1
                s = fn(*args)
                t = self.one(il, k, n, s if isinstance(s, int) else 0)
                core.require(t.startswith(b'fmi%d%s(' % (v, n.encode())) and t.endswith(b')'), '%s is logged as %r', n, t)
                return s
            return f
        a.f = {n: wrap(n, fn) for n, fn in il.f.items()}
        try:
            for op in case['ops']:
                a.do(op)
            return {'nontrivial': made[0] > 0, 'classes': ['real', '%d-%s %s' % (v, m, kind)]}
        finally:
            a.f = il.f
            a.free_all()


PROP = P23()
