"""P22: the importer wrappers pass calls and results through unchanged."""
import ctypes as C
import os

from .. import api, bad, build, core, gen, imp

MODE_OPS = {'EnterInitializationMode': 'enterInit', 'ExitInitializationMode': 'exitInit', 'EnterEventMode': 'enterEvent',
            'EnterContinuousTimeMode': 'enterCT', 'EnterStepMode': 'enterStep', 'Terminate': 'terminate', 'Reset': 'reset',
            'EnterConfigurationMode': 'enterConf', 'ExitConfigurationMode': 'exitConf'}
OPS_ME = ('update', 'completed', 'enterCT', 'enterEvent', 'setTime', 'setStates', 'getDer', 'getInd', 'getStates', 'getNom')
OPS_CS = ('doStep', 'cancel', 'status', 'inDer', 'outDer')
COMP = 0x7ee0
VERSION = {2: b'2.0', 3: b'3.0-mock'}


class P22(core.Prop):
    id = 'P22'
    kinds = ('plain', 'importer', 'mock')
    counts = {'quick': 120000, 'thorough': 1500000}
    shrink_lists = ('ops', 'calls')
    rule = ('a case makes a generated call sequence on a real FMU directly and through the importer, or on a mock FMU that records what it '
            'receives, or instantiates an FMU that lacks a function; non-trivial if at least 3 calls were made (or a function was missing); '
            'distinct by call sequence')
    technique = 'generated call sequences, metamorphic oracle (through the importer == directly) and a recording mock FMU'
    assumptions = ('messages shorter than 4096 characters', 'valid pointers', 'FMI 2.0: functions of the interface type only')

    # generation
    def gen(self, rng, i, tier):
        k = rng.random()
        if k < 0.45:
            return self.gen_real(rng, i)
        if k < 0.97:
            return self.gen_mock(rng)
        v = rng.choice([2, 3])
        kind = rng.choice(['ME', 'CS'] if v == 2 else ['ME', 'CS', 'SE'])
        return {'part': 'missing', 'v': v, 'kind': kind, 'what': rng.choice(list(api.SIG3 if v == 3 else api.SIG2) + ['file', 'no library', 'version'] * 3),
                'logger': rng.random() < 0.5, 'log_calls': rng.random() < 0.5, 'calls': []}

    def gen_real(self, rng, i):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        kind = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, kind)
        if kind == 'CS' and v == 3 and rng.random() < 0.3:
            o['iupd'] = True
        w = gen.Walker(rng, v, m, kind, o, p_bad=rng.choice([0.0, 0.0, 0.03, 0.1]))
        if m == 'Resource' and rng.random() < 0.3:
            o['resource'] = ('file://' if v == 2 else '') + rng.choice(['/nonexistent/', '/none/%25s%25n/', '/none/a%20b/', '/none/%s%d/'])
        if rng.random() < 0.2:
            o['logger'] = False
        b = bad.Bad(w)
        ops = []
        for _ in range(rng.randint(3, 40)):
            if rng.random() < 0.05 and w.mode != 'term':
                op = b.make()[0]
                if op[0] == 'raw' and (None in op[2:] or any(isinstance(x, list) and x[0] in ('strs', 'bins') and None in x[1] for x in op[2:])):
                    continue            # null pointers are outside of what the importer accepts
                ops.append(op)
                continue
            if v == 3 and rng.random() < 0.02:
                ops.append(['notimpl', rng.choice(api.NOTIMPL)])
                continue
            op = w.next()
            if op[0] == 'activate' and op[1] == 1003:
                continue
            ops.append(op)
        c = {'part': 'real', 'v': v, 'model': m, 'kind': kind, 'opts': o, 'ops': [x for x in ops if self.belongs(v, kind, x)],
             'log_calls': rng.random() < 0.3, 'logging': rng.random() < 0.7, 'name': gen.any_string(rng, 60)}
        if '\0' in c['name']:
            c['name'] = 'x'
        return c

    def belongs(self, v, kind, op):
        if v == 3:
            return True
        other = ('CS' if kind == 'ME' else 'ME')
        if op[0] == 'raw':
            return op[1] not in (imp.CS2 if other == 'CS' else imp.ME2)
        return op[0] not in (OPS_CS if other == 'CS' else OPS_ME)

    def gen_mock(self, rng):
        v = rng.choice([2, 3, 3])
        kind = rng.choice(['ME', 'CS'] if v == 2 else ['ME', 'CS', 'SE'])
        names = [n for n in imp.SPEC[v] if v == 3 or n not in (imp.CS2 if kind == 'ME' else imp.ME2)]
        modes = [n for n in names if n in MODE_OPS]
        calls = []
        for _ in range(rng.randint(3, 30)):
            n = rng.choice(modes) if rng.random() < 0.3 else rng.choice(names)
            c = imp.gen_call(rng, v, n)
            if n in MODE_OPS and rng.random() < 0.7:
                c[2] = rng.choice([0, 0, 1])
            logs = []
            if rng.random() < 0.2:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    logs.append([rng.choice([0, 1, 2, 3, 4]), rng.choice(['logStatusError', 'logEvents', 'x y', '']), self.message(rng)])
            calls.append(c + [logs])
        return {'part': 'mock', 'v': v, 'kind': kind, 'calls': calls, 'name': rng.choice(['inst', '', 'a b', 'x' * 300, 'ä%s']),
                'token': rng.choice(['{abc}', '', '%s', 'y' * 2000]), 'resource': rng.choice([None, '', '/a b/%20/', 'z' * 3000]),
                'visible': rng.randint(0, 1), 'logging': rng.randint(0, 1), 'event_mode': rng.randint(0, 1), 'early': rng.randint(0, 1),
                'vrs': [rng.getrandbits(32) for _ in range(rng.choice([0, 1, 3]))], 'iupd': rng.random() < 0.5,
                'logger': rng.random() < 0.8, 'log_calls': rng.random() < 0.5}

    def message(self, rng):
        n = rng.choice([5, 20, 100, 500, 3000, 4095])
        return ''.join(rng.choice('abc 012.,:\'"{}äö') for _ in range(rng.randint(0, n // 2)))

    # execution
    def run(self, case):
        ns = len(api.stray)
        try:
            r = getattr(self, case['part'])(case)
        finally:
            for p in list(imp._callers):
                imp._callers.pop(p)
        core.require(len(api.stray) == ns, 'a callback was invoked with an unknown environment')
        return r

    def real(self, case):
        v, m, kind = case['v'], case['model'], case['kind']
        lib = api.load('plain', v, m)
        il = imp.ImpLib(lib.path, v, m, log_calls=case['log_calls'])
        k = dict(case['opts'], name=case['name'], logging=case['logging'])
        try:
            a = api.Inst(lib, kind, **k)
        except api.InstantiationFailed:
            if v == 2 and not k.get('logger', True):
                raise core.Skip             # the importer always passes a logger
            a = None
        try:
            b = api.Inst(il, kind, **k)
        except api.InstantiationFailed as e:
            core.require(a is None, 'the instantiation fails through the importer only: %r', il.status)
            raise core.Skip
        core.require(a is not None, 'the instantiation fails directly only')
        mode = 'inst'
        try:
            for j, op in enumerate(case['ops']):
                na, nb = len(a.log), len(b.log)
                x, y = a.do(op), b.do(op)
                core.require(api.same(x, y), 'call %d %r: %r directly, %r through the importer', j, op, x, y)
                la, lb = [r[1:] for r in a.log[na:]], [r[1:] for r in b.log[nb:]]
                core.require(la == lb, 'call %d %r: messages %r directly, %r through the importer', j, op, la, lb)
                core.require(api.same(a.iupds, b.iupds) and a.clks == b.clks, 'call %d %r: the callbacks differ', j, op)
                mode = self.track(v, kind, bool(case['opts'].get('event_mode')), mode, op[0], x[0], il.imp.state(b.c), j)
            return {'nontrivial': len(case['ops']) >= 3, 'classes': ['real', '%d-%s %s' % (v, m, kind)]}
        finally:
            for q in (a, b):
                q.free_all()

    def track(self, v, kind, event_mode, mode, name, status, tracked, j):
        """mode of the FMU after the call, or None if not known; compares with what the importer tracks"""
        if name in MODE_OPS.values():
            if status not in (0, 1):
                return None
            if name in ('enterConf', 'exitConf') and mode is None:
                return None
            if name == 'exitConf' and mode not in ('conf', 'reconf'):
                return None
            if name == 'enterConf' and mode not in ('inst', 'event', 'ct', 'step', 'clock'):
                return None
            mode = gen.after(v, kind, event_mode, mode, name)
        elif name == 'setState':
            return None
        elif status not in (0, 1, 'noslot', 'noblob'):
            return None
        core.require(mode is None or tracked == mode, 'after call %d %s the FMU is in mode %s, but the importer tracks %s', j, name, mode, tracked)
        return mode

    def missing(self, case):
        v, kind, what = case['v'], case['kind'], case['what']
        if what in ('file', 'no library'):
            path = '/nonexistent/x.so' if what == 'file' else os.path.join(build.REPO, 'src', 'FMI.c')
        else:
            mk = imp.mock(5 - v) if what == 'version' else imp.mock(v, what)
            mk.on_call = lambda n, a: COMP if n.startswith('Instantiate') else 0
            path = mk.path
        il = imp.ImpLib(path, v, 'BouncingBall', log_calls=case['log_calls'])
        try:
            a = api.Inst(il, kind, logger=case['logger'])
        except api.InstantiationFailed:
            return {'nontrivial': True, 'classes': ['missing ' + what]}
        a.free()
        if v == 2 and (what in imp.CS2 and kind == 'ME' or what in imp.ME2 and kind == 'CS'):
            return {'nontrivial': False}
        raise core.Violation('a binary that cannot be used (%s) is instantiated' % what)

    def mock(self, case):
        v, kind = case['v'], case['kind']
        mk = imp.mock(v)
        il = imp.ImpLib(mk.path, v, 'BouncingBall', log_calls=case['log_calls'])
        st = {'args': None, 'call': None, 'logger': None, 'env': None, 'msgs': [], 'frees': 0}
        errs = []
        enc = lambda s: None if s is None else s.encode()

        def on_call(n, args):
            try:
                if n.startswith('Instantiate'):
                    st['args'] = (n, [self.copy(v, n, i, x) for i, x in enumerate(args)])
                    if v == 2:
                        cb = api.Callbacks2.from_address(args[4])
                        st['logger'], st['env'] = cb.logger, cb.componentEnvironment
                        if not cb.allocateMemory or not cb.freeMemory:
                            errs.append('no memory callbacks are passed')
                    else:
                        e = {'InstantiateModelExchange': 5, 'InstantiateCoSimulation': 9, 'InstantiateScheduledExecution': 5}[n]
                        st['env'], st['logger'] = args[e], args[e + 1]
                    return COMP
                if n in ('GetVersion', 'GetTypesPlatform'):
                    return C.addressof(self.text(VERSION[v]))
                if n == 'FreeInstance':
                    st['frees'] += 1
                    if args[0] != COMP:
                        errs.append('FreeInstance is called with %r' % args[0])
                    return None
                c = st['call']
                if c is None or n != c.name:
                    errs.append('%s is called for %s' % (n, c and c.name))
                    return 0
                r = c.receive(COMP, args)
                if st['logger']:
                    for s, cat, msg in st['msgs']:
                        if v == 3:
                            api.LOG3(st['logger'])(st['env'], s, cat.encode(), msg.encode())
                        elif len(msg) % 2:
                            C.CFUNCTYPE(None, api.vp, api.cp_, C.c_int, api.cp_, api.cp_, api.cp_, C.c_int)(st['logger'])(
                                st['env'], b'n', s, cat.encode(), b'%s:%d', msg.encode(), len(msg))
                        else:
                            api.LOG2(st['logger'])(st['env'], b'n', s, cat.encode(), msg.encode())
                return r
            except Exception as e:
                errs.append(repr(e))
                return 0
        mk.on_call = on_call
        a = self.instantiate(case, il, errs, st)
        if a is None:
            raise core.Violation('the importer fails to instantiate (%r)' % (il.status,))
        try:
            core.require(not errs, '%s', errs)
            core.require(il.imp.state(a.c) == 'inst', 'after the instantiation the importer tracks %s', il.imp.state(a.c))
            core.require(a.f['GetVersion'](a.c) == VERSION[v], 'the version is not passed on')
            if v == 2:
                core.require(a.f['GetTypesPlatform'](a.c) == VERSION[v], 'the types platform is not passed on')
            mode = 'inst'
            for j, x in enumerate(case['calls']):
                c = st['call'] = imp.Call(v, x[:3])
                st['msgs'] = x[3]
                na = len(a.log)
                s = a.f[c.name](a.c, *c.args)
                c.finish()
                e = errs + c.errors
                core.require(not e, 'call %d fmi%d%s: %s', j, v, c.name, e)
                core.require(c.seen == 1, 'call %d fmi%d%s: the FMU is called %d times', j, v, c.name, c.seen)
                core.require(s == c.status, 'call %d fmi%d%s: status %r instead of %r', j, v, c.name, s, c.status)
                want = []
                if case['logger']:
                    for q, cat, msg in x[3]:
                        want.append((None, q, cat, '%s:%d' % (msg, len(msg)) if v == 2 and len(msg) % 2 else msg))
                core.require(a.log[na:] == want, 'call %d fmi%d%s: messages %r instead of %r', j, v, c.name, a.log[na:], want)
                st['call'] = None
                mode = self.track(v, kind, bool(case['event_mode']), mode, MODE_OPS.get(c.name, c.name), s if c.name in MODE_OPS else 0,
                                  il.imp.state(a.c), j)
                if c.name in ('SetFMUState', 'SetFMUstate'):
                    mode = None
                c.mem.done()
            a.free()
            core.require(st['frees'] == 1 and not errs, 'FreeInstance: called %d times %s', st['frees'], errs)
            return {'nontrivial': len(case['calls']) >= 3, 'classes': ['mock', 'mock %d-%s' % (v, kind)] + ['mock f%d%s' % (v, c[0]) for c in case['calls']]}
        finally:
            a.free()

    def text(self, b):
        self._text = C.create_string_buffer(b)
        return self._text

    def copy(self, v, n, i, x):
        """strings and arrays are only valid during the call"""
        sig = (api.SIG3 if v == 3 else api.SIG2)[n][1][i]
        return C.string_at(x) if sig is api.cp_ and x else x

    def instantiate(self, case, il, errs, st):
        v, kind = case['v'], case['kind']
        k = {'name': case['name'], 'token': case['token'], 'resource': False if case['resource'] is None else case['resource'],
             'logging': bool(case['logging']), 'logger': case['logger']}
        if v == 3 and kind == 'CS':
            k.update(event_mode=bool(case['event_mode']), early_return=bool(case['early']), iupd=case['iupd'])
        vis, vrs = case['visible'], case['vrs']
        arr = (api.u32 * max(len(vrs), 1))(*vrs)
        got = {}
        # api.Inst instantiates invisibly and without required intermediate variables
        if v == 2:
            f = il.f['Instantiate']
            il.f['Instantiate'] = lambda name, kd, guid, res, cbs, visible, logging: f(name, kd, guid, res, cbs, vis, logging)
        elif kind == 'ME':
            f = il.f['InstantiateModelExchange']
            il.f['InstantiateModelExchange'] = lambda n, t, r, visible, *q: f(n, t, r, vis, *q)
        elif kind == 'CS':
            f = il.f['InstantiateCoSimulation']
            il.f['InstantiateCoSimulation'] = lambda n, t, r, visible, l, e, y, p, z, *q: f(n, t, r, vis, l, e, y, arr if vrs else None, len(vrs), *q)
        else:
            f = il.f['InstantiateScheduledExecution']
            il.f['InstantiateScheduledExecution'] = lambda n, t, r, visible, *q: f(n, t, r, vis, *q)
        try:
            a = api.Inst(il, kind, **k)
        except api.InstantiationFailed:
            return None
        fn, args = st['args']
        e = lambda s: None if s is None else s.encode()
        base = [e(case['name']), e(case['token']), e(case['resource'])]
        opt = lambda p, on: (C.cast(p, api.vp).value if on else None)
        if v == 2:
            want = [base[0], 0 if kind == 'ME' else 1, base[1], base[2], '*', vis, int(case['logging'])]
        elif kind == 'ME':
            want = base + [bool(vis), bool(case['logging']), '*', '*']
        elif kind == 'CS':
            want = base + [bool(vis), bool(case['logging']), bool(case['event_mode']), bool(case['early']), '*', len(vrs), '*', '*',
                           opt(api._iupd, case['iupd'])]
            if vrs and not args[7]:
                errs.append('the required intermediate variables are not passed on')
            elif vrs and list((api.u32 * len(vrs)).from_address(args[7])) != vrs:
                errs.append('other required intermediate variables are passed on')
        else:
            want = base + [bool(vis), bool(case['logging']), '*', '*', opt(api._clkupd, True), opt(api._lock, True), opt(api._unlock, True)]
        w = {'ME': 'InstantiateModelExchange', 'CS': 'InstantiateCoSimulation', 'SE': 'InstantiateScheduledExecution'}[kind] if v == 3 else 'Instantiate'
        if fn != w:
            errs.append('%s is called' % fn)
        for i, (x, y) in enumerate(zip(args, want)):
            if y != '*' and x != y:
                errs.append('argument %d of %s is %r instead of %r' % (i, fn, x, y))
        if v == 3 and bool(st['logger']) != case['logger']:
            errs.append('logger: %r' % st['logger'])
        return a


PROP = P22()
