"""P25: instantiation succeeds exactly for valid arguments."""
import ctypes as C
import os

from .. import api, build, core, gen, md

JUNK = 0x5a


class Env:
    """stands for the environment of one instance"""

    def __init__(self):
        self.log = []
        self.calls = 0

    def on_log(self, name, status, category, message):
        self.log.append((name, status, category, message))

    def on_iupd(self, *a):
        self.calls += 1

    def on_clk(self):
        self.calls += 1


def near(rng, tok, v, m):
    """(class, token that is not the declared one)"""
    k = rng.choice(['null', 'empty', 'case', 'case1', 'prefix', 'suffix', 'change', 'swap', 'space', 'front', 'nobraces', 'other', 'double', 'zero'])
    t = tok
    if k == 'null':
        return k, None
    if k == 'empty':
        return k, ''
    if k == 'case':
        t = tok.upper() if tok.upper() != tok else tok.lower()
    elif k == 'case1':
        ps = [i for i, c in enumerate(tok) if c.isalpha()]
        if ps:
            i = rng.choice(ps)
            t = tok[:i] + tok[i].swapcase() + tok[i + 1:]
    elif k == 'prefix':
        t = tok[:rng.choice([1, len(tok) // 2, len(tok) - 1, rng.randint(1, len(tok) - 1)])]
    elif k == 'suffix':
        t = tok + rng.choice([' ', '}', 'x', tok[-1], '0'])
    elif k == 'change':
        i = rng.choice([0, len(tok) - 1, rng.randrange(len(tok))])
        t = tok[:i] + chr((ord(tok[i]) - 32 + rng.randint(1, 90)) % 95 + 32) + tok[i + 1:]
    elif k == 'swap':
        i = rng.randrange(len(tok) - 1)
        t = tok[:i] + tok[i + 1] + tok[i] + tok[i + 2:]
    elif k == 'space':
        i = rng.randrange(len(tok))
        t = tok[:i] + ' ' + tok[i:]
    elif k == 'front':
        t = rng.choice([' ', '{', '\t', 'x']) + tok
    elif k == 'nobraces':
        t = tok.strip('{}')
    elif k == 'other':
        w, n = rng.choice(build.FMUS)
        t = md.get(w, n).token
    elif k == 'double':
        t = tok + tok
    elif k == 'zero':
        t = tok.replace('-', '')
    return (k, t) if t != tok else ('null', None)


class P25(core.Prop):
    id = 'P25'
    kinds = ('asan',)
    sanitize = True
    counts = {'quick': 800000, 'thorough': 8000000}
    shrink_lists = ()
    rule = ('a case instantiates an FMU with generated name, token, interface, options and callbacks and, if that succeeds, overwrites the '
            'strings it passed and initializes the instance; every case is non-trivial; distinct by all arguments')
    technique = 'generated arguments, oracle: the conditions of the property evaluated on the model description (AddressSanitizer build)'
    assumptions = ('the interfaces and Event Mode support of an FMU are those its model description declares',)

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        tok = md.get(v, m).token
        c = {'v': v, 'model': m, 'iface': rng.choice(gen.interfaces(v, m) * 4 + ['ME', 'CS', 'SE']), 'class': []}
        if v == 2 and (c['iface'] == 'SE' or rng.random() < 0.04):
            c['iface'] = rng.choice([2, 3, -1, 7, 100, 2**31 - 1, -2**31])
        k = rng.random()
        if k < 0.06:
            c['name'] = None
        elif k < 0.14:
            c['name'] = ''
        elif k < 0.3:
            c['name'] = rng.choice([' ', 'a', '%s%n%d', '\t', '\xe4€', 'x' * 5000, '?', '0', '{}', '\n', '.', 'null', '\udcff\udcfe'])
        else:
            c['name'] = gen.any_string(rng, 200) or 'inst'
        c['tclass'], c['token'] = near(rng, tok, v, m) if rng.random() < 0.3 else ('exact', tok)
        k = rng.random()
        d = os.path.join(build.REPO, 'Resource')
        good = ('file://' + d) if v == 2 else d + '/'
        c['resource'] = good if m == 'Resource' and k < 0.7 else None if k < 0.5 else rng.choice(
            ['', '/nonexistent/', 'file:///nonexistent', 'x' * 3000, '%', good, 'file:///' + '%41' * 20])
        c['logger'] = rng.random() < 0.8
        if v == 2 and rng.random() < 0.04:
            c['functions'] = False
        c['logging'] = rng.random() < 0.5
        c['visible'] = rng.random() < 0.3
        c['event_mode'] = rng.random() < 0.35
        c['early_return'] = rng.random() < 0.4
        c['iupd'] = rng.random() < 0.4
        c['clk'] = rng.random() < 0.5
        c['locks'] = rng.randrange(4)
        c['vrs'] = rng.choice([None, [], [1], [1, 3, 7]])
        c['env'] = rng.choice([0, 1, 0x1000, 0xfffffffffffffff0, rng.getrandbits(64)])
        c['extra'] = rng.random() < 0.5     # FMI 2.0: give the optional members of the callback structure
        return c

    def expected(self, c):
        v, m = c['v'], c['model']
        if not c['name'] or c['token'] != md.get(v, m).token:
            return False
        d = md.get(v, m).interfaces
        if c['iface'] not in d:
            return False
        if v == 2:
            return c['logger'] and c.get('functions', True)
        if c['iface'] == 'CS' and c['event_mode'] and d['CS'].get('hasEventMode') != 'true':
            return False
        return True

    def run(self, c):
        v, m = c['v'], c['model']
        lib = api.load('asan', v, m)
        e = Env()
        key = c['env'] or None
        api._envs[key] = e
        ns = len(api.stray)
        mem = api.Mem()
        vp = C.c_void_p
        try:
            def s(x):
                if x is None:
                    return None, 0
                b = x.encode('utf-8', 'surrogateescape') + b'\0'
                return mem.bytes(b), len(b)
            name, token, res = s(c['name']), s(c['token']), s(c['resource'])
            cs = lambda p: C.cast(vp(p[0]), C.c_char_p) if p[0] else None
            lg = C.cast(api._log3 if v == 3 else api._log2, vp) if c['logger'] else None
            cbs = None
            if v == 2:
                z = C.cast(api._lock, vp) if c['extra'] else None
                cbs = (api.Callbacks2 * 1)(api.Callbacks2(lg, z, z, z, c['env'] or None))     # stays valid until the instance is freed
                t = {'ME': 0, 'CS': 1}.get(c['iface'], c['iface'])
                inst = lib.f['Instantiate'](cs(name), t, cs(token), cs(res), cbs if c.get('functions', True) else None, c['visible'], c['logging'])
            elif c['iface'] == 'ME':
                inst = lib.f['InstantiateModelExchange'](cs(name), cs(token), cs(res), c['visible'], c['logging'], c['env'], lg)
            elif c['iface'] == 'CS':
                vrs = None if c['vrs'] is None else mem.arr(C.c_uint32, len(c['vrs']), c['vrs'])
                inst = lib.f['InstantiateCoSimulation'](cs(name), cs(token), cs(res), c['visible'], c['logging'], c['event_mode'], c['early_return'],
                                                        vrs, len(c['vrs'] or []), c['env'], lg, C.cast(api._iupd, vp) if c['iupd'] else None)
            else:
                inst = lib.f['InstantiateScheduledExecution'](cs(name), cs(token), cs(res), c['visible'], c['logging'], c['env'], lg,
                                                              C.cast(api._clkupd, vp) if c['clk'] else None,
                                                              C.cast(api._lock, vp) if c['locks'] & 1 else None,
                                                              C.cast(api._unlock, vp) if c['locks'] & 2 else None)
            # the strings belong to the caller
            for p, n in (name, token, res):
                if p:
                    C.memset(p, JUNK, n)
            mem.done()
            want = self.expected(c)
            core.require(bool(inst) == want, 'instantiation returned %s, expected %s (log %r)', 'an instance' if inst else 'null',
                         'an instance' if want else 'null', e.log)
            core.require(len(api.stray) == ns, 'a callback was invoked with another environment')
            if not inst:
                if c['logger'] and c.get('functions', True):
                    core.require(e.log and e.log[-1][3], 'instantiation failed without logging the reason (log %r)', e.log)
                    core.require(all(x[1] >= 3 for x in e.log), 'failing instantiation logged %r', e.log)
                lib.f['FreeInstance'](None)
            else:
                try:
                    self.use(c, v, m, lib, inst, e)
                    core.require(len(api.stray) == ns, 'a callback was invoked with another environment')
                finally:
                    lib.f['FreeInstance'](inst)
        finally:
            mem.done()
            api._envs.pop(key, None)
        cl = ['%d-%s-%s' % (v, m, c['iface'] if isinstance(c['iface'], str) else 'illegal type'), 'created' if want else 'refused', 'token ' + c['tclass']]
        if v == 2 and not c.get('functions', True):
            cl.append('no callback functions')
        return {'classes': cl}

    def use(self, c, v, m, lib, inst, e):
        """the instance works without the optional callbacks and locations, and knows its own copies of the strings"""
        f = lib.f
        b = lambda: C.c_bool()
        st = []
        if v == 2:
            st += [f['SetupExperiment'](inst, 0, 0.0, 0.0, 0, 0.0), f['EnterInitializationMode'](inst), f['ExitInitializationMode'](inst)]
        else:
            st += [f['EnterInitializationMode'](inst, False, 0.0, 0.0, False, 0.0), f['ExitInitializationMode'](inst)]
        good = m != 'Resource' or c['resource'] == (('file://' if v == 2 else '') + os.path.join(build.REPO, 'Resource') + ('' if v == 2 else '/'))
        if m == 'Resource' and not good:
            core.require(st[-1] >= 2, 'initialization with resource location %r returned %r', c['resource'], st)
        else:
            core.require(all(x == 0 for x in st), 'initialization returned %r (log %r)', st, e.log)
            if m == 'Resource':
                y = (C.c_int32 * 1)()
                r = (C.c_uint32 * 1)(1)
                s = f['GetInteger'](inst, r, 1, y) if v == 2 else f['GetInt32'](inst, r, 1, y, 1)
                core.require(s == 0 and y[0] == self.first(), 'y is %r (status %d) with resource location %r', y[0], s, c['resource'])
            if c['iface'] == 'CS' and v == 3:
                if c['event_mode']:
                    s = f['UpdateDiscreteStates'](inst, *[C.byref(b()) for _ in range(5)], C.byref(C.c_double()))
                    s = s or f['EnterStepMode'](inst)
                    core.require(s == 0, 'Step Mode not reached: status %d', s)
                fl = [b() for _ in range(3)]
                s = f['DoStep'](inst, 0.0, gen.STEP[m] * 3 if m != 'Roberts' else 1e-4, True, *[C.byref(x) for x in fl], C.byref(C.c_double()))
                core.require(s == 0, 'DoStep returned %d', s)
                core.require(bool(e.calls) == c['iupd'], 'the intermediate update callback was called %d times', e.calls)
            elif c['iface'] == 'CS':
                s = f['DoStep'](inst, 0.0, gen.STEP[m] * 3, 1)
                core.require(s == 0, 'DoStep returned %d', s)
            elif c['iface'] == 'SE':
                for vr in (1001, 1002):
                    s = f['ActivateModelPartition'](inst, vr, 0.0)
                    core.require(s == 0, 'ActivateModelPartition returned %d', s)
        # a failing call logs with the copied name
        n = len(e.log)
        bad = (C.c_uint32 * 1)(999999)
        if v == 2:
            s = f['GetReal'](inst, bad, 1, (C.c_double * 1)())
        else:
            s = f['GetFloat64'](inst, bad, 1, (C.c_double * 1)(), 1)
        if c['logger'] and s >= 2 and v == 2:
            want = c['name'].encode('utf-8', 'surrogateescape').decode('utf-8', 'replace')
            for x in e.log[n:]:
                core.require(x[0] == want, 'message logged for instance %r, created as %r', x[0], want)

    def first(self):
        return open(os.path.join(build.REPO, 'Resource', 'y.txt'), 'rb').read(1)[0]


PROP = P25()
