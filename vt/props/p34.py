"""P34: the importer releases what it acquires and survives lack of memory."""
import ctypes as C
import re

from .. import api, core, imp, shim
from .p23 import ARRAYS, LONG, near

COMP = 0x7ee0
KINDS3 = {'ME': 'InstantiateModelExchange', 'CS': 'InstantiateCoSimulation', 'SE': 'InstantiateScheduledExecution'}
_shim = []


def get():
    if not _shim:
        _shim.append(shim.Shim(imp.load('importer_wrap').lib, shim.NAMES + ('handles',)))
    return _shim[0]


class Lost(Exception):
    pass


class P34(core.Prop):
    id = 'P34'
    kinds = ('importer_wrap', 'mock')
    counts = {'quick': 30000, 'thorough': 300000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated history of importer instances (created, loaded, instantiated, called, freed, also with failures and repeated '
            'instantiation) on a mock FMU, run without and, if it allocates, with one allocation or one and all later ones failing; non-trivial if an '
            'allocation was made to fail or an instantiation failed; distinct by history and failing allocation')
    technique = 'fault injection at generated allocations of generated importer histories, compared with the same history without fault'
    assumptions = ('allocations are made with the functions of the C library that c/alloc_shim.c replaces', 'valid pointers; an instance is '
                   'instantiated again only after its component was freed or the instantiation failed', 'the log entry of a call during which memory '
                   'was lacking may be incomplete')

    def gen(self, rng, i, tier):
        ops = []
        st = {}         # slot -> [loaded, version, kind] of the instances
        for _ in range(rng.randint(2, 24)):
            s = rng.randrange(rng.choice([1, 2, 3]))
            x = st.get(s)
            q = rng.random()
            if q < 0.08:
                ops.append(['mem', [[rng.choice(['calloc', 'realloc', 'realloc', 'free']), rng.choice([0, 1, 7, 100, 5000]), rng.choice([0, 1, 8])]
                                    for _ in range(rng.randint(1, 5))]])
            elif x is None:
                ops.append(['create', s, rng.choice([0, 4, 4, 4, 4, 4, near(rng)]), rng.random() < 0.85, rng.random() < 0.8])
                st[s] = [0, None]
                if rng.random() < 0.1:
                    ops.append(['load', s, rng.choice(['none', 'text'])])
                v = rng.choice([2, 3, 3])
                if rng.random() < 0.9:
                    ops.append(['load', s, v])
                    st[s][0] = v
            elif q < 0.16 or not x[0]:
                ops.append(['delete', s])
                st.pop(s)
            elif x[1] is None:
                v = x[0]
                k = rng.choice(['ME', 'CS'] if v == 2 else ['ME', 'CS', 'SE'])
                w = v if rng.random() < 0.92 else 5 - v
                fail = rng.random() < 0.2
                ops.append(['inst', s, w, k if w == 3 or k != 'SE' else 'ME', rng.choice([5, 5, 5, near(rng)]), rng.choice([None, 0, 5, near(rng)]),
                            fail])
                if w == v and not fail:
                    x[1] = k
            elif q < 0.24:
                ops.append(['free', s])
                x[1] = None
            else:
                ops.append(['call', s, self.call(rng, x[0], x[1])])
        return {'ops': ops, 'kind': rng.choice(['call', 'call', 'inst', 'create', 'mem']), 'where': rng.random(), 'sticky': rng.random() < 0.3}

    def call(self, rng, v, kind):
        ok = lambda n: v == 3 or n not in (imp.CS2 if kind == 'ME' else imp.ME2)
        k = rng.random()
        if k < 0.35:
            return imp.gen_call(rng, v, rng.choice([n for n in imp.SPEC[v] if ok(n)]))
        if k < 0.7:
            n = rng.choice([x for x in ARRAYS[v] if ok(x)])
            return imp.gen_call(rng, v, n, lens=rng.choice([(rng.randint(30, 140),), (rng.randint(30, 140),), (rng.randint(140, 400),)]), long=10)
        n = rng.choice([x for x in LONG[v] if ok(x)])
        c = imp.gen_call(rng, v, n, lens=(1, 1, 2, 3))
        for p, x in zip(imp.SPEC[v][n], c[1]):
            if p[2] in 'SB' and x:
                j = rng.randrange(len(x))
                m = near(rng)
                x[j] = '%02x' % rng.getrandbits(8) * (m // 2) if p[2] == 'B' else rng.choice('ab%"{') * m
        if 'Binary' in n:
            c[1][2] = [len(x) // 2 for x in c[1][3]]
        return c

    def run(self, case):
        s = get()
        ref, pts, inst = self.history(case, s, None)
        r = {'nontrivial': inst, 'key': core.canon(case['ops']), 'classes': ['failed instantiation'] if inst else []}
        pts = [p for p in pts if case['ops'][p[0]][0] == case['kind']] or pts
        if pts:
            j, k = pts[min(int(case['where'] * len(pts)), len(pts) - 1)]
            self.history(case, s, (j, k, ref))
            r.update(nontrivial=True, key='%s %d %d %d' % (r['key'], j, k, case['sticky']),
                     classes=r['classes'] + [('sticky ' if case['sticky'] else 'once ') + case['ops'][j][0]])
        return r

    def history(self, case, s, fault):
        I = imp.load('importer_wrap')
        s.reset()
        slots, out, pts = {}, [], []
        self.live = None        # what the mock expects
        entries = []
        failed = False
        n0 = s.handles()

        def on_call(n, args):
            x = self.live
            if n.startswith('Instantiate'):
                x['seen'] += 1
                return None if x['fail'] else COMP
            if n == 'FreeInstance':
                x['freed'] = x.get('freed', 0) + 1
                return None
            return x['call'].receive(COMP, args) if x and x.get('call') and x['call'].name == n else 0

        @imp.LOGFN
        def log(p, status, text):
            entries.append((status, text))
        mocks = {v: imp.mock(v) for v in (2, 3)}
        for m in mocks.values():
            m.on_call = on_call

        def delete(i):
            x = slots.pop(i)
            if x['comp']:
                self.live = {'call': None}
                I.f[x['v']]['FreeInstance'](x['p'])
            I.free(x['p'])
        try:
            for j, op in enumerate(case['ops']):
                n, f = s.count(), s.failed()
                if fault and j == fault[0]:
                    s.arm(fault[1], case['sticky'])
                del entries[:]
                try:
                    r = self.op(I, mocks, slots, op, log, delete, s, f)
                except Lost:
                    if not fault:
                        raise core.Skip         # not a valid history
                    r = 'lost'
                lost = s.failed() - f
                if fault and not case['sticky']:
                    s.arm(-1, 0)
                e = [(q, None if t is None else re.sub(rb'(0x)+\(nil\)|(0x)+[0-9a-f]+', b'#', t)) for q, t in entries]
                if fault:
                    what = 'op %d %s' % (j, ' '.join(str(y)[:40] for y in op))
                    core.require(j != fault[0] or lost, '%s does not repeat its allocations', what)
                    core.require(s.wrong() == 0, '%s frees memory or closes libraries it does not own when an allocation fails', what)
                    if lost:
                        core.require(len(e) <= 1, '%s: %d log entries', what, len(e))
                        for q, t in e:
                            core.require(t is not None and t.startswith(b'fmi'), '%s: the log entry is %r when an allocation fails', what, t and t[:60])
                    elif r != 'lost' and op[0] != 'delete':
                        core.require(r == fault[2][j][0], '%s gives %r, without the earlier lack of memory %r', what, r, fault[2][j][0])
                        core.require(e == fault[2][j][1], '%s: the log entry differs after an earlier lack of memory', what)
                else:
                    pts += [(j, k) for k in range(s.count() - n)]
                    core.require(s.wrong() == 0, 'op %d %r frees memory or closes libraries it does not own', j, op[:3])
                    failed |= op[0] == 'inst' and r != 0
                    out.append((r, e))
                core.require(s.overruns() == 0, 'op %d %s writes beyond the end of its memory', j, op[0])
            s.arm(-1, 0)
            for i in list(slots):
                delete(i)
            core.require(s.wrong() == 0, 'memory is freed or a library is closed that is not owned')
            core.require(s.live() == 0, '%d blocks (%d bytes) remain after all instances were freed', s.live(), s.live_bytes())
            core.require(s.stale() == 0, 'freed memory was written to')
            core.require(s.overruns() == 0, 'something is written beyond the end of a block')
            core.require(s.handles() <= n0, '%d libraries remain loaded after all instances were freed', s.handles() - n0)
        finally:
            s.arm(-1, 0)
            for i in list(slots):
                delete(i)
        return out, pts, failed

    def op(self, I, mocks, slots, op, log, delete, s, f):
        name = op[0]
        if name == 'mem':
            return self.mem(I, op[1], s)
        i = op[1]
        if name == 'create':
            if i in slots:
                raise Lost
            text = b'n' * op[2]
            b = C.create_string_buffer(text)
            p = I.create(C.addressof(b), C.cast(api._log3, api.vp) if op[4] else None, C.cast(log, api.vp) if op[3] else None)
            core.require(bool(p) == (s.failed() == f), 'FMICreateInstance returns %s although %s allocation failed', 'an instance' if p else 'null',
                         'an' if p else 'no')
            if not p:
                raise Lost
            slots[i] = {'p': p, 'comp': False, 'loaded': False, 'v': None}
            core.require(I.name_(p) == text, 'the name of the instance is %r', I.name_(p))
            return 0
        if i not in slots:
            raise Lost
        x = slots[i]
        if name == 'load':
            path = {'none': b'/nonexistent/x.so', 'text': b'/proc/self/status'}.get(op[2]) or mocks[op[2]].path.encode()
            if x['loaded']:
                raise Lost
            r = I.load_binary(x['p'], path)
            x['loaded'] = r == 0
            return r
        if name == 'delete':
            delete(i)
            return None
        if name == 'inst':
            v, k, token, res, fail = op[2:]
            token, res = b't' * token, None if res is None else b'r' * res
            l = self.live = {'seen': 0, 'fail': fail}
            g = I.f[v]
            if x['comp'] or not x['loaded']:
                raise Lost
            if v == 2:
                r = g['Instantiate'](x['p'], res, 0 if k == 'ME' else 1, token, 0, 1)
            elif k == 'ME':
                r = g[KINDS3[k]](x['p'], token, res, False, True)
            elif k == 'CS':
                r = g[KINDS3[k]](x['p'], token, res, False, True, False, False, None, 0, None)
            else:
                r = g[KINDS3[k]](x['p'], token, res, False, True, None, None, None, None, None)
            made = l['seen'] - l.get('freed', 0) if not fail else 0
            core.require((r == 0) == (made == 1), 'the instantiation returns %d but the FMU has %d instances', r, made)
            if r == 0:
                x.update(comp=True, v=v)
            if l['seen'] == 0 and s.failed() > f:
                core.require(r > 1, 'the instantiation returns %d for lack of memory', r)
            return r
        if not x['comp']:
            raise Lost
        if name == 'free':
            self.live = {}
            I.f[x['v']]['FreeInstance'](x['p'])
            core.require(self.live.get('freed') == 1, 'FreeInstance of the FMU is called %r times', self.live.get('freed'))
            x['comp'] = False
            return None
        c = imp.Call(x['v'], op[2])
        self.live = {'call': c}
        r = I.f[x['v']][c.name](x['p'], *c.args)
        c.finish()
        res = [r, c.seen, c.errors]
        if s.failed() > f:
            core.require(res == [c.status, 1, []], 'fmi%d%s gives %r when no memory is left for the log', x['v'], c.name, res)
        self.live = None
        c.mem.done()
        return res

    def mem(self, I, script, s):
        p = api.vp()
        a = C.addressof(p)
        data, out = b'', []
        for name, n, size in script:
            f = s.failed()
            if name == 'free':
                I.mfree(a)
                data = b''
                core.require(not p.value, 'FMIFree leaves the pointer')
                continue
            if name == 'calloc':
                I.mfree(a)
                data = b''
                r = I.calloc(a, n, size)
                want = n * size
            else:
                r = I.realloc(a, n)
                want = n
            lost = s.failed() > f
            core.require(r > 1 if lost else r == 0, '%s of %d bytes returns %d although %s', name, want, r, 'the allocation failed' if lost else 'no allocation failed')
            if lost and name == 'calloc':
                core.require(not p.value, 'FMICalloc leaves a pointer when the allocation fails')
                continue
            core.require(lost or bool(p.value) == (want > 0), '%s of %d bytes gives %r', name, want, p.value)
            keep = data if lost else data[:want]
            got = C.string_at(p.value, len(keep)) if p.value else b''
            core.require(got == keep, '%s of %d bytes changes the contents%s', name, want, ' when the allocation fails' if lost else '')
            if not lost and want:
                data = bytes((k * 7 + want) & 255 for k in range(want))
                C.memmove(p.value, data, want)
            elif not lost:
                data = b''
            out.append(r)
        I.mfree(a)
        return out


PROP = P34()
