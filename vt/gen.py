"""Knowledge about the FMUs used to generate call sequences: variables, value
ranges, internal step sizes, FMI state machine, settability."""
import math
import struct

from . import md
from .build import FMUS, MODELS2, MODELS3

STEP = {'BouncingBall': 1e-3, 'Dahlquist': 0.1, 'Feedthrough': 0.1, 'Resource': 1.0, 'Stair': 0.2,
        'VanDerPol': 1e-2, 'Roberts': 1e-6, 'StateSpace': 1e-3}
NX = {'BouncingBall': 2, 'Dahlquist': 1, 'Feedthrough': 0, 'Resource': 0, 'Stair': 0, 'VanDerPol': 2, 'Roberts': 2,
      'Clocks': 0}
NZ = {'BouncingBall': 1, 'Roberts': 2}
SS_MAX = 5
SS_SIZE = {0: lambda m, n, r: 1, 4: lambda m, n, r: n * n, 5: lambda m, n, r: n * m, 6: lambda m, n, r: r * n,
           7: lambda m, n, r: r * m, 8: lambda m, n, r: n, 9: lambda m, n, r: m, 10: lambda m, n, r: r,
           11: lambda m, n, r: n, 12: lambda m, n, r: n}


def has_event_mode(m):
    return md.get(3, m).interfaces.get('CS', {}).get('hasEventMode') == 'true'


def interfaces(v, m):
    if m == 'Clocks':
        return ['SE']
    return ['ME', 'CS']


# --- values --------------------------------------------------------------------

SPECIAL_F = [0.0, -0.0, 1.0, -1.0, 0.1, 1e-300, 1e300, -1e300, 5e-324, 2.2250738585072014e-308,
             1.7976931348623157e308, 123456789.123456789, 1 / 3]


def any_float(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(SPECIAL_F)
    if k < 0.7:
        return rng.uniform(-100, 100)
    while True:
        x = struct.unpack('<d', rng.getrandbits(64).to_bytes(8, 'little'))[0]
        if x == x and not math.isinf(x):
            return x


def nice_float(rng, lo=-10.0, hi=10.0):
    k = rng.random()
    if k < 0.15:
        return float(rng.randint(math.ceil(lo), math.floor(hi))) if hi - lo >= 1 else lo
    return rng.uniform(lo, hi)


INT_RANGE = {'Int8': (-2**7, 2**7 - 1), 'UInt8': (0, 2**8 - 1), 'Int16': (-2**15, 2**15 - 1), 'UInt16': (0, 2**16 - 1),
             'Int32': (-2**31, 2**31 - 1), 'UInt32': (0, 2**32 - 1), 'Int64': (-2**63, 2**63 - 1),
             'UInt64': (0, 2**64 - 1), 'Integer': (-2**31, 2**31 - 1)}


def any_int(rng, T):
    lo, hi = INT_RANGE[T]
    k = rng.random()
    if k < 0.35:
        return rng.choice([lo, hi, 0, 1, max(lo, -1), hi - 1, lo + 1, hi // 2])
    if k < 0.6:
        return rng.randint(max(lo, -20), min(hi, 20))
    return rng.randint(lo, hi)


def any_string(rng, maxlen=127):
    k = rng.random()
    if k < 0.1:
        return ''
    n = rng.choice([maxlen, maxlen - 1]) if k < 0.25 else rng.randint(1, min(maxlen, 40))
    alpha = 'abcXYZ 019_%sdn\\/<>&"\'' + ('\xe4€' if rng.random() < 0.3 else '')
    s = ''.join(rng.choice(alpha) for _ in range(n))
    while len(s.encode()) > maxlen:
        s = s[:-1]
    return s


def any_binary(rng, maxlen=128):
    k = rng.random()
    if k < 0.1:
        return ''
    n = rng.choice([maxlen, maxlen - 1]) if k < 0.25 else rng.randint(1, min(maxlen, 40))
    if rng.random() < 0.2:
        return bytes(n).hex()
    return bytes(rng.getrandbits(8) for _ in range(n)).hex()


def value(rng, v, model, var, wild=False):
    """a legal value for variable var"""
    T = var.type
    if T == 'Enumeration':
        return rng.choice([1, 2])
    if model == 'Stair' and var.vr == 1:
        return rng.choice([0, 1, 2, 5, 8, 9, -3]) if rng.random() < 0.8 else rng.randint(-2**31, 9)
    if model == 'BouncingBall' and not wild:
        return {1: lambda: rng.choice([1.0, 0.0]) if rng.random() < .1 else rng.uniform(0.01, 2.0),
                3: lambda: rng.uniform(-4, 4),
                5: lambda: rng.uniform(-20, -1),
                6: lambda: rng.uniform(0.5, 1)}.get(var.vr, lambda: nice_float(rng))()
    if model == 'VanDerPol' and not wild:
        return nice_float(rng, -2.5, 2.5)
    if model == 'Dahlquist' and not wild:
        return nice_float(rng, -3, 3)
    if model == 'Roberts' and not wild and T == 'Float64':
        return {2: lambda: rng.uniform(0, 1.2), 4: lambda: rng.uniform(0, 4e-5),
                6: lambda: rng.uniform(0, 0.5)}.get(var.vr, lambda: nice_float(rng))()
    if model == 'Clocks':
        return rng.randint(-1000, 1000)
    if T in ('Float64', 'Real', 'Float32'):
        if model == 'StateSpace' and not wild:
            return nice_float(rng, -3, 3)
        x = any_float(rng)
        if T == 'Float32':
            return struct.unpack('<f', struct.pack('<f', max(-3e38, min(3e38, x))))[0]
        return x
    if T == 'Boolean':
        return rng.random() < 0.5 if v == 3 else rng.randint(0, 1)
    if T == 'String':
        return any_string(rng)
    if T == 'Binary':
        return any_binary(rng)
    return any_int(rng, T)


# --- settability ----------------------------------------------------------------
# modes: inst init conf reconf event ct step clock term

ALL3 = {'inst', 'init', 'conf', 'reconf', 'event', 'ct', 'step', 'clock', 'term'}


def settable(v, model, kind, vr, T, mode):
    """True/False if the property says the set is accepted/refused, None if it says nothing."""
    if mode == 'term':
        base = False
    elif v == 3:
        base = True
        if T not in ('Float32', 'Float64') and mode == 'ct':
            base = False
    else:
        base = mode in ('inst', 'init', 'event', 'step') or (mode == 'ct' and T == 'Real')
    if base is False:
        return False
    early = mode in ('inst', 'init')
    if mode in ('conf', 'reconf'):
        # FMI allows structural parameters only; what the model does with others is its own business
        if (model == 'StateSpace' and vr in (1, 2, 3) and T == 'UInt64') or (model == 'Roberts' and vr == 1 and T == 'Boolean'):
            return base
        r = settable(v, model, kind, vr, T, 'event') if vr is not None else None
        return False if r is False else None
    r = None
    if model == 'BouncingBall' and T in ('Float64', 'Real'):
        if vr in (1, 3):
            r = mode in ('inst', 'init', 'ct', 'event')
        elif vr == 5:
            r = early if kind == 'ME' else True
        elif vr == 6:
            r = (early or mode == 'event') if kind == 'ME' else True
        else:
            r = False
    elif model == 'VanDerPol' and T in ('Float64', 'Real'):
        if vr in (1, 3):
            r = True
        elif vr == 5:
            r = early if kind == 'ME' else True
        else:
            r = False
    elif model == 'Dahlquist' and T in ('Float64', 'Real'):
        r = True if vr == 1 else (early if kind == 'ME' else True) if vr == 3 else False
    elif model == 'Stair' and T in ('Int32', 'Integer'):
        r = early if vr == 1 else False
    elif model == 'Roberts':
        if T == 'Float64':
            r = vr in (2, 4, 6)
        elif T == 'Boolean':
            r = False
        else:
            r = False
    elif model == 'StateSpace':
        if T == 'Float64':
            if vr in (4, 5, 6, 7, 8, 9):
                r = True
            elif vr == 11:
                r = mode in ('ct', 'event')
            else:
                r = False
        else:
            r = False
    elif model == 'Clocks':
        r = vr == 2006 and T == 'Int32'
    elif model == 'Feedthrough':
        d = md.get(v, model)
        x = d.byvr.get(vr)
        if x is None or x.causality not in ('input', 'parameter') or md.getter_type(v, x.type) != T:
            r = False
        elif x.causality == 'parameter' and x.variability == 'fixed':
            r = early if kind == 'ME' else True
        elif (x.variability in ('tunable', 'discrete')) and T in ('Float32', 'Float64', 'Real'):
            r = (early or mode == 'event') if kind == 'ME' else True
        else:
            r = True
    else:
        r = False
    if r is False:
        return False
    return base


# --- accepted calls ---------------------------------------------------------------
G3 = ALL3
ALLOWED3 = {
    'enterInit': {'inst'}, 'exitInit': {'init'}, 'enterEvent': {'ct', 'step'}, 'update': {'event'},
    'terminate': {'ct', 'step', 'event', 'clock', 'reconf'}, 'reset': ALL3, 'get': G3,
    'enterConf': {'inst', 'step', 'event', 'clock'}, 'exitConf': {'conf', 'reconf'},
    'enterCT': {'event'}, 'completed': {'ct'}, 'setTime': {'event', 'ct'}, 'setStates': {'ct'},
    'getDer': {'init', 'event', 'ct', 'term'}, 'getInd': {'init', 'event', 'ct', 'term'},
    'getStates': {'init', 'event', 'ct', 'term'}, 'getNom': {'init', 'event', 'ct', 'term'},
    'enterStep': {'event'}, 'outDer': {'step', 'term'}, 'doStep': {'step'}, 'activate': {'clock'},
    'dirDer': {'init', 'step', 'event', 'ct', 'term'}, 'adjDer': {'init', 'step', 'event', 'ct', 'term'},
    'nStates': ALL3, 'nInd': ALL3, 'getState': ALL3, 'setState': ALL3, 'freeState': ALL3, 'serialize': ALL3,
    'deserialize': ALL3, 'debug': ALL3,
}
G2 = {'init', 'event', 'ct', 'step', 'term'}
S2 = {'inst', 'init', 'event', 'ct', 'step', 'term'}
ALLOWED2 = {
    'setup': {'inst'}, 'enterInit': {'inst'}, 'exitInit': {'init'}, 'enterEvent': {'event', 'ct'},
    'terminate': {'event', 'ct', 'step'}, 'reset': S2, 'get': G2, 'enterCT': {'event'}, 'update': {'event'},
    'completed': {'ct'}, 'setTime': {'event', 'ct'}, 'setStates': {'ct'}, 'getDer': {'event', 'ct', 'term'},
    'getInd': {'init', 'event', 'ct', 'term'}, 'getStates': {'init', 'event', 'ct', 'term'},
    'getNom': {'inst', 'event', 'ct', 'term'}, 'outDer': {'step', 'term'}, 'doStep': {'step'},
    'cancel': set(), 'dirDer': G2, 'getState': S2, 'setState': S2, 'freeState': S2, 'serialize': S2,
    'deserialize': S2, 'debug': S2,
}


def after(v, kind, event_mode, mode, name):
    """mode after a successful call"""
    if name == 'enterInit':
        return 'init'
    if name == 'exitInit':
        if kind == 'SE':
            return 'clock'
        return 'event' if kind == 'ME' or (v == 3 and event_mode) else 'step'
    if name == 'enterEvent':
        return 'event'
    if name == 'enterCT':
        return 'ct'
    if name == 'enterStep':
        return 'step'
    if name == 'terminate':
        return 'term'
    if name == 'reset':
        return 'inst'
    if name == 'enterConf':
        return 'conf' if mode == 'inst' else 'reconf'
    if name == 'exitConf':
        if mode == 'conf':
            return 'inst'
        return {'ME': 'event', 'CS': 'step', 'SE': 'clock'}[kind]
    return mode


# --- walker ------------------------------------------------------------------------

def options(rng, v, model, kind):
    """instantiation options"""
    o = {}
    if v == 3 and kind == 'CS':
        if has_event_mode(model) and rng.random() < 0.5:
            o['event_mode'] = True
        if rng.random() < 0.4:
            o['early_return'] = True
    return o


def pick_fmu(rng, i=None, fmus=FMUS):
    v, m = fmus[i % len(fmus)] if i is not None else rng.choice(fmus)
    return v, m, rng.choice(interfaces(v, m))


class Walker:
    """Generates a call sequence, mostly legal, tracking the expected mode."""

    def __init__(self, rng, v, model, kind, opts=None, p_bad=0.03, wild=0.1, states=True, resets=True, stop=True,
                 start=True, terminate=True, legal_set=None, debug=True, reconf=True):
        self.rng, self.v, self.model, self.kind = rng, v, model, kind
        self.event_mode = (opts or {}).get('event_mode', False)
        self.md = md.get(v, model)
        self.mode = 'inst'
        self.p_bad, self.wild = p_bad, wild
        self.states, self.resets, self.stop, self.start, self.terminate = states, resets, stop, start, terminate
        self.reconf = reconf
        self.debug = debug
        self.legal_set = 1 - p_bad if legal_set is None else legal_set
        self.dims = [3, 3, 3]
        self.slots = set()
        self.t = 0.0
        self.did_setup = False
        self.getters = {}
        for x in self.md.vars:
            if x.type == 'Clock':
                continue
            self.getters.setdefault(md.getter_type(v, x.type), []).append(x)

    def size(self, vr):
        if self.model == 'StateSpace' and vr in SS_SIZE:
            return SS_SIZE[vr](*self.dims)
        return 1

    @property
    def nx(self):
        return self.dims[1] if self.model == 'StateSpace' else NX[self.model]

    @property
    def nz(self):
        return NZ.get(self.model, 0)

    def reads(self):
        """ops reading everything readable"""
        ops = []
        for T, xs in sorted(self.getters.items()):
            vrs = sorted({x.vr for x in xs})
            ops.append(['get', T, vrs, sum(self.size(q) for q in vrs) if T == 'Float64' else len(vrs)])
        return ops

    def g_get(self):
        T = self.rng.choice(sorted(self.getters))
        xs = self.getters[T]
        vrs = [self.rng.choice(xs).vr for _ in range(self.rng.randint(1, 4))]
        n = sum(self.size(q) for q in vrs) if T == 'Float64' else len(vrs)
        return ['get', T, vrs, n]

    def g_set(self):
        rng = self.rng
        cands = []
        for x in self.md.vars:
            if x.type == 'Clock':
                continue
            T = md.getter_type(self.v, x.type)
            s = settable(self.v, self.model, self.kind, x.vr, T, self.mode)
            if s:
                cands.append((T, x))
        if not cands and rng.random() < self.legal_set:
            return self.transition() if self.v == 2 and self.mode == 'inst' else self.g_get()
        if not cands or rng.random() > self.legal_set:
            xs = [x for x in self.md.vars if x.type != 'Clock']
            x = rng.choice(xs)
            cands = [(md.getter_type(self.v, x.type), x)]
        T, x = rng.choice(cands)
        same = [q for t, q in cands if t == T]
        xs = [x] + [rng.choice(same) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        vals = []
        vrs = []
        for q in xs:
            vrs.append(q.vr)
            if self.model == 'StateSpace' and T == 'UInt64':
                d = rng.randint(0, SS_MAX)
                vals.append(d)
                if self.mode in ('conf', 'reconf'):
                    self.dims[q.vr - 1] = d
            else:
                w = rng.random() < self.wild
                vals += [value(rng, self.v, self.model, q, w) for _ in range(self.size(q.vr) if T == 'Float64' else 1)]
        return ['set', T, vrs, vals]

    def g_step(self):
        rng = self.rng
        s = STEP[self.model]
        k = rng.random()
        if k < 0.5:
            h = s * rng.randint(1, 12)
        elif k < 0.8:
            h = s * rng.uniform(0.1, 20)
        else:
            h = s * rng.uniform(20, 600)
        if self.model == 'Roberts':
            h = max(h, 3e-5) if rng.random() < 0.7 else h
        return ['doStep', None, h]

    def g_states(self):
        rng = self.rng
        byvr = self.md.byvr
        if self.model == 'StateSpace':
            return ['setStates', [nice_float(rng, -3, 3) for _ in range(self.nx)]]
        return ['setStates', [value(rng, self.v, self.model, byvr[q], rng.random() < self.wild) for q in self.md.states]]

    def g_dirder(self):
        rng = self.rng
        if self.model not in ('VanDerPol', 'Roberts') and rng.random() > self.p_bad:
            return self.g_get()
        kn = [x.vr for x in self.md.vars if x.type in ('Real', 'Float64')]
        unk = [rng.choice(kn) for _ in range(rng.randint(1, 3))]
        kno = [rng.choice(kn) for _ in range(rng.randint(1, 3))]
        adj = self.v == 3 and rng.random() < 0.4
        seed = [nice_float(rng, -3, 3) for _ in (unk if adj else kno)]
        return ['adjDer' if adj else 'dirDer', unk, kno, seed]

    def g_outder(self):
        rng = self.rng
        outs = [x.vr for x in self.md.vars if x.causality == 'output' and x.type in ('Real', 'Float64')]
        if not outs or self.model != 'BouncingBall':
            return self.g_get()
        return ['outDer', [rng.choice(outs)], [1 if rng.random() > self.p_bad else rng.choice([0, 2])]]

    def g_state_op(self):
        rng = self.rng
        k = rng.random()
        if not self.slots or k < 0.35:
            s = rng.randint(0, 2)
            self.slots.add(s)
            return ['getState', s]
        s = rng.choice(sorted(self.slots))
        if k < 0.65:
            return ['setState', s]
        if k < 0.75:
            self.slots.discard(s)
            return ['freeState', s]
        if k < 0.88:
            return ['serialize', s, s]
        self.slots.add(s)
        return ['deserialize', s, s]

    def transition(self):
        """a call changing the mode"""
        rng, m, v = self.rng, self.mode, self.v
        c = []
        if m == 'inst':
            st = rng.choice([0.0, 0.0, 1.0, -2.5, 0.25]) if self.start else 0.0
            if self.model in ('Stair',):
                st = 0.0
            sp = None if not self.stop or rng.random() < 0.75 else st + STEP.get(self.model, 1) * rng.choice([30, 400, 3000])
            if v == 2:
                if not self.did_setup and rng.random() < 0.8:
                    self.did_setup = True
                    return ['setup', st, sp]
                c = [['enterInit']]
            else:
                c = [['enterInit', st, sp]] * 4
                if self.reconf:
                    c += [['enterConf']]
            self.t = st
        elif m == 'conf' or m == 'reconf':
            c = [['exitConf']]
        elif m == 'init':
            c = [['exitInit']]
        elif m == 'event':
            c = [['enterCT']] * 4 if self.kind == 'ME' else [['enterStep']] * 4
            if v == 3 and self.reconf:
                c += [['enterConf']]
        elif m == 'ct':
            c = [['enterEvent']]
        elif m == 'step':
            if v == 3 and (self.event_mode):
                c = [['enterEvent']] * 3
            if v == 3 and self.reconf:
                c += [['enterConf']]
        elif m == 'clock':
            c = [['enterConf']] if self.reconf else []
        if self.terminate and m in ('event', 'ct', 'step', 'clock') and rng.random() < 0.08:
            c = [['terminate']]
        if self.resets and (m == 'term' or rng.random() < 0.04):
            c = [['reset']]
        if not c:
            return self.work()
        return rng.choice(c)

    def work(self):
        """a call that does not change the mode"""
        rng, m, v = self.rng, self.mode, self.v
        if self.states and rng.random() < 0.12:
            return self.g_state_op()
        c = [self.g_get, self.g_set]
        if m == 'init':
            c += [self.g_dirder, lambda: ['getStates', self.nx], lambda: ['getInd', self.nz]]
        elif m == 'event':
            c += [lambda: ['update'], lambda: ['update']]
            if self.kind == 'ME':
                c += [lambda: ['getStates', self.nx], lambda: ['getDer', self.nx], lambda: ['getInd', self.nz],
                      lambda: ['getNom', self.nx]]
            c += [self.g_dirder]
        elif m == 'ct':
            c += [self.g_settime, self.g_settime, self.g_states, self.g_states, lambda: ['getStates', self.nx],
                  lambda: ['getDer', self.nx], lambda: ['getDer', self.nx], lambda: ['getInd', self.nz],
                  lambda: ['getNom', self.nx], lambda: ['completed'], self.g_dirder]
        elif m == 'step':
            c += [self.g_step] * 4 + [self.g_outder]
            if v == 3 or rng.random() < 0.5:
                c += [self.g_dirder]
            if v == 2:
                c += [lambda: ['status', 'Real', 2], lambda: ['status', 'Boolean', 3]]
        elif m == 'clock':
            c += [self.g_activate] * 4 + [lambda: ['getClock', [1005]], lambda: ['interval', [1003]]]
        elif m == 'inst' and v == 2:
            c = [self.g_set]
        if v == 3 and rng.random() < 0.1:
            c = [lambda: ['nStates'], lambda: ['nInd']]
        if self.debug and rng.random() < 0.03:
            c = [lambda: ['debug', rng.random() < 0.5, rng.choice([[], ['logEvents'], ['logStatusError']])]]
        return rng.choice(c)()

    def g_settime(self):
        self.t += self.rng.choice([0.1, 0.01, 0.5, 1.0, 0.2])
        return ['setTime', self.t]

    def g_activate(self):
        rng = self.rng
        t = rng.choice([0.0, 1.0, 2.0, 3.0, 4.0, 4.5, 5.0, 9.0])
        return ['activate', rng.choice([1001, 1001, 1002, 1003]), t]

    def bad(self):
        """a call that the current mode may not allow"""
        rng = self.rng
        names = ['exitInit', 'enterEvent'] + (['enterCT'] if self.kind == 'ME' else []) + [ 'terminate', 'completed', 'update']
        c = [[n] for n in names] + [['setTime', 1.0], ['getDer', self.nx], ['getStates', self.nx], self.g_set()]
        if self.model != 'Clocks':
            c += [self.g_step()]
        if self.v == 3:
            c += [['exitConf'], ['enterConf']] + ([['enterStep']] if self.kind == 'CS' else [])
        c += [['enterInit']] if self.v == 2 else [['enterInit', 0.0, None]]
        return rng.choice(c)

    def next(self):
        rng = self.rng
        if rng.random() < self.p_bad:
            op = self.bad()
        elif rng.random() < (0.35 if self.mode in ('inst', 'init', 'conf', 'reconf', 'event') else 0.12) or self.mode == 'term':
            op = self.transition()
        else:
            op = self.work()
        return self.note(op)

    def note(self, op):
        allowed = (ALLOWED3 if self.v == 3 else ALLOWED2).get(op[0])
        if op[0] == 'set':
            ok = True
            for q in op[2]:
                if settable(self.v, self.model, self.kind, q, op[1], self.mode) is False:
                    ok = False
            if not ok:
                self.mode = 'term'
        elif op[0] == 'setState':
            pass
        elif allowed is None or self.mode in allowed:
            self.mode = after(self.v, self.kind, self.event_mode, self.mode, op[0])
            if op[0] == 'reset':
                self.dims = [3, 3, 3]
                self.did_setup = False
        else:
            self.mode = 'term'
        return op

    def walk(self, n):
        return [self.next() for _ in range(n)]

    def to_mode(self, target):
        """legal calls leading from the current (inst) mode to the target mode"""
        ops = []
        if target == 'conf':
            return [self.note(['enterConf'])]
        if target == 'inst':
            return ops
        if self.v == 2 and not self.did_setup:
            ops.append(['setup', 0.0, None])
            self.did_setup = True
        ops.append(self.note(['enterInit'] if self.v == 2 else ['enterInit', 0.0, None]))
        if target == 'init':
            return ops
        ops.append(self.note(['exitInit']))
        if target == self.mode:
            return ops
        if target == 'ct':
            ops.append(self.note(['enterCT']))
        elif target == 'step' and self.mode == 'event':
            ops.append(self.note(['enterStep']))
        elif target == 'event' and self.mode == 'step':
            ops.append(self.note(['enterEvent']))
        elif target == 'reconf':
            if self.mode == 'event' and self.kind == 'CS':
                ops.append(self.note(['enterStep']))
            ops.append(self.note(['enterConf']))
        elif target == 'term':
            ops.append(self.note(['terminate']))
        return ops
