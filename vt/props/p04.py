"""P04: calls are accepted exactly in the modes the FMI state machine allows."""
from .. import api, core, gen
from ..bad import Bad

ME_ONLY = {'enterCT', 'completed', 'setTime', 'setStates', 'getDer', 'getInd', 'getStates', 'getNom'}
CS_ONLY = {'doStep', 'enterStep', 'outDer', 'status', 'cancel'}
SE_ONLY = {'activate', 'interval', 'getClock'}


def judge(v, model, kind, em, mode, op):
    """True/False: the call is allowed/not allowed in the mode; None: not judged"""
    n = op[0]
    if (kind != 'ME' and n in ME_ONLY) or (kind != 'CS' and n in CS_ONLY) or (kind != 'SE' and n in SE_ONLY):
        return None
    if n in ('enterEvent', 'update') and (kind == 'SE' or (kind == 'CS' and not em)):
        return None
    if n == 'enterStep' and not em:
        return None
    if n in ('dirDer', 'adjDer') and model not in ('VanDerPol', 'Roberts'):
        return None
    if n == 'outDer' and (model != 'BouncingBall' or any(o != 1 for o in op[2])):
        return None
    if n == 'terminate' and mode == 'reconf':
        return None
    if n == 'set':
        if mode == 'term':
            return False
        r = [gen.settable(v, model, kind, q, op[1], mode) for q in op[2]]
        # where the type of the variable is judged by the mode alone
        return True if all(x is True for x in r) else None
    t = gen.ALLOWED3 if v == 3 else gen.ALLOWED2
    if n not in t:
        return None
    return mode in t[n]


class P04(core.Prop):
    id = 'P04'
    counts = {'quick': 500000, 'thorough': 5000000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated sequence of calls with valid arguments, legal and illegal ones mixed; the expected mode is '
            'tracked and every call whose acceptance the state machine determines is judged; non-trivial if at least '
            'three calls were judged; distinct by FMU, options and sequence')
    technique = 'generated call sequences against a model of the FMI state machine (statuses only)'

    def gen(self, rng, i, tier):
        v, m, k = gen.pick_fmu(rng, i)
        o = gen.options(rng, v, m, k)
        w = gen.Walker(rng, v, m, k, o, p_bad=rng.choice([0, 0.05, 0.15, 0.4]), states=rng.random() < 0.5, stop=False,
                       legal_set=1.0)
        b = Bad(w)
        ops = []
        for _ in range(rng.randint(3, 40) if rng.random() < 0.97 else rng.randint(40, 400)):
            u = rng.random()
            if u < w.p_bad:
                ops.append(w.note(self.any_call(rng, w)))
            elif u < 1.3 * w.p_bad:
                ops.append(['err', self.wrong(rng, w, b)])
                w.mode = 'term'
            else:
                ops.append(w.next())
            if w.mode == 'term' and rng.random() < 0.4:
                ops.append(w.note(['reset']))
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'ops': ops}

    def wrong(self, rng, w, b):
        """a call with a wrong argument"""
        if w.kind == 'CS' and w.mode == 'step' and rng.random() < 0.4:
            return rng.choice([['doStep', rng.choice([-777.0, 1e6]), gen.STEP.get(w.model, 1.0)], ['doStep', None, rng.choice([0.0, -1.0])]])
        for _ in range(20):
            r = rng.choice([b.n_values, b.not_settable_n, b.undeclared, b.nulls, b.content] + ([b.states] if w.kind == 'ME' else []))()
            if r:
                return r[0]
        return ['get', b.types[0], [2**31 - 1], 1]

    def any_call(self, rng, w):
        v, k, m = w.v, w.kind, w.model
        c = [['exitInit'], ['terminate'], ['reset'], ['getState', 0], ['serialize', 0, 0], ['setState', 0], ['debug', True, []]]
        c += [['enterInit']] if v == 2 else [['enterInit', 0.0, None]]
        if v == 2:
            c += [['setup', 0.0, None]]
        else:
            c += [['enterConf'], ['exitConf'], ['nStates'], ['nInd']]
        if k == 'ME':
            c += [['enterCT'], ['completed'], ['setTime', w.t], w.g_states(), ['getDer', w.nx], ['getInd', w.nz],
                  ['getStates', w.nx], ['getNom', w.nx], ['enterEvent'], ['update']]
        elif k == 'CS':
            c += [w.g_step(), w.g_outder()]
            if w.event_mode:
                c += [['enterStep'], ['enterEvent'], ['update']]
        else:
            c += [w.g_activate()]
        c += [w.g_get(), w.g_get()]
        if m in ('VanDerPol', 'Roberts'):
            c += [w.g_dirder()]
        return rng.choice(c)

    def run(self, case):
        v, m, k, o = case['v'], case['model'], case['kind'], case['opts']
        em = bool(o.get('event_mode'))
        a = api.Inst(api.load('plain', v, m), k, logging=False, **o)
        mode, dims = 'inst', [3, 3, 3]
        ready = v == 3        # FMI 2.0: fmi2SetupExperiment() called
        slots, blobs = {}, {}
        judged = refused = rec = failed = 0
        hist = []
        try:
            for op in case['ops']:
                n = op[0]
                if n == 'err':
                    # whether the arguments are wrong is judged elsewhere
                    r = a.do(op[1])
                    if r[0] != 3:
                        raise core.Skip
                    hist.append('err ' + op[1][1] if op[1][0] == 'raw' else op[1][0])
                    mode = 'term'
                    failed += 1
                    if m == 'StateSpace':
                        # the values before the wrong one may have been set
                        r = a.do(['get', 'UInt64', [1, 2, 3], 3])
                        core.require(r[0] == 0, 'fmi3GetUInt64 in mode term returned status %r (calls so far: %r)', r[0], hist)
                        dims = list(r[1])
                    continue
                if n == 'setState' and op[1] not in slots or n == 'freeState' and op[1] not in slots \
                        or n == 'serialize' and op[1] not in slots or n == 'deserialize' and op[1] not in blobs:
                    continue
                if n == 'enterInit' and mode == 'inst' and not ready:
                    continue
                if m == 'StateSpace':
                    if n in ('getStates', 'getDer', 'getNom'):
                        op = [n, dims[1]]
                    elif n == 'setStates':
                        op = [n, (op[1] + [0.5] * 5)[:dims[1]]]
                    elif n in ('get', 'set') and op[1] == 'Float64':
                        c = sum(gen.SS_SIZE[q](*dims) for q in op[2])
                        op = op[:3] + [c if n == 'get' else (op[3] + [0.5] * 200)[:c]]
                exp = judge(v, m, k, em, mode, op)
                if exp is None:
                    continue
                r = a.do(op)
                judged += 1
                what = '%r in mode %s returned status %r' % (op, mode, r[0])
                if exp:
                    if n == 'doStep' and r[0] == 2:
                        break
                    core.require(r[0] == 0, '%s, the state machine allows it (calls so far: %r)', what, hist)
                    rec += mode == 'term' and n in ('reset', 'setState')
                    if n == 'getState':
                        slots[op[1]] = (mode, list(dims), a.cp, ready)
                    elif n == 'setState':
                        mode, dims, a.cp, ready = slots[op[1]]
                        dims = list(dims)
                    elif n == 'freeState':
                        del slots[op[1]]
                    elif n == 'serialize':
                        blobs[op[2]] = slots[op[1]]
                    elif n == 'deserialize':
                        slots[op[2]] = blobs[op[1]]
                    elif n == 'set' and m == 'StateSpace' and op[1] == 'UInt64':
                        for q, x in zip(op[2], op[3]):
                            dims[q - 1] = x
                    elif n == 'reset':
                        dims = [3, 3, 3]
                        a.cp = 0.0
                        ready = v == 3
                    elif n == 'setup':
                        ready = True
                    if (n == 'doStep' and v == 3 or n == 'update') and r[1][1]:
                        break       # termination requested
                    mode = gen.after(v, k, em, mode, n)
                else:
                    core.require(r[0] == 3, '%s, the state machine does not allow it (calls so far: %r)', what, hist)
                    refused += 1
                    mode = 'term'
                hist.append(op[0])
            return {'nontrivial': judged >= 3,
                    'classes': ['%d-%s-%s' % (v, m, k)] + (['refused call'] if refused else []) + (['recovered'] if rec else []) + (['wrong argument'] if failed else [])
                    + (['no error'] if not refused else [])}
        finally:
            a.free_all()


PROP = P04()
