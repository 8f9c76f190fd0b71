"""P11: DoStep keeps its time contract."""
from .. import api, core, drive, gen
from .p09 import MODELS, inputs


def tol(a, b):
    return 1e-5 * max(1.0, abs(a), abs(b)) * 1.001


class P11(core.Prop):
    id = 'P11'
    counts = {'quick': 600000, 'thorough': 6000000}
    shrink_lists = ('steps', 'pre')
    hang_s = 20
    rule = ('a case is a sequence of steps with generated sizes, possibly a stop time, possibly one violation of the '
            'contract (wrong communication point, bad size, past the stop time); non-trivial if a step was judged')
    technique = 'generated step sequences against the time contract (invariants over the history)'
    assumptions = ('|start time| <= 1000, wrong communication points differ by at least 1e-3 (relative beyond 1)',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        o = gen.options(rng, v, m, 'CS')
        s = gen.STEP[m]
        st = rng.choice([0.0, 0.0, 0.25, -0.5, 0.9, -3.0, rng.uniform(-2, 0.99)])
        if m not in ('Stair', 'Roberts') and rng.random() < 0.2:
            st = rng.choice([100.0, -100.0, 12.5, 1000.0, -1000.0])
        n = rng.randint(1, 8)
        steps = []
        t = st
        for _ in range(n):
            k = rng.random()
            h = s * (rng.randint(1, 20) if k < 0.3 else rng.uniform(0.01, 1.5) if k < 0.6 else rng.uniform(1, 40) if k < 0.95
                     else rng.uniform(40, 1000) if k < 0.9995 else rng.uniform(1000, 120000))
            if m == 'Roberts' and rng.random() < 0.8:
                h = max(h, 3e-5)
            steps.append(h)
            t += h
        stop = None
        bad = None
        if rng.random() < 0.3:
            stop = t if rng.random() < 0.6 else t + s * rng.uniform(0, 20)
        k = rng.random()
        if k < 0.75:
            d = rng.choice([-1, 1]) * rng.choice([1e-3, 1e-2, 0.1, 1.0, 2.5, 1e3, 1e9, rng.uniform(1e-3, 5)])
            kinds = [['cp', d], ['cp', d], ['cpabs', rng.choice(['7ff8000000000000', '7ff0000000000000', 'fff0000000000000'])],
                     ['size', rng.choice([0.0, -0.0, -s, -1e-9, -1e9, -5e-324])],
                     ['size', rng.choice(['7ff8000000000000', 'fff8000000000000', '7ff0000000000000', 'fff0000000000000',
                                          '7ff0000000000001'])]]
            if stop is not None:
                kinds += [['stop', rng.choice([1e-3, 0.01, 1.0, 50.0, 1e6, 1e300])]] * 3
            bad = rng.choice(kinds)
        pre = inputs(rng, v, m, 'CS', 'inst') if rng.random() < 0.5 else []
        if m == 'Stair' and rng.random() < 0.4:
            # close to the requested termination, communication points on time events
            pre = [['set', 'Int32' if v == 3 else 'Integer', [1], [rng.choice([7, 8, 9])]]]
            if bad is None and rng.random() < 0.7:
                st, steps, stop = rng.choice([0.0, 0.0, -1.0]), [rng.choice([0.5, 1.0, 1.0, 2.0, 0.2]) for _ in range(6)], None
        return {'v': v, 'model': m, 'opts': o, 'start': st, 'stop': stop, 'steps': steps, 'bad': bad, 'pre': pre,
                'at': rng.randint(0, n)}

    def run(self, case):
        v, m, o, st, stop = case['v'], case['model'], case['opts'], case['start'], case['stop']
        a = api.Inst(api.load('plain', v, m), 'CS', logging=False, **o)
        s = gen.STEP[m]
        T = 'Float64' if v == 3 else 'Real'
        judged = 0
        ended = False
        early = False
        try:
            drive.begin(a, v, m, st, stop, None, case['pre'])
            cp = st
            for j, h in enumerate(case['steps'] + [None]):
                if case['bad'] and j == min(case['at'], len(case['steps'])):
                    self.bad(case, a, cp, s)
                    judged += 1
                    break
                if h is None:
                    break
                end = cp + h
                if stop is not None and end > stop:
                    break
                a.cp = cp
                r = a.do(['doStep', cp, h])
                judged += 1
                t = a.do(['get', T, [0]])
                t = t[1][0] if t[0] == 0 else None
                what = 'step from %r by %r' % (cp, h)
                if v == 2:
                    if r[0] == 2:
                        q = a.do(['status', 'Boolean', 3])
                        core.require(q == [0, 1], '%s was discarded but the status inquiry does not report termination: %r', what, q)
                        q = a.do(['status', 'Real', 2])
                        core.require(q[0] == 0 and q[1] <= end + tol(q[1], end) and q[1] > st and (t is None or q[1] == t),
                                     '%s: last successful time %r at internal time %r', what, q, t)
                        ended = True
                        break
                    core.require(r[0] == 0, '%s returned status %d', what, r[0])
                    q = a.do(['status', 'Boolean', 3])
                    core.require(q == [0, 0], '%s succeeded but the status inquiry reports %r as terminated', what, q)
                    q = a.do(['status', 'Real', 2])
                    core.require(q[0] == 0 and (t is None or q[1] == t), '%s: last successful time %r, internal time %r', what, q, t)
                    fin = True
                else:
                    core.require(r[0] == 0, '%s returned status %d', what, r[0])
                    ev, term, er, last = r[1]
                    core.require(not er or o.get('early_return'), '%s returned early although this is not allowed', what)
                    core.require(not ev or o.get('event_mode'), '%s requests event handling although event mode is not used', what)
                    core.require(t is None or last == t, '%s: last successful time %r, internal time %r', what, last, t)
                    core.require(not term or m == 'Stair', '%s: unexpected request to terminate', what)
                    if term:
                        ended = True
                    if t is not None and o.get('early_return') and end - t > s * 1.001 + tol(t, end):
                        core.require(er, '%s ended early at %r without reporting it', what, t)
                    if m == 'Stair' and not o.get('event_mode'):
                        q = a.do(['get', 'Int32', [1]])
                        core.require(q[0] != 0 or term == (q[1][0] >= 10), '%s: terminate is %r at a counter of %r', what, term, q)
                    fin = not er and not term
                if t is not None:
                    core.require(t <= end + tol(t, end), '%s: internal time %r is past the communication point', what, t)
                    core.require(not fin or end - t <= s * 1.001 + tol(t, end),
                                 '%s: internal time %r lags behind the communication point %r', what, t, end)
                    core.require(t >= st - 1e-12, '%s: internal time %r before the start time', what, t)
                if ended:
                    break
                if v == 3:
                    if ev:
                        a.do(['enterEvent'])
                        u = a.do(['update'])
                        if u[0] != 0:
                            raise core.Skip
                        a.do(['enterStep'])
                        if u[1][1]:
                            ended = True
                            break
                    if er:
                        early = True
                        # the next step starts where this one ended
                        end = last
                cp = end
            b = case['bad']
            return {'nontrivial': judged > 0,
                    'classes': ['%d-%s' % (v, m), 'bad ' + b[0] if b and judged else 'all valid'] + sorted(o)
                    + (['terminated'] if ended else []) + (['early return'] if early else []) + (['stop time'] if stop is not None else [])}
        finally:
            a.free()

    def bad(self, case, a, cp, s):
        v = case['v']
        kind, x = case['bad']
        h = max(s, 3e-5)
        stop = case['stop']
        if kind == 'cp':
            c = cp + x * max(1, abs(cp))
            if stop is not None and c + h > stop:
                # keep it inside so that only the communication point is wrong
                h = s
            op = ['doStep', c, h]
        elif kind == 'cpabs':
            op = ['doStep', x, h]
        elif kind == 'size':
            op = ['doStep', cp, x]
        else:
            op = ['doStep', cp, stop + x * max(1.0, abs(stop)) - cp]
        r = a.do(op)
        core.require(r[0] == 3, 'step from %r by %r at communication point %r with stop time %r returned status %d',
                     api.f64(op[1]), api.f64(op[2]), cp, stop, r[0])


PROP = P11()
