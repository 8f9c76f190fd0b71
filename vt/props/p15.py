"""P15: events are detected, reported and handled in every stepping mode."""
from .. import api, core, drive, gen, ref

FM = [(2, 'BouncingBall'), (2, 'Stair'), (3, 'BouncingBall'), (3, 'Stair')]


class P15(core.Prop):
    id = 'P15'
    counts = {'quick': 90000, 'thorough': 2000000}
    shrink_lists = ('steps', 'ops')
    rule = ('a case simulates the ball or the stair with generated start values and steps in one of the stepping modes '
            '(internal, event mode, early return, both, Model Exchange); non-trivial if at least one event happened; '
            'distinct by values and steps')
    technique = 'generated scenarios against a reference model of the events'
    assumptions = ('a superfluous request for event handling is tolerated in the internal step after a handled event',)

    def gen(self, rng, i, tier):
        v, m = FM[i % 4]
        if v == 3 and rng.random() < 0.08:
            return self.gen_roots(rng)
        if rng.random() < 0.25:
            return self.gen_me(rng, v, m)
        o = {}
        if v == 3:
            o = rng.choice([{}, {'event_mode': True}, {'early_return': True}, {'event_mode': True, 'early_return': True}])
        st = 0.0
        c = {'v': v, 'model': m, 'opts': o, 'kind': 'CS'}
        if m == 'Stair':
            st = rng.choice([0.0, 0.0, 0.1, 0.5, -0.3, -2.0, 0.9, 0.7])
            c['set'] = {1: rng.choice([1, 1, 3, 6, 7, 8, 9, -5])} if rng.random() < 0.7 else {}
            c['steps'] = [round(rng.choice([0.1, 0.2, 0.4, 0.6, 1.0, 1.2, 2.0, 3.4, 0.5, 0.3, 0.7, rng.randint(1, 40) * 0.1]), 6)
                          for _ in range(rng.randint(1, 25))]
        else:
            st = rng.choice([0.0, 0.0, 1.0, -2.5, 0.3])
            c['set'] = {}
            for vr, f in ((1, lambda: rng.uniform(0.001, 1.2)), (3, lambda: rng.uniform(-4, 3)), (5, lambda: rng.uniform(-25, -3)),
                          (6, lambda: rng.choice([0.7, 0.5, 0.9, 1.0, 0.2, 0.0, rng.uniform(0.3, 0.95)]))):
                if rng.random() < 0.7:
                    c['set'][vr] = f()
            c['steps'] = [rng.choice([0.001, 0.002, 0.005, 0.01, 0.05, 0.1, 0.3, 0.0005, 0.0025]) * rng.randint(1, 5)
                          for _ in range(rng.randint(1, 20))]
        c['set'] = {str(k): x for k, x in c['set'].items()}
        c['start'] = st
        c['again'] = rng.random() < 0.5
        return c

    def gen_me(self, rng, v, m):
        ops = []
        t = 0.0
        for _ in range(rng.randint(1, 14)):
            if m == 'Stair':
                t = round(t + rng.choice([0.1, 0.5, 1.0, 0.25, 0.75, 1.0]), 6)
                ops.append(['at', t, rng.randint(1, 3)])
            else:
                t += rng.uniform(0.001, 0.2)
                h = rng.choice([0.0, -1e-12, -0.1, 1e-12, 0.5, rng.uniform(-0.01, 0.01), rng.uniform(-1, 1)])
                ops.append(['state', t, [h, rng.choice([0.0, -1e-3, 1e-3, rng.uniform(-5, 5), -0.05, -0.12])], rng.randint(1, 3)])
        s = {'1': rng.choice([1, 5, 7, 8, 9])} if m == 'Stair' and rng.random() < 0.5 else {}
        if m == 'BouncingBall' and rng.random() < 0.5:
            s = {'6': rng.choice([0.7, 0.0, 1.0, rng.uniform(0.2, 0.95)]), '5': rng.uniform(-20, -1)}
        return {'v': v, 'model': m, 'kind': 'ME', 'opts': {}, 'set': s, 'ops': ops, 'start': 0.0}

    def gen_roots(self, rng):
        k = rng.choice(['y1 down', 'y1 up', 'y3 up', 'none'])
        u = rng.uniform(1, 150)
        if k == 'y1 down':
            y = [1e-4 + u * 4e-12, 0.0]
        elif k == 'y1 up':
            y = [1e-4 - u * 1e-7, 1e-5]
        elif k == 'y3 up':
            y2 = 3e-5
            y = [0.99 - y2 + u * 2.7e-8, y2]
        else:
            y = [rng.uniform(0.1, 0.9), rng.uniform(0, 2e-5)]
        return {'v': 3, 'model': 'Roberts', 'kind': 'CS', 'opts': {'early_return': True, 'event_mode': rng.random() < 0.6},
                'roots': k, 'set': {'2': y[0], '4': y[1]}, 'start': rng.choice([0.0, 0.0, 0.5, -0.25]),
                'steps': [rng.randint(200, 600) * 1e-6, rng.randint(50, 100) * 1e-6]}

    def roots(self, case, a, r, pre):
        st, em = case['start'], case['opts']['event_mode']
        drive.begin(a, 3, 'Roberts', st, None, None, pre)
        cs = ref.CS(r, st)
        cp, nev, lax = st, 0, False
        for h in case['steps']:
            end = cp + h
            hit = None
            z = r.z()
            while hit is None and r.time < end - 2e-5:
                if cs.step():
                    hit = r.time
                q, z = z, r.z()
                if any(abs(x) < 1e-15 for x in z):
                    raise core.Skip         # too close to tell
            what = 'Roberts, %s, step from %r to %r' % ('event mode' if em else 'early return', cp, end)
            x = a.do(['doStep', cp, h])
            core.require(x[0] == 0, '%s: status %d', what, x[0])
            need, term, early, last = x[1]
            core.require(not term, '%s: termination is requested', what)
            if hit is None:
                if early and last > end - 2e-5:
                    break               # an event close to the end
                core.require(not early and not need or lax and last <= cp + 1.5e-6, '%s: an event is reported at %r (%r)', what, last, x)
                break
            if lax and last <= cp + 1.5e-6 and hit > cp + 1.5e-6:
                break
            core.require(early, '%s: no early return for the root at %r, ended at %r', what, hit, last)
            core.require(api.close(last, hit, 1e-9, 1e-9), '%s: returned at %r, the root is crossed at %r', what, last, hit)
            core.require(need == em, '%s: event handling needed is %r', what, need)
            nev += 1
            for op in [['enterEvent'], ['update'], ['enterStep']] if em else []:
                if a.do(op)[0] != 0:
                    raise core.Skip
            cs.prez = r.z()
            lax = em
            cp = last
        return {'nontrivial': nev > 0, 'classes': ['roots ' + case['roots'] + (' event mode' if em else '')]}

    def run(self, case):
        v, m = case['v'], case['model']
        a = api.Inst(api.load('plain', v, m), case['kind'], logging=False, **case['opts'])
        r = ref.make(m)
        try:
            T = ('Int32' if v == 3 else 'Integer') if m == 'Stair' else ('Float64' if v == 3 else 'Real')
            pre = [['set', T, [int(k)], [x]] for k, x in case['set'].items()]
            for op in pre:
                r.set(op[2][0], op[3])
            r.time = case['start']
            if 'roots' in case:
                return self.roots(case, a, r, pre)
            return (self.me if case['kind'] == 'ME' else self.cs)(case, a, r, pre)
        finally:
            a.free()

    def values(self, a, v, m):
        F = 'Float64' if v == 3 else 'Real'
        out = {}
        for vr in (0, 1, 2, 3, 4, 5, 6, 7) if m == 'BouncingBall' else (0,):
            q = a.do(['get', F, [vr]])
            out[vr] = q[1][0] if q[0] == 0 else None
        if m == 'Stair':
            q = a.do(['get', 'Int32' if v == 3 else 'Integer', [1]])
            out[1] = q[1][0] if q[0] == 0 else None
        return out

    def compare(self, a, v, m, r, when):
        for vr, x in self.values(a, v, m).items():
            w = r.get(vr)[0]
            core.require(x == w or api.close(x, w, 1e-9, 1e-9), '%s: variable %d is %r, expected %r', when, vr, x, w)

    def update(self, a, v, m, r, when, term_ok=True):
        """one event update, compared with the reference"""
        ch = r.event()
        u = a.do(['update'])
        core.require(u[0] == 0, '%s: event update returned status %d', when, u[0])
        u = u[1]
        core.require(not u[0] and not u[2], '%s: event update reports %r', when, u)
        core.require(u[1] == r.terminate, '%s: event update reports terminate=%r, expected %r', when, u[1], r.terminate)
        core.require(u[3] == ch, '%s: event update reports changed states=%r, expected %r', when, u[3], ch)
        if m == 'Stair':
            core.require(u[4] and api.close(u[5], r.next_event, 1e-12, 1e-12), '%s: next event time %r, expected %r', when, u[4:], r.next_event)
        else:
            core.require(not u[4], '%s: event time %r announced', when, u[5])
        self.compare(a, v, m, r, when + ', after the event update')

    def me(self, case, a, r, pre):
        v, m = case['v'], case['model']
        drive.begin(a, v, m, 0.0, None, None, pre)
        n = 0
        self.update(a, v, m, r, 'initial')
        if r.terminate:
            return {'nontrivial': True, 'classes': ['ME initial termination']}
        if a.do(['enterCT'])[0] != 0:
            raise core.Skip
        for op in case['ops']:
            t = op[1]
            if m == 'Stair' and t > r.next_event:
                t = r.next_event        # the importer may not step over an announced event
            if t <= r.time:
                continue
            if a.do(['setTime', t])[0] != 0:
                raise core.Skip
            r.time = t
            if op[0] == 'state':
                if a.do(['setStates', op[2]])[0] != 0:
                    raise core.Skip
                r.set_x(op[2])
            if a.do(['enterEvent'])[0] != 0:
                raise core.Skip
            for j in range(op[-1]):
                b = r.get(1)
                self.update(a, v, m, r, 'at %r, update %d' % (t, j + 1))
                n += b != r.get(1)
            if r.terminate:
                break
            if a.do(['enterCT'])[0] != 0:
                raise core.Skip
        return {'nontrivial': n > 0, 'classes': ['%d-%s-ME' % (v, m)] + (['terminated'] if r.terminate else [])}

    def cs(self, case, a, r, pre):
        v, m, st = case['v'], case['model'], case['start']
        em, er = case['opts'].get('event_mode'), case['opts'].get('early_return')
        drive.begin(a, v, m, st, None, None, pre)
        cs = ref.CS(r, st)
        if em:
            r.event()
        s = gen.STEP[m]
        nev = 0
        lax = -10        # internal step after which a superfluous event report is tolerated
        k_end = 0.0
        cp = st
        cls = 'internal' if not (em or er) else '+'.join(sorted(case['opts']))
        ended = False
        for h in case['steps']:
            end = cp + h
            # keep clear of the FMU's time tolerance
            f = (end - st) / s
            if abs(f - round(f)) > 1e-3 and abs(f - round(f)) < 0.05:
                continue
            guard = 0
            while end - cp > 1e-9:
                guard += 1
                if guard > 3000:
                    raise core.Skip
                x = a.do(['doStep', cp, end - cp])
                # reference
                pend = False
                term_at = None
                while True:
                    nt = r.time + s
                    if nt > end and not ref.is_close(nt, end):
                        break
                    if pend:
                        # event mode without early return: handled before the next internal step
                        cs.handle()
                        nev += 1
                        lax = cs.n
                        pend = False
                        if r.terminate and term_at is None:
                            term_at = r.time
                    if term_at is not None and em:
                        cs.step()      # reported at the end of the following internal step
                        break
                    ev = cs.step()
                    if ev:
                        if em:
                            pend = True
                        else:
                            cs.handle()
                            nev += 1
                            if r.terminate:
                                term_at = r.time
                        if er:
                            break
                    if r.terminate:
                        term_at = r.time
                        break
                    if er and em and lax >= 0 and cs.n == lax + 1 and v == 3 and x[0] == 0 and x[1][2] \
                            and api.close(x[1][3], r.time, 1e-9, 1e-9):
                        break           # superfluous early return
                when = '%s FMI %d, %s, step from %r to %r' % (m, v, cls, cp, end)
                if v == 2:
                    if term_at is not None:
                        core.require(x[0] == 2, '%s: status %d although the simulation has to be terminated at %r', when, x[0], term_at)
                        ended = True
                        break
                    core.require(x[0] == 0, '%s: status %d', when, x[0])
                    self.compare(a, v, m, r, when)
                    cp = end
                    break
                core.require(x[0] == 0, '%s: status %d', when, x[0])
                need, term, early, last = x[1]
                if term_at is not None:
                    core.require(term, '%s: termination is not requested although the limit is reached at %r', when, term_at)
                    core.require(not er or early or end - last <= s * 1.01 + 1e-9, '%s: returned at %r without reporting an early return', when, last)
                    if not em:
                        self.compare(a, v, m, r, when)
                    ended = True
                    break
                core.require(not term, '%s: termination is requested', when)
                if pend:
                    core.require(need, '%s: event at %r is not reported', when, r.time)
                elif need:
                    core.require(em and cs.n <= lax + 1, '%s: event handling is requested at %r without an event', when, r.time)
                core.require(api.close(last, r.time, 1e-9, 1e-9), '%s: ends at %r, expected %r', when, last, r.time)
                if er:
                    # an early return must be flagged when the communication point was not reached
                    if end - last > s * 1.01 + 1e-9:
                        core.require(early, '%s: returned at %r without reporting an early return', when, last)
                self.compare(a, v, m, r, when)
                if need:
                    if a.do(['enterEvent'])[0] != 0:
                        raise core.Skip
                    nev += pend
                    lax = cs.n
                    self.update(a, v, m, r, when)
                    cs.prez = r.z()
                    if r.terminate:
                        ended = True
                        break
                    if case['again']:
                        self.update(a, v, m, r, when + ', repeated')
                        cs.prez = r.z()
                    if a.do(['enterStep'])[0] != 0:
                        raise core.Skip
                cp = last if early else end
                if not early:
                    break
            if ended:
                break
        return {'nontrivial': nev > 0, 'classes': ['%d-%s %s' % (v, m, cls)] + (['terminated'] if ended else [])
                + (['events: %s' % ('1' if nev == 1 else '2-5' if nev < 6 else '>5')] if nev else ['no event'])}


PROP = P15()
