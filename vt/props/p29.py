"""P29: the example programs call an FMU as FMI prescribes and react to its answers."""
from .. import core, gen, sim

require = core.require

OPS = {'EnterInitializationMode': 'enterInit', 'ExitInitializationMode': 'exitInit', 'EnterEventMode': 'enterEvent', 'UpdateDiscreteStates': 'update',
       'EnterContinuousTimeMode': 'enterCT', 'SetTime': 'setTime', 'SetContinuousStates': 'setStates', 'GetContinuousStates': 'getStates',
       'GetNominalsOfContinuousStates': 'getNom', 'GetEventIndicators': 'getInd', 'GetDerivatives': 'getDer', 'CompletedIntegratorStep': 'completed',
       'Terminate': 'terminate', 'EnterConfigurationMode': 'enterConf', 'ExitConfigurationMode': 'exitConf', 'EnterStepMode': 'enterStep',
       'DoStep': 'doStep', 'ActivateModelPartition': 'activate', 'GetDirectionalDerivative': 'dirDer', 'GetAdjointDerivative': 'adjDer',
       'GetNumberOfContinuousStates': 'nStates', 'GetNumberOfEventIndicators': 'nInd', 'SetupExperiment': 'setup'}
FREE = ('GetBooleanStatus', 'GetRealStatus', 'GetIntervalDecimal', 'GetClock', 'intermediateUpdate', 'clockUpdate')
ADVANCE = ('SetTime', 'DoStep', 'CompletedIntegratorStep', 'ActivateModelPartition')
KIND = {'me': ('InstantiateModelExchange', 'ME'), 'cs': ('InstantiateCoSimulation', 'CS'), 'se': ('InstantiateScheduledExecution', 'SE')}


def close(a, b):
    return abs(a - b) <= 1e-12 + 1e-11 * max(abs(a), abs(b))


def split(args):
    """value references and values of a Get or Set call"""
    w = args.split(' ')
    n = int(w[0])
    return [int(x) for x in w[1:1 + n]], int(w[1 + n]), w[2 + n:]


def floats(args):
    return [float(x) for x in args.split()]


class Judge:
    """follows the calls of a program without a failure"""

    def __init__(self, p, s, calls, known=()):
        self.p, self.s = p, s
        self.known = known
        self.calls = calls
        self.kind = KIND[p.kind][1]
        self.mode = None
        self.em = False
        self.t = 0.0                # time of the FMU
        self.x = list(s['x0'])      # states of the FMU
        self.nz = p.nz
        # finding me-states: the programs of the models know of no states
        self.stateless = 'me-states' in known and not p.synth and not any(
            q[0] in ('GetContinuousStates', 'SetContinuousStates', 'GetDerivatives', 'GetEventIndicators') for q in calls)
        if self.stateless:
            self.x, self.nz = [], 0
        self.term = None            # what asked to terminate
        self.setup = None
        self.sets = {}              # values set since the last step
        self.events = 0
        # event mode
        self.updates = None         # number of updates in this event mode
        self.need = False
        self.nominals = False
        self.next = None            # time of the next time event
        # model exchange
        self.steps = 0
        self.completed = True
        self.indicators = None      # last values
        self.fresh = False          # no event mode since then
        self.reasons = {}           # why event mode has to be entered
        self.entered = False        # event mode entered at this time
        self.stepped = True         # states set for this time
        self.read = True            # indicators read for this time
        self.der = None
        # co-simulation
        self.event = False
        self.m, self.r = 3, 3
        self.D = False
        self.n_updates = 0
        # scheduled execution
        self.ticks = []
        self.changed = False
        self.in3 = False
        self.ask = False            # the clock update callback has to ask for the interval

    def check_inputs(self, what, want):
        if not self.p.synth:
            return
        for vr, x in want.items():
            require(self.sets.get(vr) == x, '%s with the input %d set to %r instead of %r', what, vr, self.sets.get(vr), x)

    def run(self):
        for i, (name, st, ok, args) in enumerate(self.calls):
            if name == 'FreeInstance':
                require(ok == 1, 'FreeInstance called without an instance')
                require(i == len(self.calls) - 1, '%s called after FreeInstance', self.calls[i + 1][0] if i + 1 < len(self.calls) else '')
                continue
            if name.startswith('Instantiate'):
                require(i == 0, 'a second instance is created')
                self.instantiate(name, args)
                continue
            require(i > 0, '%s called before an instance exists', name)
            require(ok == 1, '%s called without an instance', name)
            self.legal(name, args)
            require(not self.ask or name == 'GetIntervalDecimal', 'no interval is asked for in the clock update')
            if self.term and name in ADVANCE + ('UpdateDiscreteStates', 'EnterEventMode'):
                require(False, '%s called after %s asked to terminate the simulation', name, self.term)
            if st == 0:
                h = getattr(self, name, None)
                if h:
                    h(args)
                elif name.startswith('Set') and name not in OPS:
                    self.set(name, args)
                if name in OPS:
                    self.mode = gen.after(self.p.v, self.kind, self.em, self.mode, OPS[name])

    def instantiate(self, name, args):
        w = args.split('|')
        require(name == KIND[self.p.kind][0], '%s called', name)
        require(w[0] == self.p.token, 'the instantiation token is %s', w[0])
        if self.p.prog == 'simulate':
            require(w[1].rstrip('/').endswith('/%s/resources' % self.p.model), 'the location of the resources is %s', w[1])
            require(w[1].startswith('/' if self.p.v == 3 else 'file:///'), 'the location of the resources is %s', w[1])
        if self.kind == 'CS' and self.p.v == 3 and len(w) > 6:
            self.em = w[4] == '1'
            if self.p.prog == 'cs_event_mode':
                require(w[4] == '1', 'eventModeUsed is false')
            if self.p.prog in ('cs_early_return', 'cs_event_mode'):
                require(w[5] == '1', 'earlyReturnAllowed is false')
            if self.p.prog == 'cs_intermediate_update':
                require(w[6] == '1', 'no intermediateUpdate is passed')
        self.mode = 'inst'

    def legal(self, name, args):
        if name in FREE:
            return
        p = self.p
        if name in OPS:
            allowed = (gen.ALLOWED3 if p.v == 3 else gen.ALLOWED2)[OPS[name]]
            require(self.mode in allowed, '%s called in mode %s', name, self.mode)
            if name == 'EnterEventMode' and self.kind == 'CS':
                require(self.em, 'EnterEventMode called although eventModeUsed is false')
        elif name.startswith('Get'):
            allowed = (gen.ALLOWED3 if p.v == 3 else gen.ALLOWED2)['get']
            require(self.mode in allowed, '%s called in mode %s', name, self.mode)
            self.variables(name, args)
        elif name.startswith('Set'):
            vrs = self.variables(name, args)
            for vr in vrs:
                if p.synth:
                    ok = self.mode in ('inst', 'init') if vr == 20 else self.mode != 'ct' if vr == 12 else True
                else:
                    ok = gen.settable(p.v, p.model, self.kind, vr, name[3:], self.mode) is not False
                require(ok and self.mode != 'term', '%s of variable %d called in mode %s', name, vr, self.mode)
        else:
            require(False, 'unexpected call of %s', name)

    def variables(self, name, args):
        vrs, n, _ = split(args)
        known = set(self.p.columns.values()) | ({10, 11, 12, 20} if self.p.synth else set())
        require(set(vrs) <= known, '%s called for the variables %r', name, vrs)
        require(n == len(vrs) or self.p.model == 'StateSpace', '%s called with %d values for %d variables', name, n, len(vrs))
        return vrs

    # life cycle
    def SetupExperiment(self, args):
        require(self.setup is None, 'SetupExperiment called twice')
        self.setup = floats(args)

    def EnterInitializationMode(self, args):
        p = self.p
        e = self.setup if p.v == 2 else floats(args)
        require(e is not None, 'SetupExperiment not called')
        require(e[0] == 0, 'a tolerance of 0 is passed')
        require(e[1] == 0, 'the start time is %r', e[1])
        if p.prog not in ('jacobian', 'scs_synchronous'):
            require(e[2] == 1 and e[3] == p.stop, 'the stop time is %r (defined: %d)', e[3], e[2])
        if p.prog == 'cs_reconfiguration':
            require(self.D and 'u' in self.sets, 'the initialization starts before D and u are set')
        if p.synth:
            require(self.sets.get(20) == 1.5, 'EnterInitializationMode called before the start values are set')
        self.sets = {}

    def ExitInitializationMode(self, args):
        if self.p.kind == 'me':
            self.check_inputs('ExitInitializationMode called', {10: 0.0, 11: 0.0, 12: 0.0})
        if self.em:
            self.check_inputs('ExitInitializationMode called', {10: 0.0, 12: 0.0})
        self.updates = 0
        self.need = True

    # events
    def EnterEventMode(self, args):
        self.updates = 0
        self.need = True
        self.nominals = False
        self.fresh = False
        self.sets = {}
        if self.p.kind == 'me':
            require(not self.entered, 'event mode entered twice at time %r', self.t)
            require(self.completed, 'event mode entered before CompletedIntegratorStep')
            self.why()
            require(any(self.reasons.values()), 'event mode entered at time %r although there is no event', self.t)
            self.entered = True
        else:
            require(self.event, 'event mode entered although no event was encountered')
            self.event = False
        self.events += 1

    def UpdateDiscreteStates(self, args):
        require(self.need, 'UpdateDiscreteStates called although no further update is needed')
        u = floats(args)
        if self.updates == 0 and self.events:
            if self.p.kind == 'me' and self.p.synth and self.reasons.get('input'):
                self.check_inputs('UpdateDiscreteStates called', {10: self.t, 11: 1.0, 12: self.t})
            if self.p.kind == 'cs':
                self.check_inputs('UpdateDiscreteStates called', {10: self.t, 11: 1.0, 12: self.t})
        self.updates += 1
        self.n_updates += 1
        self.need = u[0] != 0
        if u[1]:
            self.term = 'UpdateDiscreteStates'
        self.nominals = self.nominals or u[2] != 0
        self.next = u[5] if u[4] else None
        if not self.stateless:
            self.x = u[6:]

    def leave(self, name):
        if self.p.prog != 'jacobian' and not self.term:
            require(self.updates and not self.need, '%s called %s', name, 'before the discrete states are updated' if not self.updates else
                    'although the discrete states need a further update')
        self.updates = None

    # model exchange
    def why(self):
        """the events at this time"""
        r = self.reasons
        r['time'] = self.next is not None and self.t >= self.next
        if self.p.synth:
            r['input'] = self.t in self.s['inputs']
        elif self.p.model == 'Feedthrough':
            r['input'] = self.t in (0.5, 1.0, 1.5)

    def EnterContinuousTimeMode(self, args):
        self.leave('EnterContinuousTimeMode')

    def number(self, args, n, name):
        require(int(args.split(' ')[0]) == n, '%s called with size %s, the FMU has %d', name, args.split(' ')[0], n)

    def GetContinuousStates(self, args):
        self.number(args, len(self.x), 'GetContinuousStates')

    def GetNominalsOfContinuousStates(self, args):
        self.number(args, len(self.x), 'GetNominalsOfContinuousStates')
        self.nominals = False

    def GetEventIndicators(self, args):
        self.number(args, self.nz, 'GetEventIndicators')
        z = floats(args)[1:]
        if self.steps and not self.read:
            self.read = True
            # values from before an event tell nothing
            self.reasons['state'] = self.fresh and any((a <= 0) != (b <= 0) for a, b in zip(self.indicators, z))
        self.indicators = z
        self.fresh = True

    def GetDerivatives(self, args):
        self.number(args, len(self.x), 'GetContinuousStateDerivatives')
        self.der = floats(args)[1:]

    def SetTime(self, args):
        p = self.p
        t = float(args)
        if p.prog == 'jacobian':
            return
        require(self.completed, 'time is set to %r before CompletedIntegratorStep is called for %r', t, self.t)
        require(self.mode == 'ct', 'time is set in mode %s', self.mode)
        require(self.t < p.stop, 'the simulation goes on to %r after the stop time %r', t, p.stop)
        require(close(t, (self.steps + 1) * p.h), 'step %d ends at %r', self.steps + 1, t)
        require(self.indicators is not None or not self.nz, 'the event indicators are not read before the first step')
        if not self.entered:
            self.why()
            for k in self.reasons:
                require(not self.reasons[k], 'the %s event at %r is not handled', k, self.t)
        require(not (self.nominals and self.events and self.x), 'the changed nominal values are not read after the event at %r', self.t)
        if self.x:
            require(self.der is not None, 'no derivatives are read for the step from %r', self.t)
        self.steps += 1
        self.t = t
        self.completed = self.entered = False
        self.stepped, self.read = not self.x, not self.nz
        self.reasons = {}
        self.sets = {}

    def SetContinuousStates(self, args):
        self.number(args, len(self.x), 'SetContinuousStates')
        v = floats(args)[1:]
        if self.p.prog == 'jacobian':
            return
        require(not (self.stepped and self.x), 'the states are set twice in the step to %r', self.t)
        want = [x + self.p.h * d for x, d in zip(self.x, self.der)]
        require(all(close(a, b) for a, b in zip(v, want)), 'states at %r: %r instead of %r (%r plus %r times the derivatives %r)', self.t, v, want,
                self.x, self.p.h, self.der)
        self.x = v
        self.der = None
        self.stepped = True

    def CompletedIntegratorStep(self, args):
        require(not self.completed, 'CompletedIntegratorStep called twice at %r', self.t)
        require(self.stepped, 'CompletedIntegratorStep called at %r before the states are set', self.t)
        require(self.read, 'the event indicators are not read at %r', self.t)
        self.check_inputs('CompletedIntegratorStep called', {10: self.t, 11: 0.0})
        self.completed = True
        u = floats(args)
        self.reasons['step'] = u[0] != 0
        if u[1]:
            self.term = 'CompletedIntegratorStep'

    # co-simulation
    def DoStep(self, args):
        p = self.p
        t, h, ev, term, early, to = floats(args)
        twice = p.prog == 'cs_intermediate_update' and 'intermediate-time' in self.known
        if not (twice and self.steps and close(t, self.t + p.step)):
            require(close(t, self.t) and abs(t - self.t) < 1e-9, 'the step from %r follows one that ended at %r', t, self.t)
        require(close(h, p.step), 'the communication step size is %r', h)
        require(not self.event, 'DoStep called although the event at %r is not handled', self.t)
        require(t + h <= p.stop + 1e-9 + 1e-9 * p.stop or twice and t < p.stop, 'the step from %r by %r exceeds the stop time', t, h)
        if p.prog in ('simulate', 'cs_early_return'):
            want = {10: t, 12: t}
            if p.prog == 'simulate':
                want[11] = 0.0
            self.check_inputs('step from %r made' % t, want)
        if p.prog == 'cs_reconfiguration':
            require(self.D, 'step from %r made before D is set for the new sizes', t)
            require(len(self.sets.get('u', '')) == self.m, 'step from %r made with %r set for the %d inputs', t, self.sets.get('u'), self.m)
            require(all(close(x, t + h + i) for i, x in enumerate(self.sets['u'])), 'step from %r made with the inputs %r', t, self.sets['u'])
        self.sets = {}
        self.t = to
        self.steps += 1
        self.event = bool(ev)
        if term:
            self.term = 'DoStep'

    def EnterStepMode(self, args):
        self.leave('EnterStepMode')

    def set(self, name, args):
        vrs, n, vals = split(args)
        p = self.p
        if p.synth:
            for vr, x in zip(vrs, vals):
                self.sets[vr] = float(x)
        if p.prog == 'cs_reconfiguration':
            if name == 'SetUInt64':
                require(self.mode in ('conf', 'reconf'), 'structural parameters are set in mode %s', self.mode)
                require(n == len(vrs) == len(vals), '%d values for %d structural parameters', n, len(vrs))
                self.D = False
                for vr, x in zip(vrs, vals):
                    if vr == 1:
                        self.m = int(x)
                    if vr == 3:
                        self.r = int(x)
            elif vrs == [p.columns['D']]:
                require(n == self.m * self.r, '%d values set for the %d x %d matrix D', n, self.r, self.m)
                require(self.m == self.r and [float(x) for x in vals] == [float(i % (self.m + 1) == 0) for i in range(n)], 'D is set to %r', vals)
                self.D = True
            elif vrs == [p.columns['u']]:
                require(n == self.m, '%d values set for the %d inputs', n, self.m)
                self.sets['u'] = [float(x) for x in vals]
                if self.mode == 'inst':
                    require(self.sets['u'] == [float(i) for i in range(n)], 'the initial inputs are %r', vals)

    # scheduled execution
    def ActivateModelPartition(self, args):
        vr, t = args.split(' ')
        k, t = int(vr) - 1000, float(t)
        require(k in (1, 2, 3), 'ActivateModelPartition(%s)', vr)
        self.in3 = k == 3
        if k == 1:
            self.end_tick()
            require(t == len(self.ticks), 'partition 1 activated at %r', t)
            self.ticks.append({1})
        else:
            require(self.ticks and t == len(self.ticks) - 1, 'partition %d activated at %r', k, t)
            require(k not in self.ticks[-1], 'partition %d activated twice at %r', k, t)
            self.ticks[-1].add(k)
        if k == 3:
            require(self.changed, 'partition 3 activated at %r although its interval was not changed', t)
            self.changed = False
        self.t = t

    def clockUpdate(self, args):
        self.ask = True

    def GetIntervalDecimal(self, args):
        self.ask = False
        w = args.split(' ')
        require(w[:2] == ['1', '1003'], 'GetIntervalDecimal(%s)', args)
        if not self.in3:
            self.changed = w[2] == '2'

    def end_tick(self):
        if self.ticks:
            k = len(self.ticks) - 1
            require((2 in self.ticks[-1]) == (k % 8 in (0, 1)), 'partition 2 %s at %d', 'activated' if 2 in self.ticks[-1] else 'not activated', k)
            require(not self.changed, 'partition 3 not activated at %d although its interval was changed', k)

    def GetClock(self, args):
        self.end_tick()

    # after the last call
    def finish(self):
        p = self.p
        if p.kind == 'se':
            require(len(self.ticks) == 10, 'partition 1 activated %d times', len(self.ticks))
            return
        if self.term or p.prog == 'jacobian':
            return
        if p.prog == 'cs_reconfiguration':
            require(self.steps == 11, '%d steps made', self.steps)
            return
        if p.prog == 'simulate':
            require(self.t >= p.stop - 1e-9 * p.stop, 'the simulation ended at %r instead of %r', self.t, p.stop)
        else:
            twice = p.prog == 'cs_intermediate_update' and 'intermediate-time' in self.known
            require(self.t + p.step > p.stop - (0 if p.synth and not twice else 1e-9 * p.stop), 'the simulation ended at %r, the next step would end before %r',
                    self.t, p.stop)
        require(self.completed, 'the simulation ended before CompletedIntegratorStep')
        require(not self.event or p.prog != 'cs_event_mode', 'the event at %r is not handled', self.t)


class P29(core.Prop):
    id = 'P29'
    kinds = ('examples',)
    counts = {'quick': 60000, 'thorough': 700000}
    shrink_lists = ('upd', 'cis', 'step', 'fails', 'inputs', 'clk')
    rule = ('a case is an example program and the answers of an FMU (states, derivatives, event indicators, events, requests to terminate, '
            'failures, early returns); non-trivial if an event was handled, a step returned early, a call failed or the simulation was '
            'terminated by the FMU; distinct by program and answers')
    technique = 'example programs run against a scripted FMU that records the calls, a model of the importer as oracle'
    assumptions = ('the programs are built with main renamed and run in a process of the check',
                   'requests to terminate ignored by cs_intermediate_update and cs_reconfiguration are not judged')

    def gen(self, rng, i, tier):
        n = sim.NAMES[i % len(sim.NAMES)]
        c = sim.script(rng, n)
        c['program'] = n
        return c

    def run(self, case):
        p = sim.info(case['program'])
        r = sim.run(case['program'], case)
        require(r.fds == 0, '%d files are left open', r.fds)
        calls = r.trace
        require(calls, 'the FMU is not called')
        failed = [i for i, q in enumerate(calls) if q[1] > 2]
        if failed:
            i = failed[0]
            name, st = calls[i][:2]
            rest = calls[i + 1:]
            if name.startswith('Instantiate'):
                rest = [q for q in rest if not (q[0] == 'FreeInstance' and q[2] == 2)]
                require(not rest, '%s called although there is no instance', rest[0][0] if rest else '')
            elif st == 3:
                require([q[0] for q in rest] == ['FreeInstance'], 'calls after %s returned fmi%dError: %r', name, p.v, [q[0] for q in rest])
                require(rest[0][2] == 1, 'FreeInstance called without the instance')
            else:
                require(not rest, 'calls after %s returned fmi%dFatal: %r', name, p.v, [q[0] for q in rest])
            require(r.rc != 0, 'the program returned 0 although %s failed', name)
            calls = calls[:i + 1]
        else:
            require(r.rc == 0, 'the program returned %d although no call failed', r.rc)
            require([q[0] for q in calls[-2:]] == ['Terminate', 'FreeInstance'], 'the last calls are %r', [q[0] for q in calls[-2:]])
        j = Judge(p, case, calls, self.known)
        try:
            j.run()
            if not failed:
                j.finish()
        except (IndexError, KeyError, TypeError, ValueError) as e:
            raise core.Violation('a call with unexpected arguments (%r)' % e)
        early = any(q[0] == 'DoStep' and q[1] == 0 and q[3].split()[4:5] == ['1'] for q in calls)
        classes = [case['program'] if not p.synth else case['program'].rsplit('-', 1)[0]]
        for k, x in (('event', j.events), ('failure', failed), ('terminated', j.term), ('early', early), ('long', j.steps > 100)):
            if x:
                classes.append(k)
        return {'nontrivial': len(classes) > 1, 'classes': classes}


PROP = P29()
