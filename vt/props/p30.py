"""P30: the result and log files of the example programs, and the inputs they apply."""
import re

from .. import core, sim
from .p29 import floats, split

require = core.require

LIMITS = {'Int8_input': (-2**7, 2**7 - 1), 'UInt8_input': (0, 2**8 - 1), 'Int16_input': (-2**15, 2**15 - 1), 'UInt16_input': (0, 2**16 - 1),
          'Int32_input': (-2**31, 2**31 - 1), 'UInt32_input': (0, 2**32 - 1), 'Int64_input': (-2**63, 2**63 - 1), 'UInt64_input': (0, 2**64 - 1),
          'Boolean_input': (0, 1), 'Float32_discrete_input': (0, 1), 'Float64_discrete_input': (0, 1)}
NAMES2 = {'UpdateDiscreteStates': 'NewDiscreteStates', 'InstantiateModelExchange': 'Instantiate', 'InstantiateCoSimulation': 'Instantiate'}
NAMES3 = {'GetDerivatives': 'GetContinuousStateDerivatives'}
STATUS = ['OK', 'Warning', 'Discard', 'Error', 'Fatal']
VALUE = ('GetReal', 'GetInteger', 'GetBoolean', 'GetString', 'GetFloat32', 'GetFloat64', 'GetInt8', 'GetUInt8', 'GetInt16', 'GetUInt16', 'GetInt32',
         'GetUInt32', 'GetInt64', 'GetUInt64', 'GetBinary')


def inputs(v, t):
    """the inputs of Feedthrough at time t: name -> accepted values"""
    r = {}
    c = [0.0] if t < 0.5 else [0.0, 2.0] if t == 0.5 else [2.0 - 2.0 * (t - 0.5)] if t < 1.0 else [1.0]
    for n in ('Float64_continuous_input',) + (('Float32_continuous_input',) if v == 3 else ()):
        r[n] = c
    for n, (lo, hi) in LIMITS.items():
        if v == 3 or n in ('Int32_input', 'Boolean_input', 'Float64_discrete_input'):
            r[n] = [lo if t < 1.0 else hi]
    r['Float64_tunable_parameter'] = [0.0 if t < 1.5 else -1.0]
    r['String_input'] = ['"FMI is awesome!"' if t < 1.0 else '"FMI is still awesome!"']
    if v == 3:
        r['Binary_input'] = [b'foo'.hex() if t < 1.0 else b'bar'.hex()]
        r['Enumeration_input'] = [1 if t < 1.0 else 2]
    return r


def continuous(n):
    return 'continuous' in n


def same(got, want):
    if isinstance(want, str):
        return got == want
    try:
        return int(got) == want if isinstance(want, int) and '.' not in got and 'e' not in got else abs(float(got) - want) <= 1e-6 * max(1, abs(want))
    except ValueError:
        return False


class Feedthrough:
    """what the program sets"""

    def __init__(self, p, known=()):
        self.p = p
        self.free = ['Float64_discrete_input'] if p.v == 2 and 'feedthrough-discrete' in known else []
        self.names = {}
        for n in list(inputs(p.v, 0.0)) + ['Float64_fixed_parameter']:
            self.names[p.columns[n]] = n
        self.now = {}

    def set(self, name, args, t):
        w = args.split(' ', 1)
        k = int(w[0])
        if name in ('SetString',):
            q = args.split(' ', 2 + k)
            vrs, vals = [int(x) for x in q[1:1 + k]], [q[2 + k]] if k == 1 else q[2 + k:]
        else:
            vrs, n, vals = split(args)
            require(n == len(vrs), '%s: %d values for %d variables', name, n, len(vrs))
        for vr, x in zip(vrs, vals):
            n = self.names.get(vr)
            if n is None:
                continue
            if n == 'Float64_fixed_parameter':
                require(float(x) == 1.0, '%s is set to %s', n, x)
            else:
                want = inputs(self.p.v, t)[n]
                require(any(same(x, y) for y in want), '%s is set to %s at %r, expected %s', n, x, t, ' or '.join(str(y) for y in want))
            self.now[n] = x

    def complete(self, t, what, select, value=None):
        for n in inputs(self.p.v, t):
            if select(n) and n not in self.free:
                require(n in self.now, '%s is not set before %s at %r', n, what, t)
                if value is not None and t == 0.5 and continuous(n):
                    require(float(self.now[n]) == value, '%s is %s before %s at %r', n, self.now[n], what, t)


def fields(line):
    """of a row, strings in quotes"""
    r, cur, q = [], '', False
    for ch in line:
        if ch == '"':
            q = not q
        if ch == ',' and not q:
            r.append(cur)
            cur = ''
        else:
            cur += ch
    return r + [cur]


class P30(core.Prop):
    id = 'P30'
    kinds = ('examples',)
    counts = {'quick': 60000, 'thorough': 700000}
    shrink_lists = ('upd', 'cis', 'step', 'fails', 'inputs', 'clk', 'vals')
    rule = ('a case is an example program and the answers of an FMU (values of the variables, events, early returns, failures); non-trivial if '
            'at least two rows were written; distinct by program and answers')
    technique = 'example programs run against a scripted FMU, result and log files compared with the recorded calls'
    assumptions = ('numbers in result files are written with at least six significant digits',)

    def gen(self, rng, i, tier):
        n = sim.NAMES[i % len(sim.NAMES)]
        c = sim.script(rng, n)
        c['program'] = n
        return c

    def run(self, case):
        p = sim.info(case['program'])
        r = sim.run(case['program'], case)
        try:
            return self.judge(p, case, r)
        except (IndexError, KeyError, TypeError, ValueError) as e:
            raise core.Violation('unexpected arguments or contents (%r)' % e)

    def judge(self, p, case, r):
        failed = any(q[1] > 2 for q in r.trace)
        self.log(p, r, case)
        if p.out is None:
            return {'nontrivial': len(r.trace) > 4, 'classes': [case['program']]}
        require(r.csv is not None, 'no file %s is written', p.out)
        lines = r.csv.split('\n')
        require(lines[-1] == '', 'the last line of the result file is %r', lines[-1])
        if p.model == 'Feedthrough' and 'feedthrough-row' in self.known:
            lines = [re.sub(r',,(-?[0-9]+)$', r',\1', x.replace('%"', '"')) for x in lines]
        header, rows = lines[0].split(','), [fields(x) for x in lines[1:-1]]
        require(header[0] == 'time', 'the first column is %s', header[0])
        for n in header[1:]:
            require(n in p.columns, 'there is no variable %s', n)
        f = Feedthrough(p, self.known) if p.model == 'Feedthrough' else None
        records = []            # time, values by value reference, complete
        cur = None              # record being read
        seen = None
        t, pending, mode, event = 0.0, None, None, False
        done = False            # a record since the last step, event or intermediate update
        started = False
        for name, st, ok, args in r.trace:
            if name in VALUE:
                vrs = split(args)[0] if name != 'GetString' else [int(x) for x in args.split(' ')[1:1 + int(args.split(' ')[0])]]
                if cur is None or any(x in cur for x in vrs):
                    cur = {}
                    records.append([t, cur, True])
                if st:
                    records[-1][2] = False
                    continue
                if name == 'GetString':
                    vals = [args.split(' ', 2 + len(vrs))[2 + len(vrs)]]
                else:
                    vals = split(args)[2]
                if p.model == 'StateSpace' and vrs == [p.columns['y']]:
                    vals = [vals]
                for vr, x in zip(vrs, vals):
                    cur[vr] = (name, x)
                done = True
                continue
            if name in ('SetTime', 'EnterEventMode', 'DoStep', 'intermediateUpdate') and st < 3 and started:
                self.point(p, name, t, done, event)
            if name.startswith('Set') and name not in ('SetTime', 'SetContinuousStates', 'SetupExperiment'):
                if f:
                    f.set(name, args, t)
                continue
            cur = None
            if st > 2:
                continue
            if f:
                self.inputs(p, f, name, t, event)
            if name == 'SetTime':
                t = float(args)
            elif name == 'DoStep':
                a = floats(args)
                t, done, started = (a[5], False, True)
                if p.prog == 'cs_intermediate_update':
                    done = True
                    t = a[0]
            elif name == 'intermediateUpdate':
                t, done = float(args), False
            elif name == 'ActivateModelPartition':
                t = float(args.split(' ')[1])
            elif name == 'EnterEventMode':
                event, done = True, False
            elif name in ('EnterContinuousTimeMode', 'EnterStepMode'):
                event, started, done = False, True, False
            elif name == 'CompletedIntegratorStep':
                done = False
        if p.v == 2 and p.kind == 'cs' and not failed and any(q[0] == 'GetRealStatus' for q in r.trace):
            require(done, 'no values are recorded at the end of the incomplete step')
        complete = [x for x in records if x[2]]
        require(len(rows) == len(complete) or (failed and len(rows) == len(records)), '%d rows are written, the values were read %d times',
                len(rows), len(complete))
        for row, (t, vals, ok) in zip(rows, records):
            require(len(row) == len(header), 'row %s does not fit the header %s', ','.join(row), lines[0])
            require(same6(row[0], t), 'row %s is written at %r', ','.join(row), t)
            if not ok:
                continue
            for n, x in zip(header[1:], row[1:]):
                want = vals.get(p.columns[n])
                require(want is not None, '%s was not read at %r', n, t)
                kind, want = want
                if isinstance(want, list):
                    got = x.split(' ') if x else []
                    require(len(got) == len(want) and all(same6(a, float(b)) for a, b in zip(got, want)), '%s at %r is written as %r, it is %r', n, t, x,
                            want)
                else:
                    require(agree(x, kind, want), '%s at %r is written as %r, it is %s', n, t, x, want)
        if not failed and p.prog != 'cs_intermediate_update':
            n = sum(1 for q in r.trace if q[0] in ('SetTime', 'DoStep'))
            require(len(rows) >= n, '%d rows for %d steps', len(rows), n)
            if p.kind == 'se':
                require([float(x[0]) for x in rows] == list(range(10)), 'rows at %r', [x[0] for x in rows])
        return {'nontrivial': len(rows) > 1, 'classes': [case['program'] if not p.synth else case['program'].rsplit('-', 1)[0]] +
                (['failed'] if failed else [])}

    def point(self, p, name, t, done, event):
        """a step or an event follows at time t"""
        if name == 'intermediateUpdate' or (name == 'DoStep' and p.prog == 'cs_intermediate_update'):
            require(done, 'no values are recorded at the intermediate update at %r', t)
        else:
            require(done, 'no values are recorded at %r before %s', t, name)

    def inputs(self, p, f, name, t, event):
        if name == 'EnterInitializationMode':
            require('Float64_fixed_parameter' in f.now, 'Float64_fixed_parameter is not set')
            f.now = {}
        elif p.kind == 'me':
            if name == 'ExitInitializationMode':
                f.complete(t, 'the initialization ends', lambda n: True)
                f.now = {}
            elif name == 'CompletedIntegratorStep':
                f.complete(t, 'CompletedIntegratorStep', continuous, 0.0)
                f.now = {}
            elif name == 'UpdateDiscreteStates' and event:
                if t in (0.5, 1.0, 1.5) and not getattr(f, 'last', None) == t:
                    f.last = t
                    f.complete(t, 'the event', lambda n: True, 2.0)
                f.now = {}
        elif name == 'DoStep':
            f.complete(t, 'the step', lambda n: True)
            f.now = {}

    def log(self, p, r, case):
        if case.get('null'):
            return
        want, pending = [], None
        for name, st, ok, args in r.trace:
            if name in ('intermediateUpdate', 'clockUpdate'):
                continue
            q = ('fmi%d%s' % (p.v, (NAMES2 if p.v == 2 else NAMES3).get(name, name)), st)
            if name == 'DoStep' and p.v == 2 and st == 0 and args.split(' ')[3] == '1':
                q = (q[0], 2)
            if name == 'GetIntervalDecimal' or (p.prog == 'cs_intermediate_update' and name.startswith('Get')):
                want.append(q)
                continue
            if pending:
                want.append(pending)
                pending = None
            if name in ('DoStep', 'ActivateModelPartition'):
                pending = q
            elif name != 'FreeInstance':
                want.append(q)
        if pending:
            want.append(pending)
        require(r.log is not None, 'no log file is written')
        got = []
        for line in r.log.split('\n'):
            if line and not line.startswith('intermediateUpdate(') and 'FreeInstance(' not in line:
                n, _, st = line.partition('(')
                st = st.rpartition(' -> ')[2]
                require(st in STATUS, 'line of the log: %s', line[:200])
                got.append((n, STATUS.index(st)))
        for a, b in zip(got, want):
            require(a == b, 'the log says %s -> %s, the call was %s -> %s', a[0], STATUS[a[1]], b[0], STATUS[b[1]])
        require(len(got) == len(want), 'the log has %d lines for %d calls', len(got), len(want))


def same6(text, x):
    try:
        y = float(text)
    except ValueError:
        return False
    return abs(x - y) <= 6e-6 * abs(x) + 1e-300


def agree(text, name, want):
    if name == 'GetString':
        return text == want
    if name == 'GetBinary':
        return text.lower() == want.replace('-', '')
    if name in ('GetReal', 'GetFloat32', 'GetFloat64'):
        return same6(text, float(want))
    return text == want


PROP = P30()
