"""Consistency of a model description, judged on the XML alone."""
import os
import xml.etree.ElementTree as ET

from . import build, md

INITIAL = {
    ('parameter', 'fixed'): 'exact', ('parameter', 'tunable'): 'exact',
    ('structuralParameter', 'fixed'): 'exact', ('structuralParameter', 'tunable'): 'exact',
    ('calculatedParameter', 'fixed'): 'calculated approx', ('calculatedParameter', 'tunable'): 'calculated approx',
    ('input', 'discrete'): 'exact', ('input', 'continuous'): 'exact',
    ('output', 'constant'): 'exact', ('output', 'discrete'): 'calculated exact approx', ('output', 'continuous'): 'calculated exact approx',
    ('local', 'constant'): 'exact', ('local', 'fixed'): 'calculated approx', ('local', 'tunable'): 'calculated approx',
    ('local', 'discrete'): 'calculated exact approx', ('local', 'continuous'): 'calculated exact approx',
    ('independent', 'continuous'): '',
}
FLOATS = ('Float32', 'Float64', 'Real')
KINDS = ('dependent', 'constant', 'fixed', 'tunable', 'discrete')
_cache = {}


def number(s):
    try:
        [float(q) for q in s.split()]
        return True
    except ValueError:
        return False


class Var:
    pass


def load(v, m):
    root = ET.parse(os.path.join(build.REPO, m, 'FMI%d.xml' % v)).getroot()
    xs = []
    for e in root.find('ModelVariables'):
        x = Var()
        t = e[0] if v == 2 else e
        x.e, x.t, x.type = e, t, t.tag
        x.name, x.vr = e.get('name'), e.get('valueReference')
        x.causality = e.get('causality', 'local')
        x.variability = e.get('variability') or ('fixed' if x.causality in ('structuralParameter', 'parameter', 'calculatedParameter') and v == 3
                                                 else 'continuous' if x.type in FLOATS else 'discrete') if v == 3 else e.get('variability', 'continuous')
        x.initial = e.get('initial') or (INITIAL.get((x.causality, x.variability), '').split() or [None])[0]
        s = t.find('Start')
        x.start = s.get('value') if s is not None else t.get('start')
        x.derivative = t.get('derivative')
        xs.append(x)
    return root, xs


def variables(v, m):
    """the first inconsistency of the variables, interfaces and types or None"""
    k = 'variables', v, m
    if k not in _cache:
        try:
            root, xs = load(v, m)
            _cache[k] = _variables(v, m, root, xs)
            if not _cache[k]:
                md.get(v, m)
        except Exception as e:
            _cache[k] = 'the model description cannot be read: %r' % e
    return _cache[k]


def _variables(v, m, root, xs):
    if root.get('fmiVersion', '').split('.')[0] != str(v):
        return 'fmiVersion is %r' % root.get('fmiVersion')
    for k in ('ModelExchange', 'CoSimulation', 'ScheduledExecution'):
        e = root.find(k)
        if e is not None and e.get('modelIdentifier') != m:
            return 'the model identifier of %s is %r' % (k, e.get('modelIdentifier'))
    for what, get in (('name', lambda x: x.name), ('value reference', lambda x: x.vr)):
        seen = set()
        for x in xs:
            if not get(x) or get(x) in seen:
                return 'the %s %r is missing or not unique' % (what, get(x))
            seen.add(get(x))
    ind = [x.name for x in xs if x.causality == 'independent']
    if len(ind) != 1:
        return 'the independent variables are %r' % ind
    byvr = {x.vr: x for x in xs}
    types = {}
    for e in root.iter():
        if e.tag == 'SimpleType':
            types[e.get('name')] = e[0].tag, e[0]
        elif e.tag.endswith('Type') and e.get('name'):
            types[e.get('name')] = e.tag[:-4], e
    units = {e.get('name') for e in root.iter('Unit')}
    for x in xs:
        if x.type == 'Clock':
            if x.causality not in ('input', 'output', 'local'):
                return 'the causality of the clock %s is %s' % (x.name, x.causality)
            if x.e.get('intervalVariability') not in ('constant', 'fixed', 'tunable', 'changing', 'countdown', 'triggered'):
                return 'the interval variability of %s is %r' % (x.name, x.e.get('intervalVariability'))
        else:
            ok = INITIAL.get((x.causality, x.variability))
            if ok is None:
                return '%s has the causality %s and the variability %s' % (x.name, x.causality, x.variability)
            if x.type not in FLOATS and x.variability == 'continuous' and v == 3:
                return '%s of type %s is continuous' % (x.name, x.type)
            if x.e.get('initial') and x.e.get('initial') not in ok.split():
                return '%s (%s, %s) has initial %s' % (x.name, x.causality, x.variability, x.e.get('initial'))
            need = x.initial in ('exact', 'approx')
            if need != (x.start is not None):
                return '%s (%s, %s, initial %s) has the start value %r' % (x.name, x.causality, x.variability, x.initial, x.start)
        ty = types.get(x.t.get('declaredType'))
        if x.t.get('declaredType') is not None and (ty is None or ty[0] != x.type):
            return 'the declared type %r of %s does not fit' % (x.t.get('declaredType'), x.name)
        un = x.t.get('unit')
        if un is not None and un not in units:
            return 'the unit %r of %s is not defined' % (un, x.name)
        if x.type == 'Enumeration' and x.start is not None and x.start not in [q.get('value') for q in ty[1].iter('Item')]:
            return 'the start value %s of %s is not an item of its type' % (x.start, x.name)
        if x.start is not None and x.type not in ('String', 'Binary', 'Boolean'):
            if not number(x.start):
                return 'the start value %r of %s is no number' % (x.start, x.name)
            for q in x.start.split():
                if float(q) < float(x.t.get('min', '-inf')) or float(q) > float(x.t.get('max', 'inf')):
                    return 'the start value %s of %s is outside of its range' % (q, x.name)
        n = 1
        for q in x.e.findall('Dimension'):
            if q.get('valueReference') is not None:
                y = byvr.get(q.get('valueReference'))
                if y is None or y.causality != 'structuralParameter' or y.type != 'UInt64':
                    return 'a dimension of %s is the value reference %s' % (x.name, q.get('valueReference'))
                n *= int(y.start)
            else:
                n *= int(q.get('start'))
        if x.start is not None and x.type in FLOATS and len(x.start.split()) != n:
            return '%s has %d start values and %d elements' % (x.name, len(x.start.split()), n)
        if x.derivative is not None:
            y = byvr.get(x.derivative) if v == 3 else xs[int(x.derivative) - 1] if 0 < int(x.derivative) <= len(xs) else None
            if y is None or y.type != x.type or y.variability != 'continuous' or y is x:
                return '%s is the derivative of %s' % (x.name, x.derivative)
        for q in (x.e.get('clocks') or '').split():
            if q not in byvr or byvr[q].type != 'Clock':
                return 'the clock %s of %s does not exist' % (q, x.name)
    return None


def structure(v, m):
    """the first inconsistency of the model structure or None"""
    if (v, m) not in _cache:
        try:
            root, xs = load(v, m)
            _cache[v, m] = _structure(v, root, xs)
        except Exception as e:
            _cache[v, m] = 'the model structure cannot be read: %r' % e
    return _cache[v, m]


def _structure(v, root, xs):
    ms = root.find('ModelStructure')
    byref = {x.vr: x for x in xs} if v == 3 else {str(i + 1): x for i, x in enumerate(xs)}
    name = {'Outputs': 'Output', 'Derivatives': 'ContinuousStateDerivative', 'InitialUnknowns': 'InitialUnknown'}
    items = [(e.tag, e) for e in ms] if v == 3 else [(name[s.tag], e) for s in ms for e in s]
    have = {}
    for tag, e in items:
        r = e.get('valueReference' if v == 3 else 'index')
        if r not in byref:
            return '%s %s is no variable' % (tag, r)
        if byref[r].name in have.setdefault(tag, []):
            return '%s %s is listed twice' % (tag, byref[r].name)
        have[tag].append(byref[r].name)
        deps, kinds = e.get('dependencies'), e.get('dependenciesKind')
        for q in (deps or '').split():
            if q not in byref:
                return '%s %s depends on %s, which is no variable' % (tag, byref[r].name, q)
        if kinds is not None and (deps is None or len(deps.split()) != len(kinds.split()) or any(q not in KINDS for q in kinds.split())):
            return '%s %s has the dependencies %r of the kinds %r' % (tag, byref[r].name, deps, kinds)
    ders = [x.name for x in xs if x.derivative is not None]
    outs = [x.name for x in xs if x.causality == 'output']
    calc = [x.name for x in xs if x.initial in ('calculated', 'approx') and x.type != 'Clock' and not x.e.get('clocks')]
    states = [(byref[x.derivative] if v == 3 else xs[int(x.derivative) - 1]).name for x in xs if x.derivative is not None]
    init = [n for n in calc if n in outs or n in ders or n in states or byname(xs, n).causality == 'calculatedParameter']
    for tag, want in (('Output', outs), ('ContinuousStateDerivative', ders), ('InitialUnknown', init)):
        if sorted(have.get(tag, [])) != sorted(want):
            return 'the unknowns listed as %s are %s instead of %s' % (tag, have.get(tag, []), want)
    return None


def byname(xs, n):
    return [x for x in xs if x.name == n][0]
