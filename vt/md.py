"""Model descriptions, read from the XML files of the working tree."""
import os
import xml.etree.ElementTree as ET

from . import build

_cache = {}
DEFAULT_VAR = {'Float32': 'continuous', 'Float64': 'continuous'}


class Var:
    __slots__ = ('name', 'vr', 'type', 'causality', 'variability', 'initial', 'start', 'dims', 'derivative', 'nominal',
                 'reinit', 'min', 'max', 'interval')


class MD:
    pass


def _parse(v, m):
    path = os.path.join(build.REPO, m, 'FMI%d.xml' % v)
    root = ET.parse(path).getroot()
    d = MD()
    d.version, d.model = v, m
    d.token = root.get('instantiationToken') if v == 3 else root.get('guid')
    d.interfaces = {}
    for tag, k in (('ModelExchange', 'ME'), ('CoSimulation', 'CS'), ('ScheduledExecution', 'SE')):
        e = root.find(tag)
        if e is not None:
            d.interfaces[k] = dict(e.attrib)
    de = root.find('DefaultExperiment')
    d.experiment = dict(de.attrib) if de is not None else {}
    d.vars = []
    mv = root.find('ModelVariables')
    for i, e in enumerate(mv):
        x = Var()
        if v == 2:
            t = e[0]
            x.type = t.tag
            x.start = t.get('start')
            x.derivative = int(t.get('derivative')) if t.get('derivative') else None
            x.nominal, x.min, x.max = t.get('nominal'), t.get('min'), t.get('max')
            x.reinit = t.get('reinit')
            x.dims = []
        else:
            x.type = e.tag
            x.start = e.get('start')
            x.derivative = int(e.get('derivative')) if e.get('derivative') else None
            x.nominal, x.min, x.max = e.get('nominal'), e.get('min'), e.get('max')
            x.reinit = e.get('reinit')
            x.dims = [(int(q.get('valueReference')) if q.get('valueReference') else None, q.get('start'))
                      for q in e.findall('Dimension')]
            st = e.find('Start')
            if st is not None:
                x.start = st.get('value')
        x.name = e.get('name')
        x.vr = int(e.get('valueReference'))
        x.interval = e.get('intervalVariability')
        x.causality = e.get('causality', 'local')
        x.variability = e.get('variability') or (
            'continuous' if x.type in ('Float32', 'Float64', 'Real') else 'discrete')
        x.initial = e.get('initial')
        d.vars.append(x)
    ms = root.find('ModelStructure')
    if v == 3:
        d.derivatives = [int(e.get('valueReference')) for e in ms.findall('ContinuousStateDerivative')]
        d.indicators = [int(e.get('valueReference')) for e in ms.findall('EventIndicator')]
        byvr = {x.vr: x for x in d.vars}
        d.states = [byvr[q].derivative for q in d.derivatives]
        d.n_indicators = len(d.indicators)
        d.deps = {}
        for sec in ('Output', 'ContinuousStateDerivative', 'InitialUnknown', 'EventIndicator'):
            for e in ms.findall(sec):
                dp = e.get('dependencies')
                d.deps[(sec, int(e.get('valueReference')))] = None if dp is None else [int(q) for q in dp.split()]
    else:
        der = ms.find('Derivatives')
        idx = [int(u.get('index')) for u in der] if der is not None else []
        d.derivatives = [d.vars[i - 1].vr for i in idx]
        d.states = [d.vars[d.vars[i - 1].derivative - 1].vr for i in idx]
        d.n_indicators = int(root.get('numberOfEventIndicators', '0'))
        d.indicators = []
        d.deps = {}
    d.byvr = {}
    for x in d.vars:
        d.byvr.setdefault(x.vr, x)
    d.byname = {x.name: x for x in d.vars}
    cats = root.find('LogCategories')
    d.log_categories = [c.get('name') for c in cats] if cats is not None else []
    return d


def get(v, m):
    if (v, m) not in _cache:
        _cache[(v, m)] = _parse(v, m)
    return _cache[(v, m)]


def getter_type(v, t):
    """the type suffix of the getter for a declared type"""
    if v == 2:
        return 'Integer' if t == 'Enumeration' else t
    return 'Int64' if t == 'Enumeration' else t
