"""Helpers shared by the checks that simulate."""
from . import api, core, gen, md


def begin(a, v, m, start, stop=None, dims=None, pre=(), init=(), on_set=None):
    """instantiated -> initialized; raises Skip if anything is refused.  on_set(op) is called for each accepted set."""
    def do(op):
        if a.do(op)[0] != 0:
            raise core.Skip
        if on_set and op[0] == 'set':
            on_set(op)
    if dims is not None:
        for op in (['enterConf'], ['set', 'UInt64', [1, 2, 3], list(dims)], ['exitConf']):
            do(op)
    for op in pre:
        do(op)
    if v == 2:
        do(['setup', start, stop])
    do(['enterInit'] if v == 2 else ['enterInit', start, stop])
    for op in init:
        do(op)
    do(['exitInit'])
    if a.event_mode:
        do(['update'])
        do(['enterStep'])


def to(a, v, p):
    """step to communication point p, handling events and early returns; 'ok' or 'term'; raises Skip"""
    for _ in range(3000):
        if a.cp >= p or p - a.cp <= 1e-12 * max(1, abs(p)):
            return 'ok'
        s = a.do(['doStep', None, p - a.cp])
        if v == 2:
            if s[0] == 2:
                return 'term'
            if s[0] != 0:
                raise core.Skip
            return 'ok'
        if s[0] != 0:
            raise core.Skip
        if s[1][1]:
            return 'term'
        if s[1][0]:
            if not a.event_mode:
                raise core.Skip
            a.do(['enterEvent'])
            u = a.do(['update'])
            if u[0] != 0:
                raise core.Skip
            if u[1][1]:
                return 'term'
            a.do(['enterStep'])
        if not s[1][2]:
            return 'ok'
    raise core.Skip


def reads(v, m, dims=None):
    """ops reading every variable, one per type"""
    by = {}
    for x in md.get(v, m).vars:
        if x.type != 'Clock':
            by.setdefault(md.getter_type(v, x.type), set()).add(x.vr)
    ops = []
    for T in sorted(by):
        vrs = sorted(by[T])
        n = len(vrs)
        if m == 'StateSpace' and T == 'Float64':
            n = sum(gen.SS_SIZE[q](*(dims or (3, 3, 3))) for q in vrs)
        ops.append(['get', T, vrs, n])
    return ops
