"""P19: messages are logged for every error, only in enabled categories."""
import os
import re

from .. import api, build, core, gen, md
from ..bad import Bad

SPEC = re.compile(r'%[-+ #0]*[0-9.*]*(hh|h|ll|l|z|j|t)?[diouxXeEfgGcspn]')


def has_percent(op):
    if isinstance(op, str):
        return '%' in op
    return isinstance(op, list) and any(has_percent(x) for x in op)


CONV = re.compile(rb'%[-+ #0]*[0-9.*]*(?:hh|h|ll|l|z|j|t)?[diouxXeEfgGcspn%]')


class Texts:
    """recognizes messages whose end is missing, by the format strings contained in the binary"""

    def __init__(self, path):
        data = open(path, 'rb').read()
        pats, self.cut = [], []
        for s in set(re.findall(rb'[\x20-\x7e\n\t]{6,}(?=\0)', data)):
            lits = CONV.split(s)
            if len(lits[0]) < 3 and sum(map(len, lits)) < 12:
                continue
            body = b'.*'.join(re.escape(q) for q in lits[:-1]) + (b'.*' if len(lits) > 1 else b'')
            pats.append(body + re.escape(lits[-1]))
            if lits[-1] and sum(map(len, lits)) >= 12:
                # all but the last one to three characters
                self.cut.append(re.compile(body + b'(?:' + b'|'.join(re.escape(lits[-1][:-n]) for n in (1, 2, 3) if n <= len(lits[-1])) + b')', re.S))
        self.full = re.compile(b'|'.join(sorted(pats)), re.S)
        self.seen = {}

    def incomplete(self, msg):
        r = self.seen.get(msg)
        if r is None:
            b = msg.encode('utf-8', 'surrogateescape')
            r = not self.full.fullmatch(b) and any(p.fullmatch(b) for p in self.cut)
            if len(self.seen) > 5000:
                self.seen.clear()
            self.seen[msg] = r
        return r


_texts = {}


def texts(v, m):
    if (v, m) not in _texts:
        _texts[v, m] = Texts(os.path.join(build.ensure_cached('plain'), 'plain-%d-%s.so' % (v, m)))
    return _texts[v, m]


class P19(core.Prop):
    id = 'P19'
    counts = {'quick': 400000, 'thorough': 2500000}
    shrink_lists = ('ops',)
    rule = ('a case is a generated call sequence with failing calls and logging configuration changes; non-trivial if a call failed '
            'while the error category was enabled, or while it was disabled')
    technique = 'generated call sequences; oracle: expected enabled categories, tracked from the logging configuration calls'

    def gen(self, rng, i, tier):
        v, m = gen.FMUS[i % len(gen.FMUS)]
        k = rng.choice(gen.interfaces(v, m))
        o = gen.options(rng, v, m, k)
        o['logging'] = rng.random() < 0.6
        if v == 3 and rng.random() < 0.04:
            o['logger'] = False
        o['name'] = rng.choice(['inst', 'a b', 'x%s%n', 'n' * 300, '\xe4%d']) if rng.random() < 0.4 else 'inst'
        w = gen.Walker(rng, v, m, k, o, p_bad=0.12, legal_set=0.9, debug=False)
        b = Bad(w)
        ops = []
        if rng.random() < 0.5:
            ops += w.to_mode({'ME': 'ct', 'CS': 'step', 'SE': 'clock'}[k] if rng.random() < 0.7 else 'init')
        for _ in range(rng.randint(4, 22)):
            q = rng.random()
            if q < 0.15:
                ops.append(self.debug(rng))
            elif q < 0.35:
                op, label = b.make()
                if op[0][:3] == 'bad':
                    ops.append(['getState', op[1]])
                    if op[0] == 'badDeserialize':
                        ops.append(['serialize', op[1], op[1]])
                    w.slots.add(op[1])
                ops.append(op)
                w.mode = 'term'
            elif q < 0.38 and (m != 'Clocks'):
                # a state saved by an instance with another environment and logging configuration
                ops.append(['foreign', rng.random() < 0.5, rng.random() < 0.5])
                w.mode = 'inst'
                w.dims = [3, 3, 3]
                w.did_setup = False
            elif q < 0.4 and v == 3:
                ops.append(['notimpl', rng.choice(api.NOTIMPL)])
            elif q < 0.42:
                # null pointers
                S = 'State' if v == 3 else 'state'
                c = [['raw', 'SerializeFMU' + S, None, ['out', 'UInt8', 8], 8]]
                if v == 2:
                    c += [['raw', 'CompletedIntegratorStep', 1] + a for a in ([None, ['ref']], [['ref'], None], [None, None])] * 2
                ops.append(rng.choice(c))
                w.mode = 'term'
            elif q < 0.43 and v == 2:
                ops.append(rng.choice([['cancel'], ['inDer', [1], [1], [1.0]], ['outDer', [1], [1]]]))
            elif q < 0.47 and k == 'CS' and w.mode == 'step':
                ops.append(['doStep', rng.choice([None, 77.0, -3.0, 'fff0000000000000']),
                            rng.choice([0.0, -1.0, '7ff0000000000000', '7ff8000000000000', gen.STEP[m]])])
                w.mode = 'term'
            elif q < 0.49 and k == 'CS' and w.mode == 'step':
                # also beyond a requested termination
                ops += [['doStep', None, gen.STEP[m] * rng.choice([1, 5, 20, 50])] for _ in range(rng.randint(6, 16))]
            else:
                op = w.next()
                if op[0] == 'doStep':
                    op[2] = min(op[2], gen.STEP[m] * 50)
                ops.append(op)
            if w.mode == 'term' and rng.random() < 0.4:
                ops.append(w.note(['reset']))
                if rng.random() < 0.6:
                    ops += w.to_mode({'ME': 'ct', 'CS': 'step', 'SE': 'clock'}[k])
        return {'v': v, 'model': m, 'kind': k, 'opts': o, 'ops': ops}

    def debug(self, rng):
        n = rng.choice([0, 0, 1, 1, 1, 2, 3]) if rng.random() < 0.9 else rng.choice([5, 9, 17, 40, 300])
        cats = [rng.choice(['logEvents', 'logStatusError']) for _ in range(n)]
        if rng.random() < 0.2:
            cats.insert(rng.randint(0, len(cats)), rng.choice(['', 'logEvent', 'logevents', 'logAll', 'logStatusErrorX', '%s%s%n%d',
                                                               '100%', 'y' * 400, 'y' * rng.choice([600, 1100, 2100, 5000]), 'logStatusError ', '\xe4€']))
        return ['debug', rng.random() < 0.5, cats]

    def foreign(self, c, a, op):
        o = dict(c['opts'], name='other', logging=op[1])
        o.pop('logger', None)
        b = api.Inst(api.load('plain', c['v'], c['model']), c['kind'], **o)
        try:
            if op[2]:
                b.do(['debug', False, []])
            if b.do(['getState', 0])[0] != 0:
                raise core.Skip
            n = len(b.log)
            r = a.op_setState(0, b)
            core.require(len(b.log) == n, 'restoring a state logs in the instance that saved it')
            return r
        finally:
            b.free_all()

    def run(self, c):
        v, m = c['v'], c['model']
        cats = set(md.get(v, m).log_categories) | {'logStatusError', 'logEvents'}
        del api.stray[:]
        a = api.Inst(api.load('plain', v, m), c['kind'], **c['opts'])
        on = {'logStatusError': True, 'logEvents': c['opts']['logging']}
        cls = set()
        logger = c['opts'].get('logger', True)
        try:
            for op in c['ops']:
                n = len(a.log)
                r = self.foreign(c, a, op) if op[0] == 'foreign' else a.do(op)
                if isinstance(r[0], str):
                    continue
                new = a.log[n:]
                during = dict(on)
                if op[0] == 'debug' or op[0] == 'raw' and op[1] == 'SetDebugLogging':
                    flag, names = (op[1], op[2]) if op[0] == 'debug' else (op[2], op[4][1] if op[4] else [])
                    known = [q for q in names if q in on]
                    if r[0] == 0:
                        for q in (known if names else list(on)):
                            on[q] = bool(flag)
                        during = {q: during[q] if during[q] == on[q] else None for q in on}
                    else:
                        for q in known:
                            if on[q] != bool(flag):
                                on[q] = during[q] = None
                    if op[0] == 'debug':
                        bad = [q for q in op[2] if q not in on]
                        core.require((r[0] == 0) == (not bad), '%r returns status %r', op, r[0])
                        cls.add('unknown category' if bad else 'categories changed')
                        if bad and logger and during['logStatusError']:
                            core.require(any(bad[0] in (q[3] or '') for q in new), '%r: the message does not show the category: %r', op, new)
                core.require(not api.stray, 'message with a foreign environment: %r', api.stray)
                for name, status, cat, msg in new:
                    core.require(v == 3 or name == c['opts']['name'], '%r logs with instance name %r', op, name)
                    core.require(cat in cats, '%r logs in the undeclared category %r: %r', op, cat, msg)
                    core.require(during.get(cat) is not False, '%r logs in the disabled category %r: %r', op, cat, msg)
                    core.require(bool(msg), '%r logs an empty message', op)
                    core.require(has_percent(op) or not SPEC.search(msg), '%r logs an incomplete message %r', op, msg)
                    core.require(not texts(v, m).incomplete(msg), '%r logs a message without its end: %r', op, msg)
                    core.require((cat == 'logStatusError') == (status in (2, 3, 4)), '%r logs in category %r with status %r: %r', op, cat, status, msg)
                if r[0] == 3:
                    e = during['logStatusError']
                    if e and logger:
                        core.require(any(q[1] == 3 and q[2] == 'logStatusError' for q in new), '%r fails without an error message (%r)', op, new)
                    cls.add('failing call, errors ' + {True: 'enabled', False: 'disabled', None: 'changing'}[e])
                    cls.add('fails: ' + (op[1] if op[0] == 'raw' else op[0]))
                elif r[0] == 0:
                    core.require(not any(q[1] >= 3 for q in new), '%r succeeds but logs the error %r', op, new)
            return {'nontrivial': any(q.startswith('failing') for q in cls), 'classes': ['%d-%s-%s' % (v, m, c['kind'])] + sorted(cls)}
        finally:
            a.free_all()


PROP = P19()
