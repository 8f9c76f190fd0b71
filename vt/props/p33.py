"""P33: the reference results are those of the default experiment."""
import bisect
import csv
import hashlib
import os
import xml.etree.ElementTree as ET

from .. import api, build, core, drive, gen, md
from .p13 import Euler

MODELS = [(v, m) for m in ('BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'StateSpace', 'VanDerPol')
          for v in ((3,) if m == 'StateSpace' else (2, 3))]
# known finding: the file of Roberts has the results of BouncingBall
ROBERTS = '7123af5e548a120e20a8167a7ece4df442474b7788a31bf57d2c0c177702a150'
_cache = {}


def floats(s):
    return [float(q) for q in s.split(' ')]


PARSE = {'String': lambda s: [s], 'Binary': lambda s: [s.lower()], 'Boolean': lambda s: [{'true': True, 'false': False, '1': True, '0': False}[s]]}
REAL = ('Float32', 'Float64', 'Real')


def results(m, name):
    e = ET.parse(os.path.join(build.REPO, m, 'fmi-ls-ref.xml')).getroot()
    r = [q.get('source') for q in e.iter('Related') if q.get('role') == 'result']
    core.require(r == [name], '%s/fmi-ls-ref.xml: the results are in %r', m, r)


def table(m):
    """(columns, times, rows) of the reference results"""
    if m not in _cache:
        p = os.path.join(build.REPO, m, m + '_out.csv')
        with open(p, newline='') as f:
            rows = list(csv.reader(f))
        d = md.get(3, m)
        out = {x.name: x for x in d.vars if x.causality == 'output'}
        h = rows.pop(0)
        core.require(h[0] == 'time' and sorted(h[1:]) == sorted(out), '%s_out.csv has the columns %r', m, h)
        core.require(all(len(r) == len(h) for r in rows), '%s_out.csv: rows do not fit the header', m)
        try:
            t = [float(r[0]) for r in rows]
            vals = [[PARSE.get(out[n].type, floats if out[n].type in REAL else lambda s: [int(s)])(q) for n, q in zip(h[1:], r[1:])] for r in rows]
        except (KeyError, ValueError) as e:
            raise core.Violation('%s_out.csv: %r' % (m, e))
        core.require(len(t) > 1 and all(a < b for a, b in zip(t, t[1:])), '%s_out.csv: the time does not increase', m)
        for v in (2, 3):
            if not os.path.exists(os.path.join(build.REPO, m, 'FMI%d.xml' % v)):
                continue
            e = md.get(v, m).experiment
            start, stop = float(e.get('startTime', 0)), float(e['stopTime'])
            core.require(abs(t[0] - start) <= 1e-9, '%s_out.csv starts at %r, the default experiment of FMI %d.0 at %r', m, t[0], v, start)
            core.require(t[-1] <= stop + 1e-9 and (m == 'Stair' or t[-1] >= stop - 1e-9), '%s_out.csv ends at %r, the default experiment of FMI %d.0 at %r', m, t[-1], v, stop)
            if 'stepSize' in e:
                for i, q in enumerate(t):
                    core.require(abs(q - (start + i * float(e['stepSize']))) <= 1e-9, '%s_out.csv: row %d is at %r, the step size is %s', m, i, q, e['stepSize'])
        results(m, m + '_out.csv')
        _cache[m] = h[1:], t, vals
    return _cache[m]


def roberts(known):
    if 'roberts' not in _cache:
        with open(os.path.join(build.REPO, 'Roberts', 'Roberts_out.csv'), 'rb') as f:
            s = f.read()
        _cache['roberts'] = hashlib.sha256(s).hexdigest()
        if not ('roberts-results' in known and _cache['roberts'] == ROBERTS):
            h, t, vals = table('Roberts')
            for q, r in zip(t, vals):
                core.require(abs(sum(x[0] for x in r) - 1) <= 1e-6 and all(-1e-6 <= x[0] <= 1 + 1e-6 for x in r), 'Roberts_out.csv: %r at %r', r, q)
        else:
            results('Roberts', 'BouncingBall_out.csv')


class P33(core.Prop):
    id = 'P33'
    counts = {'quick': 12000, 'thorough': 150000}
    shrink_lists = ('rows', 'between')
    rule = ('a case simulates the default experiment of a model through Co-Simulation (with generated communication points between the rows, event mode, '
            'early return, a save and restore of the state) or Model Exchange and compares generated rows of the reference results; non-trivial if '
            'a row after the start was compared')
    technique = 'generated ways to simulate, oracle: the reference results delivered with the models'
    assumptions = ('Model Exchange with the explicit Euler method of the Co-Simulation; tolerance 1e-9; Clocks has no reference results',)

    def gen(self, rng, i, tier):
        v, m = MODELS[i % len(MODELS)]
        kind = 'ME' if rng.random() < 0.3 else 'CS'
        n = {'BouncingBall': 300, 'Dahlquist': 100, 'Feedthrough': 20, 'Resource': 1, 'Stair': 45, 'StateSpace': 10, 'VanDerPol': 2000}[m]
        last = n if rng.random() < 0.3 else rng.randint(1, n) if rng.random() < 0.5 else rng.randint(1, max(1, n // 10))
        rows = sorted({last} | {rng.randint(0, last) for _ in range(rng.choice([1, 3, 20, 60]))})
        c = {'v': v, 'model': m, 'kind': kind, 'rows': rows, 'opts': gen.options(rng, v, m, 'CS') if kind == 'CS' else {}}
        c['stop'] = rng.random() < 0.3
        c['between'] = sorted(rng.random() for _ in range(rng.choice([0, 0, 2, 10]))) if kind == 'CS' else []
        c['save'] = rng.randint(0, last) if rng.random() < 0.4 else None
        return c

    def run(self, case):
        v, m, kind = case['v'], case['model'], case['kind']
        roberts(self.known)
        cols, t, vals = table(m)
        d = md.get(v, m)
        x = {q.name: q for q in d.vars}
        read = [(j, md.getter_type(v, x[n].type), x[n].vr) for j, n in enumerate(cols) if n in x]
        core.require(read, '%s_out.csv: no column is a variable of FMI %d.0', m, v)
        lib = api.load('plain', v, m)
        stop = float(d.experiment['stopTime']) if case['stop'] else None
        a = b = None
        rows = [r for r in case['rows'] if r < len(t)]
        if not rows:
            raise core.Skip
        points = {t[r]: r for r in rows}
        h = gen.STEP[m]
        for f in case['between']:
            q = t[0] + h * round(f * (t[rows[-1]] - t[0]) / h)
            i = bisect.bisect(t, q)
            if all(abs(q - w) > h / 2 for w in t[max(0, i - 1):i + 1]):
                points[q] = None
        cls = ['%d-%s-%s' % (v, m, kind)] + sorted(case['opts'])
        saved = False
        try:
            try:
                a = api.Inst(lib, kind, logging=False, **case['opts'])
                drive.begin(a, v, m, t[0], stop)
                e = Euler(a, v, m, t[0], (3, 3, 3)) if kind == 'ME' else None
                for p in sorted(points):
                    r = points[p]
                    if e:
                        e.to(p)
                        over = e.term
                    else:
                        over = drive.to(a, v, p) == 'term'
                    if r is None:
                        continue
                    if over and not (m == 'Stair' and r == len(t) - 1):
                        raise core.Violation('the default experiment of %s ends at %r, row %d of the reference results is at %r' % (m, a.cp, r, t[r]))
                    if over and v == 2:
                        break
                    for j, T, vr in read:
                        want = vals[r][j]
                        got = a.do(['get', T, [vr], len(want)])
                        core.require(got[0] == 0 and self.close(got[1], want, cols[j]), 'FMI %d.0 %s of %s: %s is %r at %r, row %d of the reference results has %r',
                                     v, kind, m, cols[j], got[1:], t[r], r, want)
                    if not e and case['save'] is not None and r >= case['save'] and not saved and not over:
                        saved = True
                        if (stop is None or p + 2 * h <= stop) and a.do(['getState', 0])[0] == 0:
                            drive.to(a, v, p + 2 * h)
                            core.require(a.do(['setState', 0])[0] == 0, 'the state cannot be restored')
                            a.cp = p
                            cls.append('restored')
            except core.Skip:
                raise core.Violation('the default experiment of %s (FMI %d.0, %s) cannot be simulated' % (m, v, kind))
            return {'nontrivial': rows[-1] > 0, 'classes': cls}
        finally:
            if a is not None:
                a.free_all()

    def close(self, got, want, name):
        if len(got) != len(want):
            return False
        for g, w in zip(got, want):
            if isinstance(w, float):
                if not abs(float(g) - w) <= 1e-9 * max(1, abs(w)):
                    return False
            elif g != w:
                return False
        return True


PROP = P33()
