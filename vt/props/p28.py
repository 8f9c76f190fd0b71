"""P28: source code FMUs behave like the binary FMUs."""
import math
import os
import subprocess

from .. import api, build, core, gen
from .p22 import P22

_libs, _syms = {}, {}


def close(x, y):
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and all(close(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (math.isnan(x) and math.isnan(y)) or math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-300)
    return x == y


def symbols(path):
    if path not in _syms:
        out = subprocess.run(['nm', '-D', '--defined-only', path], stdout=subprocess.PIPE, check=True).stdout.decode()
        _syms[path] = {l.split()[-1] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in 'TW'}
    return _syms[path]


def binary(v, m):
    return os.path.join(build.ensure_cached('package'), 'package', str(v), m, 'binaries', {2: 'linux64', 3: 'x86_64-linux'}[v], m + '.so')


def library(v, m, variant=None):
    k = (v, m, variant)
    if k not in _libs:
        if variant is None:
            _libs[k] = api.Lib(binary(v, m), v, m)
        else:
            p = os.path.join(build.ensure_cached('source'), 'source-%d-%s-%s.so' % (v, m, variant))
            with open(p, 'rb') as f:
                t = f.read(4000)
            core.require(not t.startswith(b'BUILD FAILED'), 'the sources of the FMI %d.0 FMU %s do not compile (%s): %s', v, m, variant,
                         t.decode(errors='replace')[:1500])
            pre = m + '_' if build.VARIANTS[variant][2] else ''
            want = {pre + 'fmi%d%s' % (v, n) for n in (api.SIG2 if v == 2 else api.SIG3)}
            have = symbols(p)
            core.require(want <= have, 'FMI %d.0 FMU %s (%s) does not export %s', v, m, variant, sorted(want - have))
            if pre:
                extra = {s for s in have if s.startswith('fmi')}
                core.require(not extra, 'FMI %d.0 FMU %s (%s) exports %s without prefix', v, m, variant, sorted(extra))
            try:
                _libs[k] = api.Lib(p, v, m, prefix=pre)
            except OSError as e:
                raise core.Violation('the compiled sources of the FMI %d.0 FMU %s (%s) cannot be loaded: %s' % (v, m, variant, str(e)[-200:]))
    return _libs[k]


class P28(core.Prop):
    id = 'P28'
    kinds = ('source',)
    counts = {'quick': 200000, 'thorough': 2000000}
    shrink_lists = ('ops',)
    rule = ('a case makes a generated call sequence on the binary of the packaged FMU and on a library compiled from the sources in the package; '
            'non-trivial if at least 3 calls were made; distinct by build variant and call sequence')
    technique = 'generated call sequences on FMUs packaged by CMake, metamorphic oracle (compiled sources == binary)'
    assumptions = ('gcc and clang for x86_64 Linux without value-changing floating-point options', 'the FMI headers are provided by the importer')

    belongs = lambda self, v, kind, op: True

    def gen(self, rng, i, tier):
        c = P22.gen_real(self, rng, i)
        c['variant'] = rng.choice(sorted(build.VARIANTS))
        return c

    def run(self, case):
        v, m, kind = case['v'], case['model'], case['kind']
        la, lb = library(v, m), library(v, m, case['variant'])
        k = dict(case['opts'], name=case['name'], logging=case['logging'])
        ab = []
        for l in (la, lb):
            try:
                ab.append(api.Inst(l, kind, **k))
            except api.InstantiationFailed:
                ab.append(None)
        a, b = ab
        try:
            core.require((a is None) == (b is None), 'only the %s can be instantiated', 'binary' if a else 'compiled source')
            if a is None:
                raise core.Skip
            for j, op in enumerate(case['ops']):
                na, nb = len(a.log), len(b.log)
                x, y = a.do(op), b.do(op)
                core.require(close(x, y), 'call %d %r: %r by the binary, %r by the compiled sources', j, op, x, y)
                p, q = [r[1:] for r in a.log[na:]], [r[1:] for r in b.log[nb:]]
                core.require(p == q, 'call %d %r: messages %r by the binary, %r by the compiled sources', j, op, p, q)
        finally:
            for z in (a, b):
                if z is not None:
                    z.free_all()
        return {'nontrivial': len(case['ops']) >= 3, 'classes': [case['variant'], '%d-%s' % (v, m)]}


PROP = P28()
