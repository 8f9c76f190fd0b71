"""P32: a packaged FMU is complete and works wherever it is unpacked."""
import ctypes as C
import os
import shutil
import tempfile
import zipfile

from .. import api, build, core, imp
from .p21 import NAMES
from .p22 import P22
from .p28 import close, symbols

_checked = {}


def archive(v, m):
    return os.path.join(build.ensure_cached('package'), 'package', str(v), m + '.fmu')


def expected(v, m):
    """{member: file of the repository}"""
    d = {'modelDescription.xml': '%s/FMI%d.xml' % (m, v)}
    if m == 'Resource':
        d['resources/y.txt'] = 'Resource/y.txt'
    if m != 'Clocks':
        d['extra/org.fmi-standard.fmi-ls-ref/fmi-ls-manifest.xml'] = m + '/fmi-ls-ref.xml'
        d['extra/org.fmi-standard.fmi-ls-ref/%s_out.csv' % m] = '%s/%s_out.csv' % (m, m)
    if m == 'Roberts':
        d['extra/org.fmi-standard.fmi-ls-dae/fmi-ls-manifest.xml'] = 'Roberts/fmi-ls-dae.xml'
    if v == 3:
        d['sources/buildDescription.xml'] = m + '/buildDescription.xml'
    for n in ('config.h', 'model.c'):
        d['sources/' + n] = m + '/' + n
    return d


def content(v, m):
    """judges the members of the archive once"""
    if (v, m) in _checked:
        return
    p = archive(v, m)
    core.require(os.path.exists(p), 'no FMI %d.0 FMU %s is packaged', v, m)
    what = 'the FMI %d.0 FMU %s' % (v, m)
    with zipfile.ZipFile(p) as z:
        core.require(z.testzip() is None, '%s is corrupt', what)
        names = [n for n in z.namelist() if not n.endswith('/')]
        for n in names:
            core.require(not n.startswith('/') and '..' not in n.split('/') and '\\' not in n, '%s has a member %r', what, n)
        for n, f in expected(v, m).items():
            core.require(n in names, '%s lacks %s', what, n)
            with open(os.path.join(build.REPO, f), 'rb') as g:
                core.require(z.read(n) == g.read(), '%s: %s differs from %s', what, n, f)
        b = [n for n in names if n.startswith('binaries/')]
        core.require(len(set(b)) == 1, '%s has the binaries %r', what, b)
    _checked[v, m] = True


class P32(core.Prop):
    id = 'P32'
    kinds = ('plain', 'importer', 'package')
    counts = {'quick': 12000, 'thorough': 150000}
    shrink_lists = ('ops', 'names')
    rule = ('a case unpacks an FMU packaged by CMake into a directory with a generated name, loads it through the importer from there and makes a '
            'generated call sequence; non-trivial if at least 3 calls were made; distinct by FMU, directory and calls')
    technique = ('generated directories and call sequences, oracle: the files of the repository and the library compiled directly from them')
    assumptions = ('x86_64 Linux', 'paths within the platform limit')

    belongs = P22.belongs

    def gen(self, rng, i, tier):
        c = P22.gen_real(self, rng, i)
        c['opts'].pop('resource', None)
        c['name'] = c['name'] or 'x'
        names = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice(NAMES) if rng.random() < 0.5 else bytes(rng.randint(1, 255) for _ in range(rng.choice([1, 5, 40, 200])))
            n = n.replace(b'/', b'_')
            names.append((b'x' if n in (b'.', b'..') else n).hex())
        c['names'] = names
        c['sep'] = rng.random() < 0.5
        return c

    def run(self, case):
        v, m, kind = case['v'], case['model'], case['kind']
        content(v, m)
        top = tempfile.mkdtemp(prefix='vt-fmu-')
        try:
            return self.use(case, os.path.realpath(top).encode())
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def use(self, case, top):
        v, m, kind = case['v'], case['model'], case['kind']
        d = b'/'.join([top] + [bytes.fromhex(n) for n in case['names']])
        with zipfile.ZipFile(archive(v, m)) as z:
            z.extractall(os.fsdecode(d))
        L = imp.load()
        buf = C.create_string_buffer(8192)
        dirbuf, idbuf = C.create_string_buffer(d + b'/' if case['sep'] or d.endswith(b'\\') else d), C.create_string_buffer(m.encode())
        s = L.binpath(C.addressof(dirbuf), C.addressof(idbuf), v, C.addressof(buf), 8192)
        core.require(s == 0, 'no path of the binary in %r (status %r)', d, s)
        path = buf.value
        core.require(os.path.exists(path), 'the FMI %d.0 FMU %s has no binary %r', v, m, path[len(d):])
        k = ('symbols', v, m)
        if k not in _checked:
            want = {'fmi%d%s' % (v, n) for n in (api.SIG2 if v == 2 else api.SIG3)}
            have = symbols(os.fsdecode(path))
            core.require(want == have, 'FMI %d.0 FMU %s: missing functions %s, further exported functions %s', v, m, sorted(want - have), sorted(have - want))
            _checked[k] = True
        res = d + b'/resources' + (b'' if v == 2 else b'/')
        if v == 2:
            u, resbuf = C.create_string_buffer(8192), C.create_string_buffer(res)
            s = L.uri(C.addressof(resbuf), C.addressof(u), 8192)
            core.require(s == 0, 'no URI of %r (status %r)', res, s)
            res = u.value
        res = res.decode('utf-8', 'surrogateescape')
        il = imp.ImpLib(os.fsdecode(path), v, m)
        il.path = _Raw(path)
        k = dict(case['opts'], name=case['name'], logging=case['logging'])
        a = b = None
        try:
            try:
                a = api.Inst(il, kind, resource=res, **k)
            except api.InstantiationFailed:
                raise core.Violation('the FMI %d.0 FMU %s cannot be loaded and instantiated (%r) from %r: %r' % (v, m, kind, path, il.status))
            b = api.Inst(api.load('plain', v, m), kind, **k)
            for j, op in enumerate(case['ops']):
                x, y = a.do(op), b.do(op)
                core.require(close(x, y), 'call %d %r: %r by the packaged FMU in %r, %r by the compiled sources', j, op, x, d, y)
            return {'nontrivial': len(case['ops']) >= 3, 'classes': ['%d-%s-%s' % (v, m, kind)]}
        finally:
            for q in (a, b):
                if q is not None:
                    q.free_all()
            for p in list(imp._callers):
                imp._callers.pop(p)


class _Raw:
    """a path of arbitrary bytes"""

    def __init__(self, b):
        self.b = b

    def encode(self, *a):
        return self.b


PROP = P32()
