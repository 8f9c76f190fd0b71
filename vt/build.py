"""Builds everything the checks need from the working tree of /repo.

Products go to /verif/.build/<digest>/, where the digest covers the content of
every file that can influence them, so a changed tree is always rebuilt.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time, zipfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')

MODELS2 = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol']
MODELS3 = MODELS2 + ['Clocks', 'Roberts', 'StateSpace']
FMUS = [(2, m) for m in MODELS2] + [(3, m) for m in MODELS3]


def _digest():
    h = hashlib.sha256()
    dirs = ['src', 'include'] + MODELS3
    for d in dirs:
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)):
            f = os.path.join(p, n)
            if os.path.isfile(f) and n.rsplit('.', 1)[-1] in ('c', 'h', 'xml', 'txt', 'csv'):
                h.update(('%s/%s\0' % (d, n)).encode())
                h.update(open(f, 'rb').read())
    for n in ['CMakeLists.txt'] + ['examples/' + x for x in sorted(os.listdir(os.path.join(REPO, 'examples')))]:
        h.update(n.encode() + b'\0' + open(os.path.join(REPO, n), 'rb').read())
    for d in ('vt', 'c'):
        p = os.path.join(ROOT, d)
        if not os.path.isdir(p):
            continue
        for n in sorted(os.listdir(p)):
            if n in ('build.py', 'api.py') or n.endswith('.c') or n.endswith('.h'):
                h.update(open(os.path.join(p, n), 'rb').read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace'))


KNOWN = ('FMI.c', 'FMI2.c', 'FMI3.c', 'fmi2Functions.c', 'fmi3Functions.c', 'cosimulation.c')


def _more(importer):
    """further source files of the tree, in case code is moved to new files"""
    out = []
    for n in sorted(os.listdir(os.path.join(REPO, 'src'))):
        if n.endswith('.c') and n not in KNOWN:
            t = open(os.path.join(REPO, 'src', n), errors='replace').read()
            imp = any('"%s"' % h in t for h in ('FMI.h', 'FMI1.h', 'FMI2.h', 'FMI3.h'))
            fmu = any('"%s"' % h in t for h in ('model.h', 'config.h', 'cosimulation.h'))
            if (imp or not fmu) if importer else (fmu or not imp):
                out.append(os.path.join(REPO, 'src', n))
    return out


def _srcs(v, m):
    return [os.path.join(REPO, m, n) for n in sorted(os.listdir(os.path.join(REPO, m))) if n.endswith('.c')] + [
        os.path.join(REPO, 'src', 'fmi%dFunctions.c' % v),
        os.path.join(REPO, 'src', 'cosimulation.c')] + _more(False)


def _inc(m):
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, m)]


BASE = ['-fPIC', '-shared', '-w', '-fvisibility=hidden']
WRAPPED = ['malloc', 'calloc', 'realloc', 'free', 'strdup', '__strdup', 'strndup', 'reallocarray', 'aligned_alloc', 'posix_memalign', 'asprintf',
           'vasprintf', 'fopen', 'fclose']


def _plain(out, v, m):
    _run(['gcc', '-O2', *BASE, '-DFMI_VERSION=%d' % v, '-DDISABLE_PREFIX', *_inc(m), *_srcs(v, m), '-o', out, '-lm'])


def _asan(out, v, m):
    _run(['gcc', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
          '-fno-omit-frame-pointer', *BASE, '-DFMI_VERSION=%d' % v, '-DDISABLE_PREFIX', *_inc(m), *_srcs(v, m),
          '-o', out, '-lm'])


def _wrap(out, v, m):
    w = ['-Wl,' + ','.join('--wrap=' + s for s in WRAPPED)]
    # keep calls to the allocator visible to the linker
    _run(['gcc', '-O1', '-fno-builtin', *BASE, '-DFMI_VERSION=%d' % v, '-DDISABLE_PREFIX', *_inc(m), *_srcs(v, m),
          os.path.join(ROOT, 'c', 'alloc_shim.c'), *w, '-o', out, '-lm'])


def _sched(out, v, m):
    # the runtime is c/sched.h
    o = ['gcc', '-O0', '-g', '-fPIC', '-w', '-fvisibility=hidden', '-DFMI_VERSION=%d' % v, '-DDISABLE_PREFIX', *_inc(m)]
    objs = []
    for k, s in enumerate(_srcs(v, m)):
        objs.append('%s-%d.o' % (out, k))
        _run(o + ['-fsanitize=thread', '-c', s, '-o', objs[-1]])
    _run(['gcc', '-shared', *objs, '-o', out, '-lm'])
    for f in objs:
        os.unlink(f)


# compiler, flags, functions with the prefix of the model
VARIANTS = {'gcc-O0-prefix': ('gcc', ['-O0'], True), 'gcc-O2': ('gcc', ['-O2'], False), 'gcc-O3-gnu11-prefix': ('gcc', ['-O3', '-std=gnu11'], True),
            'gcc-Os-gnu99': ('gcc', ['-Os', '-std=gnu99'], False), 'clang-O2-prefix': ('clang', ['-O2'], True), 'clang-O1': ('clang', ['-O1'], False)}


def _package(out):
    """what CMake makes of the tree: <out>/<version>/<model>/ is the unpacked FMU"""
    tree, cm = out + '-tree', out + '-cmake'
    for p in (tree, cm, out):
        shutil.rmtree(p, ignore_errors=True)
    shutil.copytree(REPO, tree, symlinks=True, ignore=lambda d, ns: [n for n in ns if n == '.git' or (d == REPO and n == 'build')])
    os.makedirs(out)
    try:
        for v in (2, 3):
            b = os.path.join(cm, str(v))
            _run(['env', '-u', 'CFLAGS', '-u', 'LDFLAGS', 'CC=gcc', 'CXX=g++', 'cmake', '-S', tree, '-B', b, '-G', 'Ninja',
                  '-DFMI_VERSION=%d' % v, '-DFMI_ARCHITECTURE=x86_64'])
            _run(['cmake', '--build', b, '-j', '8'])
            for n in sorted(os.listdir(os.path.join(b, 'fmus'))):
                dst = os.path.join(out, str(v), n[:-4])
                os.makedirs(dst)
                shutil.copy(os.path.join(b, 'fmus', n), dst + '.fmu')
                with zipfile.ZipFile(dst + '.fmu') as z:
                    z.extractall(dst)
    finally:
        for p in (tree, cm):
            shutil.rmtree(p, ignore_errors=True)


def source_files(pkg, v, m, interface='CoSimulation'):
    """source files and definitions an importer would compile; interface: of FMI 2.0"""
    d = os.path.join(pkg, str(v), m)
    if v == 2:
        r = ET.parse(os.path.join(d, 'modelDescription.xml')).getroot()
        fs = [f.get('name') for f in r.find(interface).iter('File')]
        return [os.path.join(d, 'sources', f) for f in fs], [], []
    r = ET.parse(os.path.join(d, 'sources', 'buildDescription.xml')).getroot()
    c = [c for c in r.findall('BuildConfiguration') if c.get('modelIdentifier') == m]
    fs = [os.path.join(d, 'sources', f.get('name')) for f in c[0].iter('SourceFile')] if c else []
    ds = ['-D' + x.get('name') + ('=' + x.get('value') if x.get('value') else '') for x in c[0].iter('PreprocessorDefinition')] if c else []
    ls = ['-l' + x.get('name') for x in c[0].iter('Library')] if c else []
    return fs, ds, ls


def _source(out, v, m, variant):
    cc, flags, prefix = VARIANTS[variant]
    # FMI 2.0 names the source files for each interface
    fs, ds, ls = source_files(os.path.join(os.path.dirname(out), 'package'), v, m, 'ModelExchange' if cc == 'clang' or '-Os' in flags else 'CoSimulation')
    # the FMI headers are provided by the importer
    inc = os.path.join(os.path.dirname(out), 'package-headers')
    std = [f for f in flags if f.startswith('-std')]
    if v == 2:
        flags = [f for f in flags if f not in std]          # FMI 2.0 does not name a language
    try:
        if not fs:
            raise BuildError('no source files for the model identifier %s' % m)
        _run([cc, *flags, '-fPIC', '-shared', '-Wl,-Bsymbolic', '-Werror=implicit-function-declaration', *ds, *([] if prefix else ['-DDISABLE_PREFIX', '-fvisibility=hidden']),
              '-I' + os.path.dirname(fs[0]), '-I' + inc, *fs, '-o', out, '-lm', *ls])
    except BuildError as e:
        with open(out, 'w') as f:           # judged by the check
            f.write('BUILD FAILED\n' + str(e))


def _headers(out):
    """the headers of the FMI standard"""
    os.makedirs(out, exist_ok=True)
    for n in ('fmi2FunctionTypes.h', 'fmi2Functions.h', 'fmi2TypesPlatform.h', 'fmi3FunctionTypes.h', 'fmi3Functions.h', 'fmi3PlatformTypes.h'):
        shutil.copy(os.path.join(REPO, 'include', n), out)


def _importer(out, flags=('-O2',), more=()):
    s = [os.path.join(REPO, 'src', f) for f in ('FMI.c', 'FMI2.c', 'FMI3.c')] + _more(True)
    _run(['gcc', *flags, '-fPIC', '-shared', '-w', '-I' + os.path.join(REPO, 'include'), *s,
          os.path.join(ROOT, 'c', 'importer_shim.c'), *more, '-o', out, '-ldl', '-lm'])


def _importer_wrap(out):
    w = '-Wl,' + ','.join('--wrap=' + s for s in WRAPPED + ['dlopen', 'dlclose'])
    _importer(out, ('-O1', '-fno-builtin', '-DWRAP_DL', '-DGUARD=4096'), (os.path.join(ROOT, 'c', 'alloc_shim.c'), w))


def _threads(out):
    _run(['gcc', '-O2', '-fPIC', '-shared', '-w', '-pthread', os.path.join(ROOT, 'c', 'threads.c'), '-o', out])


def _mock(out, v):
    """an FMU binary whose functions forward to pointers set by vt/imp.py"""
    from . import api
    ct = {api.vp: 'void *', api.sz: 'size_t ', api.dbl: 'double ', api.u32: 'unsigned ', api.cp_: 'const char *', api._b3: '_Bool ',
          api.C.c_int: 'int ', None: 'void '}
    t = '#include <stddef.h>\nvoid *vt_tab[200];\n'
    for k, (n, s) in enumerate((api.SIG3 if v == 3 else api.SIG2).items()):
        res, args = s if isinstance(s, tuple) else (api.C.c_int, s)
        t += '%sfmi%d%s(%s) { %s((%s(*)(%s))vt_tab[%d])(%s); }\n' % (
            ct[res], v, n, ', '.join('%sa%d' % (ct[a], i) for i, a in enumerate(args)) or 'void', '' if res is None else 'return ', ct[res],
            ', '.join(ct[a] for a in args) or 'void', k, ', '.join('a%d' % i for i in range(len(args))))
    src = out + '.c'
    with open(src, 'w') as f:
        f.write(t)
    _run(['gcc', '-O1', '-fPIC', '-shared', '-w', src, '-o', out])
    os.unlink(src)


# synthetic models for the example programs: states, indicators, step, stop time
SYNTH = [(0, 0, '0.5', '3'), (2, 1, '0.25', '5'), (3, 2, '0.125', '2'), (1, 0, '0.1', '1'), (0, 2, '1', '8')]


def programs():
    """the example programs: name -> (version, source, model or index of the synthetic model)"""
    out = {}
    for v, ms in ((2, MODELS2), (3, MODELS2 + ['StateSpace'])):
        for k in ('me', 'cs'):
            for m in ms:
                out['%d-%s-%s' % (v, k, m)] = (v, 'simulate_fmi%d_%s.c' % (v, k), m)
            for i in range(len(SYNTH)):
                out['%d-%s-S%d' % (v, k, i)] = (v, 'simulate_fmi%d_%s.c' % (v, k), i)
    for n, m in (('cs_early_return', 'BouncingBall'), ('cs_event_mode', 'BouncingBall'), ('cs_intermediate_update', 'BouncingBall'),
                 ('cs_reconfiguration', 'StateSpace'), ('scs_synchronous', 'Clocks'), ('jacobian', 'VanDerPol')):
        out['3-%s' % n] = (3, n + '.c', m)
        if m == 'BouncingBall':
            for i in range(len(SYNTH)):
                out['3-%s-S%d' % (n, i)] = (3, n + '.c', i)
    return out


def _sim(out, v):
    """an FMU binary with scripted answers"""
    from . import api
    ct = {api.vp: 'void *', api.sz: 'size_t ', api.dbl: 'double ', api.u32: 'unsigned ', api.cp_: 'const char *', api._b3: '_Bool ',
          api.C.c_int: 'int ', None: 'void '}
    t = open(os.path.join(ROOT, 'c', 'simfmu.c')).read()
    pre = subprocess.run(['gcc', '-E', '-P', '-w', '-DFMI_VERSION=%d' % v, '-x', 'c', '-'], input=t.encode(), stdout=subprocess.PIPE, check=True).stdout.decode()
    for n, s in (api.SIG3 if v == 3 else api.SIG2).items():
        if 'fmi%d%s(' % (v, n) in pre:
            continue
        res, args = s if isinstance(s, tuple) else (api.C.c_int, s)
        ps = ', '.join('%sa%d' % (ct[a], i) for i, a in enumerate(args)) or 'void'
        if res is api.cp_:
            t += '%sfmi%d%s(%s) { return "%s"; }\n' % (ct[res], v, n, ps, 'default' if n == 'GetTypesPlatform' else '%d.0' % v)
        else:
            t += '%sfmi%d%s(%s) { return end(begin("%s", a0)); }\n' % (ct[res], v, n, ps, n)
    src = out + '.c'
    with open(src, 'w') as f:
        f.write(t)
    _run(['gcc', '-O1', '-fPIC', '-shared', '-w', '-DFMI_VERSION=%d' % v, src, '-o', out])
    os.unlink(src)


def _examples(out):
    """the example programs as shared libraries"""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    o = ['gcc', '-O1', '-g', '-fPIC', '-w', '-I' + os.path.join(REPO, 'include')]
    for i, (nx, nz, h, stop) in enumerate(SYNTH):
        os.makedirs(os.path.join(out, 'S%d' % i))
        with open(os.path.join(out, 'S%d' % i, 'config.h'), 'w') as f:
            f.write('#define MODEL_IDENTIFIER S%d\n#define INSTANTIATION_TOKEN "{synthetic}"\n' % i
                    + ('#define MAX_CONTINUOUS_STATES %d\n' % nx if nx else '') + ('#define MAX_EVENT_INDICATORS %d\n' % nz if nz else '')
                    + '#define FIXED_SOLVER_STEP %s\n#define DEFAULT_STOP_TIME %s\n' % (h, stop))
    more = _more(True)
    imp = {}
    for v in (2, 3):
        imp[v] = []
        for s in [os.path.join(REPO, 'src', n) for n in ('FMI.c', 'FMI%d.c' % v)] + more:
            imp[v].append(os.path.join(out, '%s-%d.o' % (os.path.basename(s), v)))
            _run(o + ['-DFMI_VERSION=%d' % v, '-c', s, '-o', imp[v][-1]])

    def one(e):
        n, (v, src, m) = e
        x = os.path.join(REPO, 'examples')
        syn = isinstance(m, int)
        fs = [os.path.join(x, src)]
        if syn:
            fs.append(os.path.join(ROOT, 'c', 'simhooks.c'))
        elif n != '3-jacobian':
            fs.append(os.path.join(x, m + '.c'))
        _run(o + ['-shared', '-fsanitize=undefined', '-fsanitize-trap=undefined', '-DFMI_VERSION=%d' % v, '-DDISABLE_PREFIX', '-Dmain=sim_main', '-include', os.path.join(ROOT, 'c', 'quiet.h'), '-I' + x,
                  '-I' + (os.path.join(out, 'S%d' % m) if syn else os.path.join(REPO, m)), *(['-DNX=%d' % SYNTH[m][0], '-DNZ=%d' % SYNTH[m][1]] if syn else []), *fs, *imp[v], '-o', os.path.join(out, n + '.so'), '-ldl', '-lm'])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, programs().items()))


def _jobs(d, kinds):
    jobs = []

    def add(fn, name, *a):
        jobs.append((fn, os.path.join(d, name), a))
    for v, m in FMUS:
        if 'plain' in kinds:
            add(_plain, 'plain-%d-%s.so' % (v, m), v, m)
        if 'asan' in kinds:
            add(_asan, 'asan-%d-%s.so' % (v, m), v, m)
        if 'sched' in kinds:
            add(_sched, 'sched-%d-%s.so' % (v, m), v, m)
        if 'wrap' in kinds:
            add(_wrap, 'wrap-%d-%s.so' % (v, m), v, m)
    if 'package' in kinds or 'source' in kinds:
        add(_package, 'package')
        add(_headers, 'package-headers')
    if 'source' in kinds:
        for v, m in FMUS:
            for n in VARIANTS:
                add(_source, 'source-%d-%s-%s.so' % (v, m, n), v, m, n)
    if 'threads' in kinds:
        add(_threads, 'threads.so')
    if 'mock' in kinds:
        for v in (2, 3):
            add(_mock, 'mock-%d.so' % v, v)
    if 'examples' in kinds:
        add(_examples, 'examples')
        for v in (2, 3):
            add(_sim, 'sim-%d.so' % v, v)
    if 'importer' in kinds:
        add(_importer, 'importer.so')
    if 'importer_wrap' in kinds:
        add(_importer_wrap, 'importer-wrap.so')
    if 'importer_asan' in kinds:
        add(_importer, 'importer-asan.so', ('-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'))
    return jobs


def ensure(*kinds):
    """Build the given kinds for the current tree (if needed); return the directory."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, _digest())
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        todo = [j for j in _jobs(d, kinds) if not os.path.exists(j[1])]

        def one(j):
            fn, out, a = j
            tmp = out + '.tmp%d' % os.getpid()
            if os.path.isdir(tmp):
                shutil.rmtree(tmp)
            fn(tmp, *a)
            os.rename(tmp, out)
        for j in [j for j in todo if j[0] is _package]:
            one(j)
        todo = [j for j in todo if j[0] is not _package]
        for j in [j for j in todo if j[0] is _headers]:
            one(j)
        todo = [j for j in todo if j[0] is not _headers]
        if todo:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(one, todo))
        # keep the few most recent build directories only
        ds = sorted((x for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x))),
                    key=lambda x: os.path.getmtime(os.path.join(BUILD, x)))
        for x in ds[:-3]:
            if x != os.path.basename(d) and time.time() - os.path.getmtime(os.path.join(BUILD, x)) > 900:
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
    return d


_ready = {}


def ensure_cached(kind):
    """like ensure, but looks at the tree only once per process and kind"""
    if kind not in _ready:
        _ready[kind] = ensure(kind)
    return _ready[kind]


if __name__ == '__main__':
    print(ensure(*(sys.argv[1:] or ['plain'])))
