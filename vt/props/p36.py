"""P36: the release scripts build for the given platform and merge the FMUs completely."""
import os
import re
import sys
import types
import zipfile

from .. import build, core, script

PLATFORMS = ['x86-windows', 'x86_64-windows', 'x86_64-linux', 'aarch64-linux', 'x86_64-darwin', 'aarch64-darwin']
BOTH = ('x86-windows', 'x86_64-windows', 'x86_64-linux', 'x86_64-darwin')        # platforms with FMI 2.0
DOCUMENTED = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'StateSpace', 'Resource', 'Stair', 'VanDerPol']
OTHERS = ['Clocks', 'Roberts', 'NewModel']
LIB = {'windows': 'dll', 'linux': 'so', 'darwin': 'dylib'}
TOOL = 'generationTool="Reference FMUs (development build)"'
DATE = re.compile(r'\s+generationDateAndTime="(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d[^"]*)"')


class P36(core.Prop):
    id = 'P36'
    counts = {'quick': 4800, 'thorough': 60000}
    shrink_lists = ('fmus', 'svgs', 'stale')
    kinds = ()
    rule = ('a case is a run of build.py or merge_binaries.py in a generated directory with recording stand-ins for CMake, git, '
            'fmusim and the Python packages that are not part of Python; non-trivial if FMUs were copied or merged; distinct by case')
    technique = 'generated directories and archives; files after the script against those before, recorded commands'
    assumptions = ('git, CMake, fmusim, fmpy, jinja2, markdown2 and pytz are replaced by stand-ins',)

    def gen(self, rng, i, tier):
        if i % 3 == 0:
            return self.gen_build(rng)
        fmus = []
        for m in rng.sample(DOCUMENTED + OTHERS, rng.choice([0, 1, 1, 2, 3])):
            for v in rng.choice([['2.0', '3.0'], ['2.0', '3.0'], ['3.0'], ['2.0']]):
                fmus.append([v, m, rng.randint(0, 3), rng.random() < 0.3, rng.getrandbits(16)])
        dirty = rng.random() < 0.25
        return {'script': 'merge', 'fmus': fmus, 'svgs': [rng.choice(DOCUMENTED) + '/p%d.svg' % j for j in range(rng.randint(0, 2))],
                'dirty': dirty, 'tag': rng.choice(['', '', 'v0.0.39', 'v1.2']), 'hash': rng.choice(['1a2b3c4', '06dbf96', '']),
                'fail': [rng.choice(['simulate', 'validate']), rng.randint(0, 3)] if rng.random() < 0.15 else None,
                'native': rng.choice(['x86_64-linux', 'x86_64-linux', 'x86_64-darwin', 'x86_64-windows'])}

    def gen_build(self, rng):
        p = rng.choice(PLATFORMS)
        return {'script': 'build', 'platform': p if rng.random() < 0.95 else rng.choice(['', 'x86', 'arm-linux', 'x86_64', 'linux64']),
                'generator': rng.choice([None, None, 'Visual Studio 16 2019', 'Visual Studio 17 2022']),
                'fmus': [[v, 'M%d' % j] for v in (2, 3) for j in range(rng.choice([0, 1, 2, 5]))],
                'stale': [rng.choice(['build/fmi2-', 'build/fmi3-']) + rng.choice(PLATFORMS + [p, p]) + rng.choice(['/old.txt', '/install/Old.fmu', '/CMakeCache.txt'])
                          for _ in range(rng.randint(0, 4))]
                + ['build/fmus/' + rng.choice(['2.0/Old.fmu', '3.0/Old.fmu', '3.0/M0.fmu', '2.0/M1.fmu', '1.0/Old.fmu', 'keep.txt']) for _ in range(rng.randint(0, 4))]
                + ['src/keep.c', 'build/keep.py'],
                'fail': rng.randint(0, 3) if rng.random() < 0.15 else None,
                'git': rng.choice(['clean', 'dirty', 'none'])}

    def run(self, case):
        d = script.scratch()
        try:
            os.makedirs(os.path.join(d, 'tmp'))
            os.makedirs(os.path.join(d, 'build'))
            return (self.merge if case['script'] == 'merge' else self.build)(case, d)
        finally:
            script.remove(d)

    def write(self, d, p, s):
        q = os.path.join(d, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'wb') as f:
            f.write(s if isinstance(s, bytes) else s.encode())

    # ---- build.py

    def build(self, case, d):
        for p in case['stale']:
            self.write(d, p, 'old ' + p)
        script.give(d)
        before = script.tree(d)
        calls = [0]

        def prepare(rec):
            def command(a):
                if a[0] == 'git':
                    if case['git'] == 'none':
                        raise FileNotFoundError('git')
                    return 0, ' M src/FMI.c\n' if a[1] == 'status' and case['git'] == 'dirty' else '1a2b3c4\n' if a[1] == 'rev-parse' else ''
                rec.append(a)
                calls[0] += 1
                if case['fail'] == calls[0] - 1:
                    return 1, ''
                if '--build' in a:
                    b = a[a.index('--build') + 1]
                    rec[-1].append('files: %s' % ' '.join(sorted(os.path.relpath(os.path.join(x, f), b) for x, _, y in os.walk(b) for f in y)))
                    v = self.of(rec[-2], 'FMI_VERSION')
                    pre = self.of(rec[-2], 'CMAKE_INSTALL_PREFIX')
                    if pre and 'install' in a:
                        os.makedirs(pre, exist_ok=True)
                        for w, m in case['fmus']:
                            if str(w) == v:
                                with open(os.path.join(pre, m + '.fmu'), 'w') as f:
                                    f.write('new %s %s %s' % (v, m, case['platform']))
                        with open(os.path.join(pre, 'readme.txt'), 'w') as f:
                            f.write('no FMU')
                return 0, ''
            script.commands(command)

        argv = ([case['platform']] if case['platform'] else []) + (['--cmake-generator', case['generator']] if case['generator'] else [])
        st, out, rec = script.run(os.path.join(build.REPO, 'build', 'build.py'), d, 'build.py', argv, prepare)
        after = script.tree(d)
        p = case['platform']
        if p not in PLATFORMS:
            core.require(st not in (0,) and not rec and after == before, 'platform %r: status %r, commands %r', p, st, rec)
            return {'nontrivial': False, 'classes': ['wrong platform']}
        vs = [2, 3] if p in BOTH else [3]
        if case['fail'] is not None and case['fail'] < 2 * len(vs):
            core.require(st != 0, 'success although the command %r failed', rec[-1:])
            vs = vs[:case['fail'] // 2]     # completed before
            done = False
        else:
            core.require(st == 0, 'build.py %s ends with %r', ' '.join(argv), st)
            core.require(len(rec) == 2 * len(vs), 'build.py %s runs %r', ' '.join(argv), rec)
            done = True
        arch, system = p.split('-')
        for j, v in enumerate(vs):
            a, b = rec[2 * j:2 * j + 2]
            bd = self.arg(a, '-B')
            core.require(a[0] == 'cmake' and bd and d in a, 'configured by %r', a)
            core.require(os.path.dirname(os.path.abspath(bd)) == os.path.join(d, 'build'), 'build directory %r', bd)
            core.require(self.of(a, 'FMI_VERSION') == str(v) and self.of(a, 'FMI_ARCHITECTURE') == arch, '%s, FMI %d.0 is configured by %r', p, v, a)
            core.require((self.arg(a, '-G') == (case['generator'] or 'Visual Studio 17 2022') and self.arg(a, '-A') == {'x86': 'Win32', 'x86_64': 'x64'}[arch])
                         if system == 'windows' else '-G' not in a and '-A' not in a, '%s is configured by %r', p, a)
            t = self.of(a, 'CMAKE_TOOLCHAIN_FILE')
            core.require(t == os.path.join(d, 'build', 'aarch64-linux-toolchain.cmake') if p == 'aarch64-linux' else t is None, '%s is configured by %r', p, a)
            core.require(self.of(a, 'CMAKE_OSX_ARCHITECTURES') == ({'x86_64': 'x86_64', 'aarch64': 'arm64'}[arch] if system == 'darwin' else None),
                         '%s is configured by %r', p, a)
            core.require(b[:2] == ['cmake', '--build'] and os.path.abspath(b[2]) == os.path.abspath(bd) and self.arg(b, '--target') == 'install'
                         and self.arg(b, '--config') == 'Release', 'built by %r', b)
            core.require(b[-1] == 'files: ', 'the build directory had the %s when it was configured', b[-1])
            got = {q: x.decode() for q, x in after.items() if q.startswith('build/fmus/%d.0/' % v)}
            want = {'build/fmus/%d.0/%s.fmu' % (v, m): 'new %d %s %s' % (v, m, p) for w, m in case['fmus'] if w == v}
            core.require(got == want, 'FMI %d.0: the FMUs are %r, expected %r', v, got, want)
        touched = ['build/fmi%d-%s/' % (v, p) for v in (2, 3)] + ['build/fmus/%d.0/' % v for v in vs]
        for q, x in before.items():
            if not q.startswith(tuple(touched)):
                core.require(after.get(q) == x, '%s is removed or changed', q)
        for q in after:
            core.require(q in before or q.startswith(tuple(touched)), '%s is created', q)
        return {'nontrivial': done and bool(case['fmus']), 'classes': ['build ' + p]}

    def arg(self, a, k):
        return a[a.index(k) + 1] if k in a[:-1] else None

    def of(self, a, name):
        for x in a:
            m = re.fullmatch(r'(?:-D)?%s(?::\w+)?=(.*)' % name, x)
            if m:
                return m.group(1)

    # ---- merge_binaries.py

    def archive(self, case, v, m, n, tool, bits, p):
        """the files of the FMU for a platform"""
        arch, system = p.split('-')
        t = p if v == '3.0' else {'windows': 'win', 'linux': 'linux', 'darwin': 'darwin'}[system] + ('32' if arch == 'x86' else '64')
        f = {'modelDescription.xml': '<fmiModelDescription\n  fmiVersion="%s"\n  modelName="%s"\n  %s>\n</fmiModelDescription>\n'
             % (v, m, 'generationTool="Other (development build)"' if tool else TOOL),
             'binaries/%s/%s.%s' % (t, m, LIB[system]): '%s %s %s %d' % (p, v, m, bits)}
        for j in range(n):
            f[('sources/model%d.c', 'resources/y%d.txt', 'extra/org.x/a%d.xml')[(bits >> j) % 3] % j] = 'common %s %s %d %d' % (v, m, j, bits)
        if bits & 4096:
            f['binaries/%s/extra-%s.txt' % (t, p)] = 'only for ' + p
        return f

    def merge(self, case, d):
        inp = {}
        for v, m, n, tool, bits in case['fmus']:
            for p in PLATFORMS if v == '3.0' else BOTH:
                f = self.archive(case, v, m, n, tool, bits, p)
                q = os.path.join(d, 'dist-' + p, v, m + '.fmu')
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with zipfile.ZipFile(q, 'w') as z:
                    for k, x in f.items():
                        z.writestr(k, x)
                inp.setdefault((v, m), {}).update(f)
            self.write(d, m + '/readme.md', 'readme of ' + m)
        for p in case['svgs']:
            self.write(d, p, 'plot ' + p)
        if any(v == '3.0' for v, *_ in case['fmus']):
            self.write(d, 'dist-x86_64-windows/3.0/note.txt', 'no FMU')
        for p in ('LICENSE.txt', 'README.md', 'template.html'):
            self.write(d, p, p + ' text')
        script.give(d)
        before = script.tree(d)

        def prepare(rec):
            n = {'simulate': 0, 'validate': 0}

            def command(a):
                if a[0] == 'git':
                    return 0, {'status': ' M src/FMI.c\n' if case['dirty'] else '', 'tag': case['tag'] + '\n', 'rev-parse': case['hash'] + '\n'}[a[1]]
                rec.append(a)
                q = a[1]
                n[q] += 1
                if case['fail'] and case['fail'][0] == q and case['fail'][1] == n[q] - 1:
                    return 1, ''
                if q == 'simulate':
                    with open(a[a.index('--output-file') + 1], 'w') as f:
                        f.write('result of ' + a[-1])
                elif not zipfile.is_zipfile(a[-1]):
                    return 1, ''
                return 0, ''
            script.commands(command)

            def read(f):
                with open(f) as g:
                    return g.read()

            def plot_result(result, filename=None, **k):
                with open(filename, 'w') as f:
                    f.write('plot of ' + result)

            class Template:
                def __init__(self, name):
                    self.globals, self.name = {}, name

                def render(self, model_name, content, model_description, params, **k):
                    return '%s|%s|%s|%s|%s' % (self.name, model_name, content, model_description, params)

            def mod(name, **k):
                sys.modules[name] = x = types.ModuleType(name)
                x.__dict__.update(k)
            import datetime
            mod('pytz', utc=datetime.timezone.utc)
            mod('fmpy', platform_tuple=case['native'], read_csv=read, plot_result=plot_result,
                read_model_description=lambda f: 'description of %s' % f)
            mod('jinja2', FileSystemLoader=lambda searchpath: str(searchpath),
                Environment=lambda loader, **k: types.SimpleNamespace(get_template=lambda n: Template(loader + '/' + n)))
            mod('markdown2', markdown_path=lambda p, **k: read(p))

        st, out, rec = script.run(os.path.join(build.REPO, 'build', 'merge_binaries.py'), d, 'merge_binaries.py', (), prepare)
        after = script.tree(d)
        sims = [a for a in rec if a[1] == 'simulate']
        vals = [a for a in rec if a[1] == 'validate']
        failed = case['fail'] and case['fail'][1] < {'simulate': len(sims), 'validate': len(vals)}[case['fail'][0]]
        if failed:
            core.require(st != 0, 'success although %r failed', case['fail'])
        else:
            core.require(st == 0, 'merge_binaries.py ends with %r', st)
            want = sorted('dist-merged/%s/%s.fmu' % k for k in inp)
            core.require(sorted(p for p in after if p.startswith('dist-merged/') and p.endswith('.fmu')) == want,
                         'the merged FMUs are %r, expected %r', [p for p in after if p.startswith('dist-merged/')], want)
            for k, files in inp.items():
                self.merged(case, d, *k, files, sims)
            core.require(sorted(os.path.relpath(a[-1], d) for a in vals) == want and all(a[0] == 'fmusim' for a in vals), 'validated are %r', vals)
            for p in ('LICENSE.txt', 'README.md'):
                core.require(after.get('dist-merged/' + p) == before[p], '%s is not part of the release', p)
            core.require(not os.listdir(os.path.join(d, 'tmp')), 'temporary files remain: %r', os.listdir(os.path.join(d, 'tmp')))
        for p, x in before.items():
            core.require(after.get(p) == x, '%s is removed or changed', p)
        for p in after:
            core.require(p in before or p.startswith(('dist-merged/', 'tmp/')) or p.endswith('_ref.csv') and p.startswith('dist-' + case['native']), '%s is created', p)
        return {'nontrivial': bool(inp) and not failed, 'classes': ['merge', 'dirty' if case['dirty'] else 'clean'] + (['failed'] if failed else [])}

    def merged(self, case, d, v, m, files, sims):
        name = '%s/%s.fmu' % (v, m)
        with zipfile.ZipFile(os.path.join(d, 'dist-merged', name)) as z:
            names = [x for x in z.namelist() if not x.endswith('/')]
            core.require(len(names) == len(set(names)) and z.testzip() is None, '%s: the archive is damaged: %r', name, names)
            got = {x: z.read(x).decode() for x in names}
        doc = {x for x in got if x.startswith('documentation/')}
        core.require(set(got) - doc == set(files), '%s contains %r, expected %r', name, sorted(set(got) - doc), sorted(files))
        for p, x in files.items():
            if p != 'modelDescription.xml':
                core.require(got[p] == x, '%s: %s is %r, was %r', name, p, got[p], x)
        x, y = files['modelDescription.xml'], got['modelDescription.xml']
        ver = '' if case['dirty'] else case['tag'] or case['hash']
        if m in DOCUMENTED or x != y:
            if ver and TOOL in x:
                dates = DATE.findall(y)
                core.require(len(dates) == 1 and DATE.sub('', y) == x.replace('(development build)', '(%s)' % ver), '%s: the description is %r, was %r', name, y, x)
            else:
                core.require(x == y, '%s: the description is %r, was %r', name, y, x)
        if m not in DOCUMENTED:
            core.require(not doc, '%s contains %r', name, doc)
            return
        fmu = os.path.join(d, 'dist-' + case['native'], name)
        s = [a for a in sims if a[-1] == fmu]
        core.require(len(s) == 1 and s[0][:2] == ['fmusim', 'simulate'] and self.arg(s[0], '--interface-type') == 'me'
                     and float(self.arg(s[0], '--output-interval') or 0) > 0, '%s: simulated by %r', name, s)
        want = {'documentation/' + os.path.basename(p): 'plot ' + p for p in case['svgs'] if p.startswith(m + '/')}
        want['documentation/result.svg'] = 'plot of result of ' + fmu
        html = got.get('documentation/index.html')
        core.require(html is not None, '%s has no documentation', name)
        for q in (d + '/template.html', '|%s|' % m, 'readme of ' + m, 'description of ' + fmu, self.arg(s[0], '--output-interval')):
            core.require(q in html, '%s: %r is not in the documentation %r', name, q, html)
        core.require({p: q for p, q in got.items() if p in doc and p != 'documentation/index.html'} == want,
                     '%s: the documentation is %r, expected %r', name, doc, want)


PROP = P36()
