"""P35: the lint script repairs and reports exactly the text defects."""
import os
import re

from .. import build, core, script

DIRS = ['', '', 'src', 'include', 'BouncingBall', 'src/deep/er', 'docs.build', 'fmi', 'venv2', 'x_y']
SKIPPED = ['build', 'fmi2', 'fmi3', 'fmus', 'venv', '.git', '_cache', 'src/build', 'src/.hidden', 'a/_b', 'x/venv/y', 'src/fmi3/deep', 'a/fmus']
TEXT = ['.h', '.c', '.md', '.html', '.csv', '.txt', '.xml', '.C', '.Xml', '.TXT']
OTHER = ['.py', '.cmake', '.yml', '', '.cc', '.hpp', '.fmu', '.tab.c', '.yy.c', '.Tab.c', '.c.bak', '.json']
NL = re.compile('\r\n|\r|\n')


def lines(s):
    q = NL.split(s)
    return q[:-1] if q[-1] == '' else q


def defects(s):
    """the problems of a text, by line"""
    res = []
    for i, l in enumerate(lines(s)):
        if any(ord(c) > 127 for c in l):
            res.append((i, 'Non-ASCII'))
        if l.endswith(' '):
            res.append((i, 'blank'))
        if '\t' in l:
            res.append((i, 'tab'))
    if '\r' in s:
        res.append((-1, 'CR'))
    return res


def same_line(old, new):
    return new.rstrip() == old.rstrip().replace('\t', '    ')


class P35(core.Prop):
    id = 'P35'
    counts = {'quick': 18000, 'thorough': 200000}
    shrink_lists = ('files',)
    kinds = ()
    rule = ('a case is a generated tree of files; non-trivial if at least one of the files the script looks at has a defect; '
            'distinct by names and contents')
    technique = 'generated file trees; relation between the contents before and after the script, its report and exit status'
    assumptions = ('files are valid UTF-8',)

    def line(self, rng):
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 60)])
        s = ''.join(rng.choice('ab c,;x1 (){}"\'#<>&') for _ in range(n))
        k = rng.random()
        if k < self.p:
            q = rng.random()
            j = rng.randint(0, len(s))
            if q < 0.3:
                s += rng.choice([' ', '  ', ' \t', '\t', '\t ', '\x0c', '\x0b ', '     '])
            elif q < 0.6:
                s = s[:j] + rng.choice(['\t', '\t\t', ' \t', '\ta', '\t\tb c']) + s[j:]
            else:
                s = s[:j] + rng.choice(['\xe4', '\u20ac', '\xa0', '\u2028', '\U0001f600', '\x80', '\xdf\xdf', '\ufeff', '\u3000']) + s[j:]
        return s

    def content(self, rng):
        self.p = rng.choice([0, 0, 0.1, 0.3, 0.8])
        n = rng.choice([0, 1, 1, 2, 3, rng.randint(0, 10), rng.randint(0, 40)])
        nl = rng.choice(['\n', '\n', '\n', '\n', '\r\n', '\r', None])
        if rng.random() < 0.004:
            return [rng.choice(['\xe9\n', 'a \u20ac b\r\n', '\xdf \n']), rng.choice([255, 256, 257, 512, 300])]
        s = ''.join(self.line(rng) + (nl or rng.choice(['\n', '\n', '\r\n', '\r'])) for _ in range(n))
        k = rng.random()
        if k < 0.2:
            s += self.line(rng)         # no newline at the end
        elif k < 0.3:
            s += '\n' * rng.randint(1, 3)
        return s

    def gen(self, rng, i, tier):
        files = []
        for j in range(rng.choice([1, 1, 2, 3, 5, 8])):
            d = rng.choice(DIRS if rng.random() < 0.7 else SKIPPED)
            e = rng.choice(TEXT if rng.random() < 0.8 else OTHER)
            files.append([os.path.join(d, 'f%d%s' % (j, e)), self.content(rng)])
        return {'files': files}

    def run(self, case):
        d = script.scratch()
        try:
            files = {}
            for p, s in case['files']:
                s = s if isinstance(s, str) else s[0] * s[1]
                q = os.path.join(d, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, 'wb') as f:
                    f.write(s.encode())
                files[p] = s
            os.makedirs(os.path.join(d, 'build'), exist_ok=True)
            script.give(d)
            src = os.path.join(build.REPO, 'build', 'lint_files.py')
            st, out, _ = script.run(src, d, 'lint_files.py')
            core.require(isinstance(st, int), 'the script ends with %s', st)
            after = {p: b for p, b in script.tree(d).items()}
            core.require(sorted(after) == sorted(files), 'the files are %r, were %r', sorted(after), sorted(files))
            left, n, looked = [], 0, 0
            for p, s in files.items():
                b = after[p]
                try:
                    t = b.decode()
                except UnicodeDecodeError:
                    raise core.Violation('%s is not UTF-8 any more: %r, was %r' % (p, b, s))
                bad = defects(s)
                if not self.checked(p) or not bad:
                    core.require(b == s.encode(), '%s is changed from %r to %r', p, s, t)
                    continue
                n += 1
                old, new = lines(s), lines(t)
                rest = defects(t)
                core.require(all(k == 'Non-ASCII' for _, k in rest), '%s still has the defects %r: %r, was %r', p, rest, t, s)
                core.require(len(old) == len(new) and all(map(same_line, old, new)), '%s is changed from %r to %r', p, s, t)
                core.require(t.endswith('\n'), '%s does not end with a newline: %r', p, t)
                left += [(p, j, new[j]) for j, _ in rest]
            core.require((st == 0) == (not left), 'exit status %d with %d problems left', st, len(left))
            core.require('Total problems found: %d\n' % len(left) in out, 'the number of problems is %d: %r', len(left), out[-300:])
            for p in sorted({p for p, _, _ in left}):
                k = [(j, l) for q, j, l in left if q == p]
                h = '%d problems found in %s:\n' % (len(k), os.path.join(d, p))
                core.require(h in out, 'not reported: %s (%r)', h, out[-600:])
                for j, l in k:
                    w = 'line %d: Non-ASCII characters found:\n%s\n%s' % (j + 1, l, ''.join('^' if ord(c) > 127 else ' ' for c in l).rstrip())
                    core.require(w in out[out.index(h):], '%s: not reported: %s (%r)', p, w, out[-600:])
            # again: nothing changes
            st2, out2, _ = script.run(src, d, 'lint_files.py')
            core.require(st2 == st and script.tree(d) == after, 'a second run ends with %r after %r, or changes files', st2, st)
            return {'nontrivial': n > 0, 'classes': (['problems left'] if left else ['all repaired'] if n else ['nothing to do'])
                    + (['CR'] if any('\r' in s for s in files.values()) else [])
                    + (['skipped files'] if not all(map(self.checked, files)) else [])}
        finally:
            script.remove(d)

    def checked(self, p):
        q = p.split('/')
        return (not any(x in ('build', 'fmi2', 'fmi3', 'fmus', 'venv') or x[0] in '._' for x in q[:-1])
                and p.lower().endswith(('.h', '.c', '.md', '.html', '.csv', '.txt', '.xml')) and not p.lower().endswith(('.tab.c', '.yy.c')))


PROP = P35()
