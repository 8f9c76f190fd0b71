"""P21: the Resource FMU reads its resource file from any location."""
import os
import shutil
import tempfile

from .. import api, core

LIMIT = 4095                    # longest path the platform accepts
NAMES = [b'a', b'res', b'my dir', b'100%', b'%41', b'%', b'%%', b'a+b', b'\xc3\xa4\xe2\x82\xac', b'\xff\xfe', b'#frag', b'q?x=1',
         b'..x', b' ', b'\t', b'\n', b'back\\slash', b'co:lon', b'"quo"', b'%2', b'%zz', b'%00', b'%s%n', b'y.txt.d', b'~', b'&;=']
UNRESERVED = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~/'
_scratch = [None, None]


def scratch():
    if _scratch[0] != os.getpid():
        _scratch[0] = os.getpid()
        _scratch[1] = os.path.realpath(tempfile.mkdtemp(prefix='vt-res-')).encode()
    return _scratch[1]


class P21(core.Prop):
    id = 'P21'
    kinds = ('asan',)
    sanitize = True
    counts = {'quick': 80000, 'thorough': 700000}
    shrink_lists = ('names',)
    rule = ('a case creates a resource directory with a generated path and file content and initializes the FMU with a generated '
            'spelling of the location, or with a generated missing, malformed or over-long location; every case is non-trivial; '
            'distinct by path, spelling, content and kind of location')
    technique = 'generated file system paths and URI spellings, oracle: the content of the file that was created (AddressSanitizer build)'
    assumptions = ('the first byte of y.txt is an ASCII character', 'POSIX paths')

    def gen(self, rng, i, tier):
        v = 2 + i % 2
        kind = rng.choices(['ok', 'long-ok', 'nodir', 'nofile', 'toolong', 'malformed', 'null'], [50, 10, 7, 5, 12, 12, 2])[0]
        names = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.4:
                n = rng.choice(NAMES)
            elif k < 0.7:
                n = bytes(rng.choice(b'abcXYZ 0129%_-.+\xc3\xa9') for _ in range(rng.randint(1, 30)))
            else:
                n = bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 60)))
            n = n.replace(b'/', b'_')
            names.append((b'x' if n in (b'.', b'..') else n).hex())
        c = {'v': v, 'iface': rng.choice(['ME', 'CS']), 'kind': kind, 'names': names,
             'byte': rng.choice([0, 1, 10, 13, 26, 32, 48, 65, 97, 126, 127, rng.randint(0, 127)]),
             'rest': rng.choice([0, 0, 1, 5, 5000]), 'again': rng.random() < 0.3}
        if kind == 'long-ok':
            c['total'] = LIMIT - rng.choice([0, 0, 0, 1, 2, 5, 6, 7, rng.randint(0, 300), rng.randint(300, 3500)])
        elif kind == 'toolong':
            c['total'] = LIMIT + rng.choice([1, 1, 1, 2, 3, 5, 6, 7, 10, rng.randint(1, 300), rng.randint(1, 9000)])
            c['how'] = rng.choice(['slashes', 'dots', 'name', 'updown'])
        if v == 2:
            c['scheme'] = rng.choice(['file:///', 'file:///', 'file:/'])
            c['enc'] = rng.choice(['none', 'min', 'all', 'some', 'lower', 'slashes'])
            c['encseed'] = rng.randint(0, 999999)
            c['tail'] = rng.choice(['', '', '/'])
            if kind == 'malformed':
                c['bad'] = rng.choice(['scheme', 'percent', 'percent', 'nul'])
                c['what'] = rng.choice(['', '/', 'http:/', 'file:', 'file', 'fil:/', 'ffile:/', ' file:/', 'ftp:///', 'file:x/', 'file;/']) \
                    if c['bad'] == 'scheme' else \
                    rng.choice(['%', '%4', '%zz', '%4g', '%g4', '%-1', '%+4', '% 4', '%0x', '%x4', '%/4', '%%', '%:0', '%G0', '%0G', '%@1', '%`1', '%\x7f1',
                                '%\xff1']) if c['bad'] == 'percent' else '%00'
                c['where'] = rng.choice(['end', 'end', 'mid'])
        elif kind == 'malformed':
            c['bad'] = rng.choice(['nosep', 'empty'])
        return c

    def path(self, root, c):
        """the directory, as a list of names below root"""
        names = [bytes.fromhex(n) for n in c['names']]
        if c['kind'] == 'long-ok':
            # root + '/' + names joined + '/y.txt' has c['total'] bytes
            n = c['total'] - len(b'/y.txt') - len(root) - sum(len(x) + 1 for x in names)
            while n > 0:
                k = min(n - 1, 200)
                if n - 1 - k == 1:
                    k -= 1
                if k < 1:
                    break
                names.append(b'd' * k)
                n -= k + 1
        return names

    def spell(self, c, p):
        import random
        if c['v'] == 3:
            return p + b'/'
        e = c['enc']
        r = random.Random(c['encseed'])
        out = b''
        for b in p[1:]:
            must = b == 37
            if e == 'all':
                q = True
            elif e == 'some':
                q = must or r.random() < 0.4
            elif e == 'none':
                q = must
            elif e == 'slashes':
                q = must or b == 47
            else:
                q = must or b not in UNRESERVED
            if q:
                h = b'%%%02X' % b
                if e == 'lower' or (e == 'some' and r.random() < 0.5):
                    h = h.lower()
                out += h
            else:
                out += bytes([b])
        return c['scheme'].encode() + out + c['tail'].encode()

    def run(self, c):
        root = scratch()
        try:
            return self.go(c, root)
        finally:
            for n in os.listdir(root):
                shutil.rmtree(os.path.join(root, n), ignore_errors=True)
            if not os.listdir(root):
                os.rmdir(root)
                _scratch[0] = None

    def create(self, root, names, c, with_file=True):
        fd = os.open(root, os.O_RDONLY)
        try:
            for n in names:
                os.mkdir(n, dir_fd=fd)
                g = os.open(n, os.O_RDONLY, dir_fd=fd)
                os.close(fd)
                fd = g
            if with_file:
                self.write(fd, c['byte'], c['rest'])
            return os.dup(fd)
        finally:
            os.close(fd)

    def write(self, fd, byte, rest):
        g = os.open('y.txt', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644, dir_fd=fd)
        os.write(g, bytes([byte]) + b'Z' * rest)
        os.close(g)

    def go(self, c, root):
        v, kind = c['v'], c['kind']
        names = self.path(root, c)
        if not names:
            raise core.Skip
        p = root + b''.join(b'/' + n for n in names)
        if kind in ('ok', 'long-ok'):
            if v == 2 and c['tail'] and len(p) + 7 > LIMIT:
                c = dict(c, tail='')
            if len(p) + 6 > LIMIT:
                raise core.Skip
        dirfd = None
        if kind != 'nodir':
            dirfd = self.create(root, names, c, kind != 'nofile')
        try:
            loc = self.spell(c, p)
            if kind == 'toolong':
                want = c['total'] - 6
                n = want - len(p)
                fill = {'slashes': b'/', 'dots': b'/.', 'name': b'/' + b'x' * 100, 'updown': b'/../' + (names[-1] if names else b'x')}[c['how']]
                q = p + (fill * (n // len(fill) + 1))[:n]
                q = q[:-1] + b'.' if q.endswith(b'/') and c['how'] != 'slashes' else q
                loc = self.spell(dict(c, tail=''), q)
            elif kind == 'malformed':
                if v == 3:
                    loc = p if c['bad'] == 'nosep' else b''
                elif c['bad'] == 'scheme':
                    loc = c['what'].encode() + loc[len(c['scheme']):]
                    if loc.startswith(b'file:/'):
                        raise core.Skip
                else:
                    w = c['what'].encode('latin-1')
                    if c['where'] == 'end':
                        loc = loc.rstrip(b'/') + w
                        tail = loc[loc.rindex(w):]
                    else:
                        k = len(c['scheme']) + len(root) // 2
                        loc = loc[:k] + w + loc[k:]
                        tail = loc[k:]
                    # the insertion must not complete a valid encoding, e.g. % followed by 41
                    hexd = b'0123456789abcdefABCDEF'
                    t3 = tail[:3]
                    if w != b'%00' and len(t3) == 3 and t3[1] in hexd and t3[2] in hexd:
                        raise core.Skip
            elif kind == 'null':
                loc = None
            good = kind in ('ok', 'long-ok')
            self.check(c, v, loc, good, dirfd)
        finally:
            if dirfd is not None:
                os.close(dirfd)
        cl = ['%d-%s' % (v, kind)]
        if v == 2 and good:
            cl.append('encoding ' + c['enc'])
        if kind == 'malformed':
            cl.append('malformed ' + c['bad'])
        if good and len(loc) > LIMIT:
            cl.append('location longer than the path limit')
        return {'classes': cl}

    def check(self, c, v, loc, good, dirfd):
        a = api.Inst(api.load('asan', v, 'Resource'), c['iface'], resource=False if loc is None else os.fsdecode(loc))
        try:
            for rnd in range(2 if c['again'] else 1):
                st = []
                for op in ([['setup', 0.0]] if v == 2 else []) + [['enterInit'], ['exitInit']]:
                    st.append(a.do(op)[0])
                    if st[-1] > 1:
                        break
                where = 'location %r%s' % (loc, ' (second initialization)' if rnd else '')
                if not good:
                    core.require(st[-1] in (3, 4), '%s: initialization reports no error (%r)', where[:600], st)
                else:
                    core.require(st[-1] == 0, '%s: initialization returned %r, log %r', where, st, a.log[-2:])
                    y = a.do(['get', 'Int32' if v == 3 else 'Integer', [1]])
                    core.require(y == [0, [c['byte'] if not rnd else c['byte'] ^ 1]], '%s: y is %r, the file starts with byte %d', where, y, c['byte'] if not rnd else c['byte'] ^ 1)
                if c['again'] and not rnd:
                    if a.do(['reset'])[0] != 0:
                        return
                    if good:
                        self.write(dirfd, c['byte'] ^ 1, c['rest'])
        finally:
            a.free()


PROP = P21()
