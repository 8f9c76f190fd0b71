"""P24: the importer's path, URI and memory helpers."""
import ctypes as C

from .. import api, core, imp

LEGAL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~:/?#[]@!$&'()*+,;="
UNRESERVED = LEGAL[:66] + b'/'
ALPHABETS = [LEGAL, UNRESERVED, b' %', b'\x01\t\n\x0f\x10\x1f', bytes(range(0x80, 0x100)), bytes(range(1, 0x100)), 'äö€/😀'.encode(), b'/\\', b'"<>\\^`{|}\x7f']
HEX = b'0123456789abcdefABCDEF'
PLATFORM = {1: b'linux64', 2: b'linux64', 3: b'x86_64-linux'}


def path(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, rng.randint(0, 40), rng.randint(0, 40), rng.randint(40, 400)]) if n is None else n
    if n > 390 and rng.random() < 0.5:
        n = rng.randint(400, 6000)
    out = bytearray()
    while len(out) < n:
        a = rng.choice(ALPHABETS)
        out += bytes(rng.choice(a) for _ in range(rng.randint(1, 8)))
    return bytes(out[:n])


def encoded(p):
    """shortest and longest URI: characters that may stand for themselves, and those that need not"""
    lo = 7 + sum(1 if b in LEGAL else 3 for b in p)
    hi = 7 + sum(1 if b in UNRESERVED else 3 for b in p)
    return lo, hi


def decode(u):
    out, i = bytearray(), 0
    while i < len(u):
        if u[i] == 0x25:
            core.require(i + 2 < len(u) and u[i + 1] in HEX and u[i + 2] in HEX, 'illegal percent encoding at %d in %r', i, u)
            out.append(int(u[i + 1:i + 3], 16))
            i += 3
        else:
            core.require(u[i] in LEGAL, 'byte %d in the URI %r must be encoded', u[i], u)
            out.append(u[i])
            i += 1
    return bytes(out)


class P24(core.Prop):
    id = 'P24'
    kinds = ('importer_asan',)
    sanitize = True
    counts = {'quick': 700000, 'thorough': 8000000}
    shrink_lists = ('ops',)
    rule = ('a case converts a generated path to a URI or composes the path of a binary in a heap block of exactly the stated size, or runs a '
            'generated sequence of allocations; every case is non-trivial; distinct by input, buffer size and sequence')
    technique = 'generated inputs, oracle: decoding, own composition and a model of the memory blocks (AddressSanitizer build)'
    assumptions = ('64-bit Linux', 'valid pointers')

    def gen(self, rng, i, tier):
        part = rng.choices(['uri', 'binary', 'memory'], [45, 35, 20])[0]
        if part == 'uri':
            p = path(rng)
            lo, hi = encoded(p)
            k = rng.random()
            if k < 0.75:
                n = rng.choice([lo, hi, len(p) + 7]) + rng.randint(-6, 6)
            elif k < 0.85:
                n = rng.randint(0, hi + 8)
            else:
                n = rng.choice([4096, 2048, hi + 100])
            return {'part': part, 'path': p.hex(), 'size': max(0, n)}
        if part == 'binary':
            d = path(rng)
            if rng.random() < 0.4:
                d = d.rstrip(b'/\\') + rng.choice([b'/', b'\\', b'//', b'/\\'])
            m = rng.choice([b'BouncingBall', b'm', b'', path(rng, rng.randint(0, 60))])
            v = rng.choice([1, 2, 3, 3])
            n = len(d) + (0 if d[-1:] in (b'/', b'\\') else 1) + 9 + len(PLATFORM[v]) + 1 + len(m) + 3
            k = rng.random()
            s = n + rng.randint(-4, 5) if k < 0.75 else rng.randint(0, n) if k < 0.9 else 4096
            return {'part': part, 'dir': d.hex(), 'id': m.hex(), 'version': v, 'size': max(0, s)}
        ops = []
        for _ in range(rng.randint(1, 10)):
            k = rng.random()
            size = lambda: rng.choice([0, 1, 2, 7, 8, 16, 100, 1023, 1024, rng.randint(0, 5000), rng.randint(0, 300000) if rng.random() < 0.1 else 3])
            if k < 0.35:
                if rng.random() < 0.1:
                    ops.append(['calloc', *rng.choice([[2**63, 2], [2, 2**63], [2**33, 2**33], [2**32 + 1, 2**32], [2**64 - 1, 2**64 - 1], [2**62 + 1, 4]])])
                else:
                    ops.append(['calloc', rng.choice([0, 1, 1, 2, 3, 50, size()]), rng.choice([0, 1, 4, 8, 8, 13])])
            elif k < 0.8:
                ops.append(['realloc', size() if rng.random() < 0.93 else rng.choice([2**62, 2**63, 2**64 - 1, 2**64 - 64])])
            elif k < 0.93:
                ops.append(['free'])
            else:
                ops.append([rng.choice(['calloc null', 'realloc null']), rng.choice([0, 1, 8])])
        return {'part': part, 'ops': ops, 'fill': rng.randint(0, 255)}

    def run(self, case):
        mem = api.Mem()
        try:
            return getattr(self, case['part'])(case, imp.load('importer_asan'), mem)
        finally:
            mem.done()

    def uri(self, case, L, mem):
        p, n = bytes.fromhex(case['path']), case['size']
        lo, hi = encoded(p)
        b = mem.bytes(b'\xa5' * n)
        s = L.uri(mem.bytes(p + b'\0'), b, n)
        what = 'FMIPathToURI(%r, size %d)' % (p, n)
        if s != 0:
            core.require(s == 3, '%s returned %d', what, s)
            core.require(n < hi + 4, '%s fails though the URI has %d characters', what, hi)
            return {'classes': ['uri refused']}
        core.require(n > lo, '%s succeeds though the URI has %d characters', what, lo)
        out = C.string_at(b, n)
        core.require(b'\0' in out, '%s: not null-terminated: %r', what, out)
        u = out[:out.index(b'\0')]
        core.require(u.startswith(b'file://'), '%s gives %r', what, u)
        core.require(decode(u[7:]) == p, '%s gives %r, which is %r', what, u, decode(u[7:]))
        return {'classes': ['uri', 'uri tight'] if n <= hi + 4 else ['uri']}

    def binary(self, case, L, mem):
        d, m, v, n = bytes.fromhex(case['dir']), bytes.fromhex(case['id']), case['version'], case['size']
        rest = b'binaries/' + PLATFORM[v] + b'/' + m + b'.so'
        ok = [d + rest] if d[-1:] in (b'/', b'\\') else [d + b'/' + rest] if d else [rest, b'/' + rest]
        b = mem.bytes(b'\xa5' * n)
        s = L.binpath(mem.bytes(d + b'\0'), mem.bytes(m + b'\0'), v, b, n)
        what = 'FMIPlatformBinaryPath(%r, %r, %d, size %d)' % (d, m, v, n)
        fits = [len(x) < n for x in ok]
        if s != 0:
            core.require(s == 3, '%s returned %d', what, s)
            core.require(not all(fits), '%s is refused', what)
            return {'classes': ['binary refused']}
        core.require(any(fits), '%s is not refused', what)
        out = C.string_at(b, n)
        core.require(any(out.startswith(x + b'\0') for x in ok), '%s gives %r', what, out)
        return {'classes': ['binary', 'binary tight'] if n <= len(ok[0]) + 2 else ['binary']}

    def memory(self, case, L, mem):
        rt = C.CDLL(None)
        owned, size_of = rt['__sanitizer_get_ownership'], rt['__sanitizer_get_allocated_size']
        for f in (owned, size_of):
            f.argtypes, f.restype = [C.c_void_p], C.c_size_t
        p = C.c_void_p(None)
        content = None              # of the block p points to
        cl = set()
        k = [case['fill']]

        def pattern(n):
            k[0] = (k[0] * 5 + 7) & 255
            return bytes([k[0], k[0] ^ 0xff, 17, k[0] ^ 3]) * (n // 4 + 1)

        def block(what, n):
            core.require(p.value, '%s gives no memory', what)
            core.require(owned(p.value) and size_of(p.value) >= n, '%s gives a block of %d bytes', what, size_of(p.value) if owned(p.value) else 0)

        try:
            for op in case['ops']:
                what = '%s%r' % (op[0], tuple(op[1:]))
                old = p.value
                if op[0] == 'free':
                    L.mfree(C.byref(p))
                    core.require(not p.value, 'the pointer is not null after FMIFree')
                    core.require(not old or not owned(old), 'FMIFree does not release the memory')
                    content = None
                elif op[0] == 'calloc null':
                    s = L.calloc(None, 1, op[1])
                    core.require(s == 3, '%s returned %d', what, s)
                elif op[0] == 'realloc null':
                    s = L.realloc(None, op[1])
                    core.require(s == 3, '%s returned %d', what, s)
                elif op[0] == 'calloc':
                    L.mfree(C.byref(p))
                    content = None
                    if p.value:
                        break
                    p.value = 0xdead
                    n = op[1] * op[2]
                    s = L.calloc(C.byref(p), op[1], op[2])
                    if n >= 2**40:
                        cl.add('too large')
                        p.value = None
                        core.require(s == 3, '%s returned %d', what, s)
                    elif n == 0:
                        cl.add('zero size')
                        core.require(s == 0, '%s returned %d', what, s)
                        if p.value:
                            core.require(owned(p.value), '%s leaves the pointer %r', what, p.value)
                        content = b'' if p.value else None
                    else:
                        if s != 0:
                            p.value = None
                        core.require(s == 0, '%s returned %d', what, s)
                        block(what, n)
                        core.require(C.string_at(p.value, n) == bytes(n), '%s gives memory that is not zero', what)
                        content = pattern(n)[:n]
                        C.memmove(p.value, content, n)
                else:
                    n = op[1]
                    s = L.realloc(C.byref(p), n)
                    if n >= 2**40:
                        cl.add('too large')
                        core.require(s == 3, '%s returned %d', what, s)
                        core.require(p.value == old, '%s changes the pointer', what)
                        if content:
                            core.require(owned(old) and C.string_at(old, len(content)) == content, '%s damages the block', what)
                        continue
                    core.require(s == 0, '%s returned %d', what, s)
                    if n == 0:
                        cl.add('zero size')
                        core.require(not p.value, '%s leaves the pointer', what)
                        core.require(not old or not owned(old), '%s does not release the memory', what)
                        content = None
                        continue
                    block(what, n)
                    m = min(n, len(content or b''))
                    core.require(not m or C.string_at(p.value, m) == content[:m], '%s loses the content', what)
                    cl.add('grow' if content and n > len(content) else 'realloc')
                    content = pattern(n)[:n]
                    C.memmove(p.value, content, n)
        finally:
            if p.value and owned(p.value):
                api._libc.free(p.value)
        return {'classes': ['memory'] + sorted(cl)}


PROP = P24()
