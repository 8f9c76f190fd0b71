"""The engine: generates cases, runs them in worker processes, shrinks and
confirms failures, writes the evidence file."""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import build
from .api import InstantiationFailed

ROOT = build.ROOT
WORKERS = 8
SANITIZED = 'VT_SANITIZED'


class Violation(Exception):
    pass


class Skip(Exception):
    """the case turned out to be outside the domain of the property"""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Prop:
    id = None
    kinds = ('plain',)
    sanitize = False
    counts = {'quick': 1000, 'thorough': 10000}
    hang_s = 40
    shrink_lists = ('ops',)
    rule = 'the case reached the situation the property is about'
    technique = ''
    assumptions = ()
    repeats = 1          # a case is run this often when replayed (schedules)

    def setup(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def prefork(self, tier, seed):
        """additional engines; returns dict merged into the coverage, may raise Violation"""
        return {}


def rng_for(seed, pid, i):
    h = hashlib.sha256(('%s/%s/%s' % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'little'))


def load_prop(pid):
    return importlib.import_module('vt.props.' + pid.lower()).PROP


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _short(x, n=900):
    s = canon(x)
    return json.loads(s) if len(s) <= n else s[:n] + '...'


# --- running a case in a child -------------------------------------------------

def run_child(prop, cases, timeout=None):
    """Run cases one after another in one forked child. Returns None or a message."""
    timeout = timeout or prop.hang_s
    r, w = os.pipe()
    err = tempfile.TemporaryFile()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.dup2(err.fileno(), 2)
            os.dup2(err.fileno(), 1)
            n = len(cases)
            for j, case in enumerate(cases):
                try:
                    for _ in range(prop.repeats if j == n - 1 else 1):
                        prop.run(case)
                except (Skip, InstantiationFailed):
                    pass
                except Violation as e:
                    if j == n - 1:
                        os.write(w, str(e).encode()[:60000])
                        code = 1
        except BaseException:
            os.write(w, ('internal error: ' + traceback.format_exc()).encode()[:60000])
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    status = None
    while time.time() - t0 < timeout:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        time.sleep(0.002)
    if status is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        return 'call does not return (hang)'
    msg = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    err.seek(0)
    tail = err.read().decode(errors='replace')
    if os.WIFSIGNALED(status):
        return 'crash: signal %d\n%s' % (os.WTERMSIG(status), tail[-3000:])
    code = os.WEXITSTATUS(status)
    if code == 0:
        return None
    if code == 1:
        return msg.decode(errors='replace')
    if code == 3:
        raise RuntimeError(msg.decode(errors='replace'))
    return 'crash: exit %d\n%s' % (code, san_summary(tail))


def san_summary(t):
    i = t.find('ERROR: AddressSanitizer')
    if i < 0:
        i = t.find('runtime error')
        i = max(0, i - 200)
    return t[i:i + 2500]


# --- shrinking -----------------------------------------------------------------

def ddmin(items, fails, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        k = 0
        while k < len(items) and time.time() < deadline:
            cand = items[:k] + items[k + size:]
            if fails(cand):
                items = cand
                reduced = True
            else:
                k += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def shrink(prop, case, deadline):
    best = case
    for key in prop.shrink_lists:
        if not isinstance(best.get(key), list):
            continue

        def fails(cand):
            c = dict(best)
            c[key] = cand
            try:
                return run_child(prop, [c]) is not None
            except RuntimeError:
                return False
        items = ddmin(best[key], fails, deadline)
        best = dict(best)
        best[key] = items
    return best


# --- workers -------------------------------------------------------------------

def worker(prop, w, W, N, seed, tier, prog, out, cap, errfile):
    os.dup2(errfile, 2)
    ev = 0
    skipped = 0
    nontriv = set()
    classes = {}
    samples = []
    fail = None
    t_end = time.time() + cap
    for i in range(w, N, W):
        lowest = struct.unpack_from('<q', prog, 0)[0]
        if lowest >= 0 and i > lowest:
            break
        if time.time() > t_end:
            break
        struct.pack_into('<q', prog, 64 + 8 * w, i)
        rng = rng_for(seed, prop.id, i)
        try:
            case = prop.gen(rng, i, tier)
            info = prop.run(case) or {}
        except (Skip, InstantiationFailed):
            skipped += 1
            continue
        except Violation as e:
            fail = (i, str(e))
            cur = struct.unpack_from('<q', prog, 0)[0]
            if cur < 0 or i < cur:
                struct.pack_into('<q', prog, 0, i)
            break
        except Exception:
            fail = (i, 'INTERNAL ' + traceback.format_exc())
            break
        ev += 1
        for c in info.get('classes', ()):
            classes[c] = classes.get(c, 0) + 1
        if info.get('nontrivial', True):
            nontriv.add(hashlib.sha1((info.get('key') or canon(case)).encode()).digest()[:10])
            if len(samples) < 2:
                samples.append((i, _short(case)))
    struct.pack_into('<q', prog, 64 + 8 * w, -2)
    with open(out, 'wb') as f:
        pickle.dump((ev, skipped, nontriv, classes, samples, fail), f)
        f.flush()
    os._exit(0)


def run_workers(prop, N, seed, tier, tmp):
    W = min(WORKERS, max(1, N))
    prog = mmap.mmap(-1, 4096)
    struct.pack_into('<q', prog, 0, -1)
    cap = 780 if tier == 'quick' else 7200
    pids = {}
    errs = []
    last = []
    for w in range(W):
        struct.pack_into('<q', prog, 64 + 8 * w, -1)
        e = open(os.path.join(tmp, 'err%d' % w), 'w+b')
        errs.append(e)
        last.append((-1, time.time()))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, w, W, N, seed, tier, prog, os.path.join(tmp, 'out%d' % w), cap, e.fileno())
            except BaseException:
                traceback.print_exc()
            os._exit(97)
        pids[pid] = w
    crashed = []
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid:
            w = pids.pop(pid, None)
            if w is None:
                continue
            cur = struct.unpack_from('<q', prog, 64 + 8 * w)[0]
            if st != 0 and cur != -2:
                errs[w].seek(0)
                tail = errs[w].read().decode(errors='replace')
                why = 'signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
                if last[w][0] == 'hung':
                    why = 'call does not return (hang)'
                crashed.append((cur, 'crash: %s\n%s' % (why, san_summary(tail))))
                low = struct.unpack_from('<q', prog, 0)[0]
                if low < 0 or cur < low:
                    struct.pack_into('<q', prog, 0, cur)
            continue
        now = time.time()
        for p, w in list(pids.items()):
            cur = struct.unpack_from('<q', prog, 64 + 8 * w)[0]
            if cur != last[w][0] and last[w][0] != 'hung':
                last[w] = (cur, now)
            elif last[w][0] != 'hung' and now - last[w][1] > prop.hang_s:
                last[w] = ('hung', now)
                os.kill(p, signal.SIGKILL)
        time.sleep(0.01)
    res = []
    for w in range(W):
        try:
            res.append(pickle.load(open(os.path.join(tmp, 'out%d' % w), 'rb')))
        except Exception:
            pass
    fails = [r[5] for r in res if r[5]] + crashed
    return W, res, sorted(fails, key=lambda f: f[0])


# --- main ----------------------------------------------------------------------

def reexec_sanitized():
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()
    lib = os.path.realpath(lib)
    env = dict(os.environ)
    env['LD_PRELOAD'] = lib
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0:' \
                          'quarantine_size_mb=16:symbolize=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99:symbolize=0'
    env['PYTHONMALLOC'] = 'malloc' if False else 'default'
    env[SANITIZED] = '1'
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def findings(pid):
    """listed known findings: id -> text"""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                fid, text = line.split(' ', 2)[2].split(' ', 1)
                out[fid] = text
    return out


def main(argv):
    pid = argv[0].upper()
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    prop = load_prop(pid)
    if prop.sanitize and not os.environ.get(SANITIZED):
        reexec_sanitized()
    if prop.sanitize:
        from . import api
        api.Mem.exact = True
        del os.environ['LD_PRELOAD']     # children (compilers) run without it
    t0 = time.time()
    try:
        for k in prop.kinds:
            build.ensure_cached(k)
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        return 2
    os.nice(0)
    prop.known = findings(pid)
    prop.tier = tier
    prop.seed = seed
    prop.setup()

    if replay:
        d = json.load(open(replay))
        if d.get('engine'):
            msg = prop.replay_engine(d)
        else:
            with tempfile.TemporaryDirectory(prefix='vt-%s-' % pid) as tempfile.tempdir:
                msg = run_child(prop, d['history'] + [d['case']])
        if msg is None:
            print('replay passes')
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1

    for fid, text in prop.known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, text))

    N = prop.counts[tier]
    if os.environ.get('VT_COUNT'):
        N = int(os.environ['VT_COUNT'])
    tmp = tempfile.tempdir = tempfile.mkdtemp(prefix='vt-%s-' % pid)
    extra = {}
    viol = None
    try:
        try:
            extra = prop.prefork(tier, seed, tmp) if prop.prefork.__func__ is not Prop.prefork else {}
        except Violation as e:
            viol = {'msg': str(e), 'engine': getattr(e, 'engine', None), 'history': [], 'case': getattr(e, 'case', None)}
        if viol is None:
            W, res, fails = run_workers(prop, N, seed, tier, tmp)
        else:
            W, res, fails = 0, [], []
        unconfirmed = []
        for i, msg in fails[:5]:
            if msg.startswith('INTERNAL'):
                print(msg)
                return 3
            viol = confirm(prop, i, msg, W, seed, tier)
            if viol:
                break
            unconfirmed.append({'index': i, 'message': msg[:500]})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    ev = sum(r[0] for r in res)
    nontriv = set()
    classes = {}
    samples = []
    for r in res:
        nontriv |= r[2]
        for k, v in r[3].items():
            classes[k] = classes.get(k, 0) + v
        samples += r[4]
    samples = [s for _, s in sorted(samples, key=lambda x: x[0])][:4]
    evals = ev + extra.get('evaluations', 0)
    cov = {'evaluations': evals, 'distinct_nontrivial': len(nontriv) + extra.get('distinct_nontrivial', 0),
           'rule': prop.rule, 'samples': samples + extra.get('samples', [])}
    if viol:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', '%s-%s-%d.json' % (pid, tier, seed))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'message': viol['msg'], 'engine': viol.get('engine'),
                       'history': viol['history'], 'case': viol['case']}, f, indent=1)
        if not cov['samples']:
            cov['samples'] = [_short(viol['case'])]
        cov['evaluations'] = max(1, cov['evaluations'])
    evid = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
            'wall_s': round(time.time() - t0, 2),
            'violations': [{'message': viol['msg'][:2000], 'replay': path}] if viol else []}
    if prop.assumptions:
        evid['assumptions'] = list(prop.assumptions)
    extra_cov = {'classes': dict(sorted(classes.items())), 'cases_planned': N,
                 'cases_skipped': sum(r[1] for r in res), 'unconfirmed': unconfirmed}
    extra_cov.update({k: v for k, v in extra.items() if k not in ('evaluations', 'distinct_nontrivial', 'samples')})
    evid['coverage'].update(extra_cov)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ep = os.path.join(ROOT, 'evidence', pid + '.json')
    with open(ep + '.tmp', 'w') as f:
        json.dump(evid, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(ep + '.tmp', ep)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, tier, seed, evals, cov['distinct_nontrivial'], time.time() - t0))
    if os.environ.get('VT_CLASSES'):
        for k, v in sorted(classes.items()):
            print('   %-50s %d' % (k, v))
    for u in unconfirmed:
        print('UNCONFIRMED (did not reproduce): %s' % json.dumps(u))
    if viol:
        print(viol['msg'])
        print('case: ' + str(canon(viol['case']))[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


def confirm(prop, i, msg, W, seed, tier):
    """Reproduce the failure in fresh processes; shrink it."""
    case = prop.gen(rng_for(seed, prop.id, i), i, tier)
    deadline = time.time() + 60
    try:
        first = run_child(prop, [case])
    except RuntimeError as e:
        print(e)
        first = None
    if first is not None:
        if 'hang' in first:
            return {'msg': first, 'history': [], 'case': case}
        small = shrink(prop, case, deadline)
        for cand in (small, case):
            msgs = [run_child(prop, [cand]) for _ in range(3)]
            if all(m is not None for m in msgs):
                return {'msg': msgs[0], 'history': [], 'case': cand}
        if any(m is not None for m in msgs):
            return {'msg': [m for m in msgs if m][0], 'history': [], 'case': case}
    # not alone: with the cases before it in the same process
    idx = [j for j in range(i % W, i, W)]
    hist = [prop.gen(rng_for(seed, prop.id, j), j, tier) for j in idx]

    def fails(h):
        return run_child(prop, h + [case], timeout=600) is not None
    if fails(hist):
        hist = ddmin(hist, fails, time.time() + 60)
        m = None
        for _ in range(3):
            m = m or run_child(prop, hist + [case], timeout=600)
        if m:
            return {'msg': m + '\n(after %d earlier cases in the same process)' % len(hist), 'history': hist, 'case': case}
    for _ in range(8):
        m = run_child(prop, [case])
        if m:
            return {'msg': m, 'history': [], 'case': case}
    return None
