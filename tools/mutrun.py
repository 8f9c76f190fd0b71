#!/usr/bin/env python3
"""Runs the check of its property on each change of mutants.py (or those whose name matches an argument).

mutrun.py [-t tier] [-o log] [PATTERN...]   PATTERN: P06, P06/no-prez, ..."""
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
import mutants

args = sys.argv[1:]
tier, log = 'quick', None
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-t':
        tier = args.pop(0)
    elif o == '-o':
        log = open(args.pop(0), 'a')
    elif o == '-n':     # only check that the edits apply and compile
        tier = None
    elif o == '-f':
        mutants.ALL = []
        exec(open(args.pop(0)).read(), mutants.__dict__)


def out(s):
    print(s, flush=True)
    if log:
        log.write(s + '\n')
        log.flush()


def edit(root, edits):
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(root, f)
        s = open(p).read()
        c = s.count(old)
        if len(e) == 3:
            if c != 1:
                return 'edit does not apply (%d times): %s %r' % (c, f, old[:80])
            s = s.replace(old, new)
        elif e[3] < 0:
            if not c:
                return 'edit does not apply: %s %r' % (f, old[:80])
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            if len(parts) <= e[3] + 1:
                return 'edit does not apply (%d times): %s %r' % (c, f, old[:80])
            s = old.join(parts[:e[3] + 1]) + new + old.join(parts[e[3] + 1:])
        open(p, 'w').write(s)
    return None


WT = mkseed.WT = '/tmp/mutwt-%d' % os.getpid()
tot = {}
for prop, name, edits in mutants.ALL:
    key = prop + '/' + name
    if args and not any(re.fullmatch(a, prop) or re.fullmatch(a, key) for a in args):
        continue
    mkseed.worktree()
    r = edit(WT, edits)
    if r:
        out('%-26s BAD %s' % (key, r))
        continue
    if tier is None:
        continue
    t0 = time.time()
    r = subprocess.run([os.path.join(mkseed.ROOT, 'check'), prop], cwd=mkseed.ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, VERIF_REPO=WT, VERIF_TIER=tier))
    o = r.stdout.decode(errors='replace')
    res = 'caught' if r.returncode == 1 and 'VIOLATION property=%s ' % prop in o else 'MISSED' if r.returncode == 0 else 'EXIT%d' % r.returncode
    tot[res] = tot.get(res, 0) + 1
    msg = ''
    if res == 'caught':
        msg = ' '.join(l.strip() for l in o.split('\n') if l.strip() and not l.startswith('VIOLATION'))[:150]
    elif res != 'MISSED':
        msg = o[-300:]
    out('%-26s %s %5.1f s  %s' % (key, res, time.time() - t0, msg))
    shutil.rmtree(WT)
if os.path.exists(WT):
    shutil.rmtree(WT)
out(str(tot))
