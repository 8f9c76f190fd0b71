#!/usr/bin/env python3
"""Runs the check of each planted bug (or the given ids) on a scratch copy with the change applied."""
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed

ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(mkseed.ROOT, 'seeded')))
miss = []
for i in ids:
    d = os.path.join(mkseed.ROOT, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    mkseed.WT = '/tmp/seedwt-%d' % os.getpid()
    mkseed.worktree()
    r = mkseed.sh(['git', '-C', mkseed.WT, 'apply', os.path.join(d, 'patch.diff')])
    if r.returncode:
        print(i, 'DOES NOT APPLY', r.stdout.decode())
        continue
    t0 = time.time()
    env = dict(os.environ, VERIF_REPO=mkseed.WT)
    props = [meta['property']]
    if '--all' in sys.argv:
        m = json.load(open(os.path.join(mkseed.ROOT, 'MANIFEST.json')))
        props = [c['property'] for c in m['checks']]
    out = []
    for p in props:
        r = subprocess.run([os.path.join(mkseed.ROOT, 'check'), p], cwd=mkseed.ROOT, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        if r.returncode == 1 and 'VIOLATION property=%s ' % p in o:
            out.append(p)
            if '-v' in sys.argv:
                print(o[-1500:])
        elif r.returncode != 0:
            out.append('%s?%d' % (p, r.returncode))
            print(o[-2000:])
    caught = meta['property'] in out
    if not caught:
        miss.append(i)
    print('%-28s %s %-8s %.1f s %s' % (i, meta['property'], 'caught' if caught else 'MISSED', time.time() - t0,
                                    ' '.join(out) if '--all' in sys.argv else ''), flush=True)
    shutil.rmtree(mkseed.WT)
print('missed:', miss)
