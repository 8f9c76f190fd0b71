#!/usr/bin/env python3
"""Checks that cases stay sound when they are shrunk: shrinktest.py ID [cases]

Generated cases with randomly deleted list elements are run on the (correct)
tree; a violation would mean that a shrunk case is no longer a legal case."""
import os
import random
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import api, build, core

pid = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 1500
prop = core.load_prop(pid)
if prop.sanitize and not os.environ.get(core.SANITIZED):
    core.reexec_sanitized()
if prop.sanitize:
    api.Mem.exact = True
    del os.environ['LD_PRELOAD']
for k in prop.kinds:
    build.ensure_cached(k)
prop.known, prop.tier, prop.seed = {}, 'quick', 77
prop.setup()
with tempfile.TemporaryDirectory() as tempfile.tempdir:
    bad = err = n = 0
    for i in range(N):
        rng = core.rng_for(77, pid, i)
        case = prop.gen(rng, i, 'quick')
        r = random.Random(i)
        for key in prop.shrink_lists:
            if not isinstance(case.get(key), list) or not case[key]:
                continue
            for _ in range(3):
                p = r.choice([0.05, 0.3, 0.6, 0.9])
                c = dict(case)
                c[key] = [x for x in case[key] if r.random() > p]
                n += 1
                try:
                    prop.run(c)
                except (core.Skip, core.InstantiationFailed):
                    pass
                except core.Violation as e:
                    bad += 1
                    if bad <= 3:
                        print(pid, i, key, 'VIOLATION', str(e)[:300], core.canon(c)[:600])
                except Exception:
                    err += 1
                    if err <= 2:
                        traceback.print_exc()
print(pid, n, 'shrunk cases,', bad, 'unsound,', err, 'errors')
