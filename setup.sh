#!/bin/bash
# Builds every variant the checks need from the current tree of /repo.
cd "$(dirname "$0")" || exit 1
exec python3 -B -c "
import sys
sys.path.insert(0, '.')
from vt import build, core
import os
kinds = set()
for f in sorted(os.listdir('vt/props')):
    if f.startswith('p') and f.endswith('.py'):
        kinds.update(core.load_prop(f[:-3]).kinds)
print('built in', build.ensure(*sorted(kinds)))
"
