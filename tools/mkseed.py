#!/usr/bin/env python3
"""Helper to write planted bugs: seed(id, property, needs, what, edits, v, model, body).

Writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} and confirms in a scratch
worktree that the demonstration passes without and fails with the change."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
SRC = os.environ.get('VERIF_SRC', '/repo')

SH = '''#!/bin/bash
# exit 0: behaves as specified; non-zero: does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -DFMI_VERSION={v} -DDISABLE_PREFIX -Iinclude -I{m} {flags} {m}/model.c src/fmi{v}Functions.c src/cosimulation.c "$D/demo.c" -o "$T/demo" -lm -lpthread || exit 2
timeout 120 "$T/demo"
'''
SH_IMPORTER = '''#!/bin/bash
# exit 0: behaves as specified; non-zero: does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -fPIC -shared -DFMI_VERSION={v} -DDISABLE_PREFIX -Iinclude -I{m} {m}/model.c src/fmi{v}Functions.c src/cosimulation.c -o "$T/fmu.so" -lm || exit 2
gcc -w -g -O1 -Iinclude {flags} src/FMI.c src/FMI2.c src/FMI3.c "$D/demo.c" -o "$T/demo" -ldl -lm || exit 2
timeout 120 "$T/demo" "$T/fmu.so"
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
'''
PRE3 = PRE + '''#include "fmi3Functions.h"
#include "config.h"
static char lastLog[4096]; static int nLog;
static void logger(fmi3InstanceEnvironment e, fmi3Status s, fmi3String c, fmi3String m) { (void)e; (void)s; (void)c; nLog++; snprintf(lastLog, sizeof(lastLog), "%s", m); }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
#define OK(c) CHECK((c) == fmi3OK)
static fmi3Instance newME(void) { return fmi3InstantiateModelExchange("a", INSTANTIATION_TOKEN, NULL, fmi3False, fmi3False, NULL, logger); }
static fmi3Instance newCS(bool eventMode, bool early, fmi3IntermediateUpdateCallback cb) { return fmi3InstantiateCoSimulation("a", INSTANTIATION_TOKEN, NULL, fmi3False, fmi3False, eventMode, early, NULL, 0, NULL, logger, cb); }
static int init(fmi3Instance s, double t) { return fmi3EnterInitializationMode(s, false, 0, t, false, 0) || fmi3ExitInitializationMode(s); }
static bool evt, term, early; static double last;
static fmi3Status step(fmi3Instance s, double t, double h) { return fmi3DoStep(s, t, h, true, &evt, &term, &early, &last); }
static double f64(fmi3Instance s, unsigned vr) { double v = NAN; fmi3GetFloat64(s, &vr, 1, &v, 1); return v; }
static fmi3Status setf64(fmi3Instance s, unsigned vr, double v) { return fmi3SetFloat64(s, &vr, 1, &v, 1); }
static int i32(fmi3Instance s, unsigned vr) { int v = -12345; fmi3GetInt32(s, &vr, 1, &v, 1); return v; }
static fmi3Status seti32(fmi3Instance s, unsigned vr, int v) { return fmi3SetInt32(s, &vr, 1, &v, 1); }
'''
PRE2 = PRE + '''#include "fmi2Functions.h"
#include "config.h"
static char lastLog[4096]; static int nLog;
static void logger(fmi2ComponentEnvironment e, fmi2String n, fmi2Status s, fmi2String c, fmi2String m, ...) { nLog++; snprintf(lastLog, sizeof(lastLog), "%s", m); }
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
#define OK(c) CHECK((c) == fmi2OK)
static fmi2CallbackFunctions cbs = { logger, calloc, free, NULL, NULL };
static fmi2Component newI(fmi2Type t) { return fmi2Instantiate("a", t, INSTANTIATION_TOKEN, NULL, &cbs, fmi2False, fmi2False); }
static int init(fmi2Component s, double t) { return fmi2SetupExperiment(s, 0, 0, t, 0, 0) || fmi2EnterInitializationMode(s) || fmi2ExitInitializationMode(s); }
static double f64(fmi2Component s, unsigned vr) { double v = NAN; fmi2GetReal(s, &vr, 1, &v); return v; }
static fmi2Status setf64(fmi2Component s, unsigned vr, double v) { return fmi2SetReal(s, &vr, 1, &v); }
static int i32(fmi2Component s, unsigned vr) { int v = -12345; fmi2GetInteger(s, &vr, 1, &v); return v; }
static fmi2Status seti32(fmi2Component s, unsigned vr, int v) { return fmi2SetInteger(s, &vr, 1, &v); }
'''
PREI = PRE + '''#include "FMI2.h"
#include "FMI3.h"
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
#define OK(c) CHECK((c) == FMIOK)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def worktree():
    if os.path.exists(WT):
        shutil.rmtree(WT)
    os.makedirs(WT)
    p = subprocess.run('git -C %s archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && '
                       'git -c user.name=a -c user.email=a@b commit -qm x' % (SRC, WT, WT), shell=True)
    assert p.returncode == 0


def seed(id, prop, needs, what, edits, v=3, m='BouncingBall', body='', importer=False, flags='', extra=''):
    worktree()
    d = os.path.join(ROOT, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', '-C', WT, 'diff', '--no-color']).stdout.decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    tmpl = SH_IMPORTER if importer else SH
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(tmpl.replace('{v}', str(v)).replace('{m}', m).replace('{flags}', flags))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    pre = PREI if importer else PRE3 if v == 3 else PRE2
    args = 'int argc, char **argv' if importer else 'void'
    with open(os.path.join(d, 'demo.c'), 'w') as f:
        f.write(pre + extra + '\nint main(%s) {\n' % args + body.strip('\n') + '\n    return 0;\n}\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    bad = sh([os.path.join(d, 'demo.sh')], cwd=WT)
    sh(['git', '-C', WT, 'checkout', '-q', '--', '.'])
    good = sh([os.path.join(d, 'demo.sh')], cwd=WT)
    ok = bad.returncode not in (0, 2) and good.returncode == 0
    print('%-28s demo patched=%d clean=%d %s' % (id, bad.returncode, good.returncode, 'ok' if ok else 'PROBLEM'))
    if not ok:
        print(bad.stdout.decode()[-1500:], good.stdout.decode()[-1500:])
    shutil.rmtree(WT)
    return ok
