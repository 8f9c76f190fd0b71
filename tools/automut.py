#!/usr/bin/env python3
"""Makes small changes to the source files of the repository and runs the checks on each until one reports a violation.

automut.py [-s seed] [-n number] [-j jobs] [-c cases] [-o log] [-p checks] [-l] [-r NAME] FILE...

-n takes a sample, -p names the checks (separated by commas), -l lists the changes only.
A change is named FILE:LINE:KIND; -r runs the checks (with all their cases) on the named change only."""
import argparse
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FMU = 'P04 P05 P02 P19 P06 P07 P09 P11 P15 P12 P03 P01 P10 P14 P16 P17 P18 P20 P21 P25 P27 P26 P13 P08 P28'.split()
FIRST = {'FMI.c': 'P24 P23 P22', 'FMI2.c': 'P22 P23', 'FMI3.c': 'P22 P23', 'FMI.h': 'P22 P23 P24', 'FMI2.h': 'P22 P23', 'FMI3.h': 'P22 P23'}


def kinds(line):
    """(kind, changed line) of one source line"""
    s = line.strip()
    out = []
    if not s or s.startswith(('//', '*', '/*', '#', 'UNUSED', '(void)', 'typedef', 'case ', 'default', 'return NULL')):
        if not s.startswith('#define') or len(s.split()) < 3:
            return out
    code, sep, comment = line.partition('//')
    str_free = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group()) - 2) + '"', code)
    end = '\\' if s.endswith('\\') else ''
    if re.fullmatch(r'[A-Za-z_*&].*;', s.rstrip('\\ ')) and not re.match(r'(const |static |bool |double |size_t |int |char |FILE|Status |fmi|FMI\w+ ?\*|void|return|goto |break|continue|uint|ModelInstance|unsigned|va_)', s):
        out.append(('delete', ' ' * (len(line) - len(line.lstrip())) + '; ' + end))
    if s.rstrip('\\ ') == 'break;':
        out.append(('delete', ' ' * (len(line) - len(line.lstrip())) + '; ' + end))
    if s == 'return Error;':
        out.append(('ok', line.replace('Error', 'OK')))
    for pat, reps in (
            (r'(?<![<>=\-])<=(?!=)', ['<']), (r'(?<![<>\-])>=(?!=)', ['>']), (r'(?<![<\w])(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']),
            (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']),
            (r'(?<= )\*(?= )', ['/', '+']), (r'\+\+', ['--']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'fmi(\d)True', [r'fmi\1False']), (r'fmi(\d)False', [r'fmi\1True']),
            (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'\+=', ['-=', '=']), (r'(?<=\()!(?=\w)', ['']),
            (r'\| \w+', ['']), (r'\w+ \|(?!\|)', ['']), (r'\bM\((\w)\)', [r'M(\1)'])):
        for i, mt in enumerate(re.finditer(pat, str_free)):
            for rep in reps:
                r = mt.expand(rep)
                n = code[:mt.start()] + r + code[mt.end():]
                if n != code:
                    out.append(('%s.%d>%s' % (mt.group().replace(' ', ''), i, r), n + sep + comment))
    mt = re.match(r'(\s*(?:\} else )?if \()(.*)(\).*)$', code)
    if mt:
        out.append(('negate', mt.group(1) + '!(' + mt.group(2) + ')' + mt.group(3)))
    mt = re.match(r'^(\s*if \(.*\) )(.*;.*)$', code)
    if mt:
        out.append(('noif', re.match(r'\s*', code).group() + mt.group(2)))
    # swap two similar names
    for a, b in (('n)', 'm)'), ('m)', 'r)'), ('r)', 'n)'), ('[i][j]', '[j][i]'), ('Int8', 'UInt8'), ('_input', '_output'), ('prez', 'z')):
        for mt in re.finditer(re.escape('M(' + a) if a[-1] == ')' else re.escape(a), str_free):
            old = mt.group()
            n = code[:mt.start()] + (('M(' + b) if a[-1] == ')' else b) + code[mt.end():]
            if 'logError' not in code and 'Status' not in code:
                out.append(('%s>%s.%d' % (a, b, mt.start()), n + sep + comment))
    return [(k.replace(' ', ''), n) for k, n in out if n != line]


def windows(lines):
    """numbers of lines compiled only on Windows"""
    bad, stack = set(), []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#if'):
            stack.append('_WIN32' in s or '_MSC_VER' in s)
        elif s.startswith(('#else', '#elif')) and stack:
            stack[-1] = (not stack[-1] and False) if stack[-1] else ('_WIN32' in s)
        elif s.startswith('#endif') and stack:
            stack.pop()
        if any(stack):
            bad.add(i)
    return bad


def changes(f):
    lines = open(os.path.join(REPO, f)).read().split('\n')
    bad = windows(lines)
    for i, l in enumerate(lines):
        if i in bad:
            continue
        for k, n in kinds(l):
            yield '%s:%d:%s' % (f, i + 1, k), f, i, n


lock = threading.Lock()


def run(c, a):
    name, f, i, new = c
    d = '/tmp/automut-%d-%d' % (os.getpid(), threading.get_ident())
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['git', '-C', REPO, 'archive', '-o', d + '.tar', 'HEAD'], check=True)
    os.mkdir(d)
    subprocess.run(['tar', '-xf', d + '.tar', '-C', d], check=True)
    os.remove(d + '.tar')
    p = os.path.join(d, f)
    lines = open(p).read().split('\n')
    old, lines[i] = lines[i], new
    open(p, 'w').write('\n'.join(lines))
    res = 'SURVIVED'
    order = FIRST.get(os.path.basename(f), '').split() or FMU
    if f.startswith('examples/'):
        order = ['P29', 'P30']
    if a.p:
        order = a.p.split(',')
    for pid in order:
        env = dict(os.environ, VERIF_REPO=d)
        if not a.r:
            env['VT_COUNT'] = str(a.c)
        try:
            r = subprocess.run([os.path.join(ROOT, 'check'), pid], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=600)
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT ' + pid
            break
        o = r.stdout.decode(errors='replace')
        if r.returncode:
            res = pid if r.returncode == 1 and 'VIOLATION' in o else 'EXIT%d %s %s' % (r.returncode, pid, o[-200:].replace('\n', ' '))
            if 'BUILD FAILED' in o:
                res = 'BUILD'
            break
    shutil.rmtree(d, ignore_errors=True)
    with lock:
        s = '%-60s %s' % (name, res)
        if res == 'SURVIVED' or res.startswith(('EXIT', 'TIME')):
            s += '\n    - %s\n    + %s' % (old.strip(), new.strip())
        print(s, flush=True)
        if a.o:
            open(a.o, 'a').write(s + '\n')
    return res


def main():
    p = argparse.ArgumentParser()
    p.add_argument('-s', type=int, default=1)
    p.add_argument('-n', type=int, default=0)
    p.add_argument('-j', type=int, default=3)
    p.add_argument('-c', type=int, default=4000)
    p.add_argument('-o')
    p.add_argument('-r')
    p.add_argument('-p')
    p.add_argument('-l', action='store_true')
    p.add_argument('file', nargs='*')
    a = p.parse_args()
    cs = [c for f in (a.file or [a.r.split(':')[0]]) for c in changes(f)]
    if a.r:
        cs = [c for c in cs if c[0] == a.r]
    if a.n and a.n < len(cs):
        cs = sorted(random.Random(a.s).sample(cs, a.n))
    if a.l:
        for c in cs:
            print(c[0], '\n   ', c[3].strip())
        print(len(cs))
        return
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        rs = list(ex.map(lambda c: run(c, a), cs))
    print({r: rs.count(r) for r in sorted(set(rs))})


main()
