"""Runs a Python script of the repository in a child process that must not harm the machine (P35, P36).

The scripts rewrite and remove files, so a changed one could do so anywhere.  The child therefore gives up its
privileges (the scratch directory belongs to that unprivileged user) before the script is executed.  It works on
copies in a directory the check creates and removes."""
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import traceback

NOBODY = 65534
_code = {}


def reachable(d):
    """may the unprivileged user go to directory d?"""
    while True:
        st = os.stat(d)
        if not st.st_mode & 0o001:
            return False
        if os.path.dirname(d) == d:
            return True
        d = os.path.dirname(d)


def scratch():
    for base in (None, '/tmp', '/var/tmp', '/dev/shm'):
        try:
            d = os.path.realpath(tempfile.mkdtemp(prefix='vt-script-', dir=base))
        except OSError:
            continue
        os.chmod(d, 0o755)
        p = os.path.dirname(d)
        if base is None and os.path.basename(p).startswith('vt-'):
            os.chmod(p, 0o711)      # the directory of this check
        if os.geteuid() != 0 or reachable(d):
            return d
        os.rmdir(d)
    raise RuntimeError('no directory for the scripts')


def remove(d):
    shutil.rmtree(d, ignore_errors=True)


def give(d):
    """the files of a scratch directory belong to the unprivileged user"""
    if os.geteuid() != 0:
        return
    for p, dirs, files in os.walk(d):
        os.chown(p, NOBODY, NOBODY)
        for f in files:
            os.chown(os.path.join(p, f), NOBODY, NOBODY)


def code(path):
    if path not in _code:
        with open(path, encoding='utf-8') as f:
            _code[path] = compile(f.read(), path, 'exec')
    return _code[path]


def run(path, root, name, argv=(), prepare=None):
    """executes the script at path as root/build/name; returns its exit status, output and what prepare recorded"""
    c = code(path)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        out, rec, status = io.StringIO(), [], 'not started'
        try:
            os.close(r)
            if os.geteuid() == 0:
                os.setgroups([])
                os.setgid(NOBODY)
                os.setuid(NOBODY)
            signal.alarm(60)
            os.chdir(root)
            os.umask(0o022)
            tempfile.tempdir = os.path.join(root, 'tmp')
            sys.stdout = out
            sys.stderr = io.StringIO()
            file = os.path.join(root, 'build', name)
            sys.argv = [file] + list(argv)
            if prepare:
                prepare(rec)
            try:
                status = 0
                exec(c, {'__name__': '__main__', '__file__': file, '__builtins__': __builtins__})
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                status &= 255       # what the caller sees
            except BaseException:
                status = 'exception: ' + traceback.format_exc()[-600:]
        except BaseException:
            status = 'not started: ' + traceback.format_exc()[-600:]
        finally:
            try:
                b = json.dumps([status, out.getvalue(), rec]).encode('utf-8', 'surrogatepass')
                with os.fdopen(w, 'wb') as f:
                    f.write(b)
            finally:
                os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        return 'killed', '', []
    res = json.loads(b.decode('utf-8', 'surrogatepass'))
    if isinstance(res[0], str) and res[0].startswith('not started'):
        raise RuntimeError(res[0])
    return res


def tree(d):
    """path -> content of all files below d"""
    res = {}
    for p, dirs, files in os.walk(d):
        for f in files:
            q = os.path.join(p, f)
            with open(q, 'rb') as g:
                res[os.path.relpath(q, d)] = g.read()
    return res


def commands(handler):
    """in the child: replace the functions of subprocess by handler(argv) -> [status, output]"""
    def run(a, *r, check=False, text=False, universal_newlines=False, **k):
        a = [str(x) for x in (a if isinstance(a, (list, tuple)) else a.split())]
        st, out = handler(a)
        out = out if text or universal_newlines or k.get('encoding') else out.encode()
        if check and st:
            raise subprocess.CalledProcessError(st, a, out)
        return subprocess.CompletedProcess(a, st, out, out[:0])
    subprocess.run = run
    subprocess.call = lambda *r, **k: run(*r, **k).returncode
    subprocess.check_call = lambda *r, **k: run(*r, check=True, **k).returncode
    subprocess.check_output = lambda *r, **k: run(*r, check=True, **k).stdout
    subprocess.Popen = None
    os.system = lambda a: handler(a.split())[0] << 8
