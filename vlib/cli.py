"""Runs the compiler's command line: main() in a forked child (fast), or the
script in a new process."""
import hashlib
import os
import subprocess
import sys
import traceback

from . import harness

SCRIPT = os.path.join(harness.REPO, 'src', 'acetimetools', 'tzcompiler.py')


def run_forked(argv, cwd):
    """(exit status, output) of main() with these arguments."""
    import acetimetools.tzcompiler as tz
    log = os.path.join(harness.scratch(), 'cli.log')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            import logging
            logging.disable(logging.NOTSET)
            sys.stdout = open(1, 'w', closefd=False)
            sys.stderr = open(2, 'w', closefd=False)
            os.chdir(cwd)
            sys.argv = [SCRIPT] + argv
            try:
                tz.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else \
                    0 if e.code is None else 1
            except BaseException:
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 255)
    _, status = os.waitpid(pid, 0)
    with open(log, encoding='utf-8', errors='replace') as f:
        text = f.read()
    return os.waitstatus_to_exitcode(status), text


def run_process(argv, cwd):
    """The same with the script in a new process."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=':'.join(
        [os.path.join(harness.REPO, 'src'),
         os.path.join(harness.ROOT, 'vlib', 'stub')]))
    p = subprocess.run([sys.executable, SCRIPT] + argv, cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')


def snapshot(d):
    """{relative path: content hash, or the target of a link} of a tree."""
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs + files:
            path = os.path.join(base, n)
            rel = os.path.relpath(path, d)
            if os.path.islink(path):
                out[rel] = '-> ' + os.readlink(path)
            elif os.path.isdir(path):
                out[rel] = 'dir'
            else:
                with open(path, 'rb') as f:
                    out[rel] = hashlib.blake2b(
                        f.read(), digest_size=12).hexdigest()
    return out
