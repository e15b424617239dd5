"""Run a case in a forked, unprivileged child with a scratch directory.

The code under test may remove files and run shell commands; as user nobody
an escaped call can reach nothing real.
"""
import functools
import importlib
import os
import pickle
import shutil
import signal
import tempfile
import traceback

from vp import core

NOBODY = 65534


class ChildError(Exception):
    """The harness failed inside the child."""


def _drop(d):
    os.setsid()
    if os.geteuid() == 0:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    os.umask(0o022)
    os.environ['HOME'] = d
    os.environ['USER'] = os.environ['LOGNAME'] = 'nobody'
    os.environ['TMPDIR'] = os.path.join(d, 'tmp')
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.chdir(os.path.join(d, 'cwd'))


def unprivileged(*modules):
    """fn(case, t, d) runs as nobody; d is its scratch directory."""
    def deco(fn):
        @functools.wraps(fn)
        def run(case, t):
            for m in modules:
                importlib.import_module(m)
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            d = tempfile.mkdtemp(prefix='vp-', dir=base)
            for s in ('tmp', 'cwd'):
                os.mkdir(os.path.join(d, s))
                if os.geteuid() == 0:
                    os.chown(os.path.join(d, s), NOBODY, NOBODY)
            if os.geteuid() == 0:
                os.chown(d, NOBODY, NOBODY)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    null = os.open(os.devnull, os.O_RDWR)
                    os.dup2(null, 0)
                    os.dup2(null, 1)
                    try:
                        _drop(d)
                        fn(case, t, d)
                        res = ('ok', sorted(t.labels))
                    except BaseException as e:
                        res = ('err', core.classify(e), type(e).__name__,
                               str(e), traceback.format_exc())
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            try:
                with os.fdopen(r, 'rb') as f:
                    data = f.read()
            finally:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                shutil.rmtree(d, ignore_errors=True)
            if not data:
                raise core.Violation('the process running the case died')
            res = pickle.loads(data)
            if res[0] == 'ok':
                t.labels.update(res[1])
                return
            _, viol, name, msg, tb = res
            text = msg if name == 'Violation' else '%s: %s' % (name, msg)
            if viol:
                raise core.Violation(text)
            raise ChildError(text + '\n' + tb)
        return run
    return deco
