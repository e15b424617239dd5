import contextlib
import os
import shutil
import tempfile


@contextlib.contextmanager
def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='vp-', dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Swallow prints of the code under test."""
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def failed(fn, *a, **k):
    """True if the call raised (any Exception)."""
    try:
        fn(*a, **k)
    except Exception:
        return True
    return False
