"""Small property-based-testing runner on top of Hypothesis.

A property module in checks/ registers sub-checks with @sub(...).  A sub-check
is a strategy producing *plain data* (numbers, strings, lists, tuples, dicts)
plus a function `fn(case, t)` that drives the code in /repo and calls
`t.require(cond, msg)` / raises.  Plain data makes every failing case directly
serialisable as a replay file which bypasses Hypothesis.
"""
import hashlib
import json
import math
import os
import signal
import struct
import sys
import time
import traceback
import xml.etree.ElementTree
import zipfile
import zlib

REPO = os.path.realpath(os.environ.get('VP_REPO', '/repo'))
CASE_LIMIT_S = 90          # an operation here takes milliseconds; see Hang


class Violation(AssertionError):
    """The property does not hold for this case."""


class Hang(BaseException):
    """The code under test did not return within CASE_LIMIT_S seconds."""


class HarnessError(Exception):
    pass


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough, rule):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


REGISTRY = {}


def sub(prop, name, strategy, quick=200, thorough=4000, rule=''):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(name, strategy, fn, quick, thorough, rule))
        return fn
    return deco


class T(object):
    """Per-case context handed to a sub-check."""

    def __init__(self):
        self.labels = set()

    def require(self, cond, msg='', *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def label(self, *names):
        """Classify the case; names starting with '-' do not count as
        non-trivial."""
        self.labels.update(names)

    def close(self, a, b, rel=0.0, abs_=0.0, msg=''):
        a = float(a)
        b = float(b)
        if math.isnan(a) and math.isnan(b):
            return
        if a == b:
            return
        if not abs(a - b) <= max(abs_, rel * max(abs(a), abs(b))):
            raise Violation('%s: got %r, expected %r' % (msg, a, b))

    def raises(self, exc, fn, *args, **kw):
        """fn must raise exc (tuple of classes or a class)."""
        try:
            r = fn(*args, **kw)
        except exc as e:
            return e
        except Exception as e:
            raise Violation('expected %s, got %s: %s' % (
                exc, type(e).__name__, e))
        raise Violation('expected %s from %s, but it returned %r' % (
            exc, getattr(fn, '__name__', fn), r))


def from_repo(exc):
    """True if the traceback of exc passes through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.realpath(fn).startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def classify(exc):
    if isinstance(exc, (Violation, Hang)):
        return True
    if isinstance(exc, (AttributeError, TypeError, LookupError, ValueError,
                        ArithmeticError, AssertionError, FileNotFoundError,
                        PermissionError, IsADirectoryError, EOFError,
                        NotADirectoryError, zipfile.BadZipFile,
                        xml.etree.ElementTree.ParseError, struct.error)):
        # the oracle stumbled over what the code returned or wrote (wrong type,
        # missing key, broken file, ...): never happens on a tree where the
        # property holds
        return True
    return from_repo(exc)


def _alarm(signum, frame):
    raise Hang('no result after %d s' % CASE_LIMIT_S)


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.seen = set()
        self.labels = {}
        self.samples = []
        self.fail = None          # (case, exc, tb text)
        self.first_fail = None
        self.error = None
        self.counting = True


# the machine's own time zone must not matter: each case runs in one of these
ZONES = ['UTC'] * 4 + ['America/Los_Angeles', 'Asia/Kathmandu',
                       'Pacific/Auckland', 'XXX+11', 'Europe/London']


def set_zone(name):
    os.environ['TZ'] = name
    time.tzset()


def run_case(s, case, limit=True):
    t = T()
    set_zone(ZONES[zlib.crc32(repr(case).encode('utf-8', 'replace'))
                   % len(ZONES)])
    if limit:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        s.fn(case, t)
    finally:
        if limit:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return t


def run_sub(s, n, seed):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 45
    st = Stats()
    t_end = time.time() + float(os.environ.get('VP_SUB_BUDGET_S', '1e9'))

    class OutOfTime(BaseException):
        pass

    def body(case):
        if st.fail is None and time.time() > t_end:
            raise OutOfTime()
        st.evaluations += 1
        try:
            t = run_case(s, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            st.evaluations -= 1
            raise
        except (Exception, Hang) as e:
            rec = (case, e, traceback.format_exc())
            if not classify(e):
                st.error = rec
                raise
            if st.first_fail is None:
                st.first_fail = rec
            st.fail = rec
            raise
        if st.fail is None:
            key = hashlib.blake2b(repr(case).encode('utf-8', 'replace'),
                                  digest_size=12).digest()
            nt = [x for x in t.labels if not x.startswith('-')]
            for x in t.labels:
                st.labels[x] = st.labels.get(x, 0) + 1
            if nt and key not in st.seen:
                st.seen.add(key)
                if len(st.samples) < 3 and st.evaluations > 5:
                    st.samples.append(case)

    # one deterministic stream per (seed, sub-check)
    h = hashlib.sha256(('%d/%s' % (seed, s.name)).encode()).digest()
    hseed = int.from_bytes(h[:8], 'big')
    test = given(s.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(hseed)(test)
    try:
        test()
    except OutOfTime:
        pass
    except Hang:
        pass
    except BaseException as e:
        if st.fail is None and st.error is None:
            if isinstance(e, KeyboardInterrupt):
                raise
            st.error = (None, e, traceback.format_exc())
    return st
