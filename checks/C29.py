"""C29: SCP copies files and trees identically in both directions."""
import logging
import os
import signal
import stat
import time

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.extern.scp.scp'
MODES = [0o644, 0o600, 0o755, 0o640, 0o444]
ODD_MODES = MODES + [0o4755, 0o2750, 0o1777]
DIRS = [x for x in trees.DIRS] + ['dd', 'da', 'data2']
# get() lets the remote scp expand names that contain wildcards
NAMES = [n for n in trees.NAMES + ['.tmp', 'end '] if n != '[1]']
BASE = {
    'tree': trees.trees(6, names=NAMES, dirs=DIRS),
    'empty': st.lists(st.lists(st.sampled_from(DIRS), min_size=1,
                               max_size=3), max_size=2),
    'modes': st.lists(st.sampled_from(MODES), min_size=3, max_size=3),
    'times': st.lists(st.integers(1, 2**31 - 1), min_size=3, max_size=3),
    'preserve': st.booleans(), 'what': st.sampled_from(['tree', 'tree',
                                                        'files', 'one']),
    'abs': st.booleans(), 'exists': st.booleans(),
    'name': st.sampled_from(['loc', 'a b', "o'r", 'dé', 'data']),
    'to': st.sampled_from(['rem', 'r s', "it's", 'data', '$HOME']),
    'buff': st.sampled_from([16384, 1, 7, 1000])}
CASE = st.fixed_dictionaries(dict(BASE, twice=st.booleans(),
                                  change=st.lists(st.integers(0, 3),
                                                  min_size=3, max_size=3),
                                  preserve2=st.booleans(),
                                  progress=st.booleans()))
FAULT = st.fixed_dictionaries(dict(
    BASE, put=st.booleans(), fault=st.tuples(
        st.sampled_from(['cutin', 'cutout', 'cutout', 'close', 'drop',
                         'fail', 'limit', 'locked']),
        st.just(0), st.sampled_from([0, 1, 2, 20, 100, 1000, 5000]))
    .map(list)))


class Hang(Exception):
    pass


def alarm(*a):
    raise Hang('no end after 20 s')


def setup(case, d, fault=None, play=None):
    from vp import sshd
    import paramiko
    from impactutils.extern.scp.scp import SCPClient
    logging.getLogger('paramiko').setLevel(logging.CRITICAL + 1)
    host = os.path.join(d, 'host')
    os.mkdir(host)
    srv = sshd.Scripted(play, host, d, 'nobody') if play else \
        sshd.Sshd(host, d, 'nobody', fault)
    key = sshd.client(d, srv.port)
    ssh = paramiko.SSHClient()
    ssh.load_system_host_keys()
    ssh.connect('127.0.0.1', username='nobody', key_filename=key)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(20)
    return srv, host, ssh, SCPClient


def populate(case, root):
    """Write the source; return (paths to name, {rel: bytes}, dirs)."""
    tree = case['tree']
    os.makedirs(root, exist_ok=True)
    dirs = set()
    for e in case['empty']:
        if any(tuple(e[:len(x[0]) + 1]) == tuple(x[0] + [x[1]])
               for x in tree):
            continue
        os.makedirs(os.path.join(root, *e), exist_ok=True)
    clash = {tuple(x[0][:i]) for x in tree for i in range(1, 4)}
    tree = [x for x in tree if tuple(x[0] + [x[1]]) not in clash and
            not os.path.isdir(os.path.join(root, *x[0], x[1]))]
    paths = trees.write(root, tree)
    for i, p in enumerate(paths):
        os.chmod(p, case['modes'][i % 3])
        os.utime(p, (case['times'][i % 3], case['times'][(i + 1) % 3]))
    for r, ds, fs in os.walk(root, topdown=False):
        for x in ds:
            dirs.add(os.path.relpath(os.path.join(r, x), root))
            os.utime(os.path.join(r, x), (case['times'][0],
                                          case['times'][1]))
    return paths, trees.rel(tree), dirs


def change(case, src, paths, want):
    """Make files shorter, empty or longer, with other times."""
    for i, p in enumerate(paths):
        k = case['change'][i % 3]
        with open(p, 'rb') as f:
            b = f.read()
        b = [b, b[:len(b) // 2], b'', b'new ' + b][k]
        os.chmod(p, 0o644)
        with open(p, 'wb') as f:
            f.write(b)
        os.chmod(p, case['modes'][i % 3])
        os.utime(p, (case['times'][i % 3], case['times'][(i + 2) % 3]))
        want[os.path.relpath(p, src)] = b


def stale(t, p, kind):
    """A copy without preserved times is as old as the copying."""
    t.require(os.stat(p).st_mtime > time.time() - 3600,
              '%s: time of %r is %r, but times are not preserved', kind, p,
              os.stat(p).st_mtime)


def check(t, case, src, dst, want, dirs, kind, modes=True):
    got = trees.read(dst)
    t.require(got == want, '%s: %s', kind, trees.diff(got, want))
    have = {os.path.relpath(os.path.join(r, x), dst)
            for r, ds, fs in os.walk(dst) for x in ds}
    t.require(have == dirs, '%s: directories %r, not %r', kind,
              sorted(have), sorted(dirs))
    for p in want:
        a, b = os.stat(os.path.join(src, p)), os.stat(os.path.join(dst, p))
        t.require(not modes or
                  stat.S_IMODE(a.st_mode) == stat.S_IMODE(b.st_mode),
                  '%s: mode of %r is %o, not %o', kind, p, b.st_mode,
                  a.st_mode)
        if case['preserve']:
            t.require(int(a.st_mtime) == int(b.st_mtime),
                      '%s: time of %r is %r, not %r', kind, p, b.st_mtime,
                      a.st_mtime)
        else:
            stale(t, os.path.join(dst, p), kind)
    if case['preserve']:
        for p in dirs:
            a = os.stat(os.path.join(src, p))
            b = os.stat(os.path.join(dst, p))
            t.require(int(a.st_mtime) == int(b.st_mtime),
                      '%s: time of directory %r is %r, not %r', kind, p,
                      b.st_mtime, a.st_mtime)


def transfer(case, call, src_root, name, paths, dst, remote_dst):
    """call(what, where, **kw); returns (directory of the copy, subset)."""
    kw = {'preserve_times': case['preserve']}
    src = os.path.join(src_root, name) if case['abs'] else name
    if case['what'] == 'tree':
        if case['exists']:
            os.makedirs(dst, exist_ok=True)
        call(src, remote_dst, recursive=True, **kw)
        return os.path.join(dst, name) if case['exists'] else dst
    os.makedirs(dst, exist_ok=True)
    ps = [p if case['abs'] else os.path.relpath(p, src_root) for p in paths]
    call(ps, remote_dst, recursive=False, **kw)
    return dst


@sub('C29', 'roundtrip', CASE, quick=120, thorough=2500,
     rule='put then get of files, lists and trees over a real SSH server with OpenSSH scp: contents, directories, modes and preserved times identical, progress ends complete; non-trivial = 2 or more files')
@unprivileged('vp.sshd', MOD)
def roundtrip(case, t, d):
    srv, host, ssh, SCPClient = setup(case, d)
    cwd = os.path.join(d, 'cwd')
    src = os.path.join(cwd, case['name'])
    paths, want, dirs = populate(case, src)
    if case['what'] != 'tree':
        base = {}
        for p in paths:
            base.setdefault(os.path.basename(p), p)
        paths = list(base.values())
        if case['what'] == 'one':
            paths = paths[:1]
        if not paths:
            return
    seen = {}

    def progress(name, size, sent):
        k = name if isinstance(name, bytes) else name.encode()
        seen.setdefault(os.path.basename(k), []).append((size, sent))
    kw = {'progress': progress} if case['progress'] else {}
    scp = SCPClient(ssh.get_transport(), buff_size=case['buff'] if max(
        [len(b) for b in want.values()] + [0]) < 5000 else 16384, **kw)
    up = os.path.join(host, case['to'])
    rem = up if case['abs'] else case['to']
    down = os.path.join(cwd, 'back')
    flat = {os.path.basename(p): p for p in paths}
    every = list(paths)
    case = dict(case)
    for again in range(1 + case['twice']):
        if again:
            for r in (up, down):
                if os.path.isfile(r):
                    os.chmod(r, 0o644)
            change(case, src, every, want)
            case['preserve'] = case['preserve2']
        if case['what'] == 'one' and not case['exists']:
            # to a new file name
            p = paths[0]
            scp.put(p, rem, preserve_times=case['preserve'])
            with open(up, 'rb') as f, open(p, 'rb') as g:
                t.require(f.read() == g.read(), 'put to a new name differs')
            scp.get(rem, down, preserve_times=case['preserve'])
            with open(down, 'rb') as f, open(p, 'rb') as g:
                t.require(f.read() == g.read(), 'get to a new name differs')
            a, b = os.stat(p), os.stat(down)
            t.require(again or
                      stat.S_IMODE(a.st_mode) == stat.S_IMODE(b.st_mode),
                      'mode %o, not %o', b.st_mode, a.st_mode)
            if case['preserve']:
                t.require(int(a.st_mtime) == int(b.st_mtime),
                          'time %r, not %r', b.st_mtime, a.st_mtime)
            else:
                stale(t, up, 'put')
                stale(t, down, 'get')
            continue
        if again:
            if case['what'] == 'tree' and not case['exists']:
                break
            for r in (up, down):
                for x, ds, fs in os.walk(r):
                    for f in fs:
                        os.chmod(os.path.join(x, f), 0o644)
        there = transfer(case, scp.put, cwd, case['name'], paths, up, rem)
        if case['what'] == 'tree':
            # scp leaves the mode of a file that is there
            check(t, case, src, there, want, dirs, 'put',
                  not again)
        else:
            sub_want = {n: want[os.path.relpath(p, src)]
                        for n, p in flat.items()}
            t.require(trees.read(there) == sub_want, 'put: %s',
                      trees.diff(trees.read(there), sub_want))
            if case['preserve']:
                for n, p in flat.items():
                    t.require(int(os.stat(os.path.join(there, n)).st_mtime)
                              == int(os.stat(p).st_mtime),
                              'put: time of %r', n)
            else:
                for n in flat:
                    stale(t, os.path.join(there, n), 'put')
        if case['what'] == 'tree':
            if case['exists']:
                os.makedirs(down, exist_ok=True)
            rel = there if case['abs'] else os.path.relpath(there, host)
            scp.get(rel, down, recursive=True,
                    preserve_times=case['preserve'])
            back = os.path.join(down, os.path.basename(there)) \
                if case['exists'] else down
            check(t, case, there, back, want, dirs, 'get')
        else:
            os.makedirs(down, exist_ok=True)
            names = [os.path.join(rem, n) for n in flat]
            scp.get(names if len(names) > 1 or case['progress'] else
                    names[0], down, preserve_times=case['preserve'])
            t.require(trees.read(down) == sub_want, 'get: %s',
                      trees.diff(trees.read(down), sub_want))
            for n in flat:
                if case['preserve']:
                    t.require(int(os.stat(os.path.join(down, n)).st_mtime)
                              == int(os.stat(flat[n]).st_mtime),
                              'get: time of %r', n)
                else:
                    stale(t, os.path.join(down, n), 'get')
    for n, s in seen.items():
        t.require(s[-1][0] == s[-1][1], 'progress of %r ends at %r', n,
                  s[-1])
        for (a, b), (a2, b2) in zip(s, s[1:]):
            t.require(b2 >= b or b2 == 0 or (a2, b2) == (1, 1), 'progress of %r runs back', n)
    t.label('files' if len(paths) > 1 else '-few')


@sub('C29', 'faults', FAULT, quick=120, thorough=2500,
     rule='put or get while the connection is lost after n bytes, the remote command fails or cannot write, or a local file is unreadable: an exception (within 20 s), or everything is complete; non-trivial = it raised')
@unprivileged('vp.sshd', MOD)
def faults(case, t, d):
    fault = case['fault']
    srv, host, ssh, SCPClient = setup(case, d, fault)
    cwd = os.path.join(d, 'cwd')
    put = case['put']
    src_root, dst_root = (cwd, host) if put else (host, cwd)
    src = os.path.join(src_root, case['name'])
    paths, want, dirs = populate(case, src)
    if not paths:
        return
    locked = fault[0] == 'locked' and os.geteuid() != 0
    if locked:
        os.chmod(paths[fault[2] % len(paths)], 0)
    scp = SCPClient(ssh.get_transport(), socket_timeout=3.0)
    dst = os.path.join(dst_root, case['to'])
    if case['exists']:
        os.makedirs(dst)
    err = None
    try:
        if put:
            scp.put(src, dst, recursive=True,
                    preserve_times=case['preserve'])
        else:
            scp.get(src, dst, recursive=True,
                    preserve_times=case['preserve'])
    except Hang:
        t.require(False, '%s never ends (%s)', 'put' if put else 'get',
                  fault[0])
    except Exception as e:
        err = e
    signal.alarm(0)
    if err is None:
        t.require(not locked, 'a file could not be read, but no exception')
        there = os.path.join(dst, case['name']) if case['exists'] else dst
        got = trees.read(there) if os.path.isdir(there) else {}
        t.require(got == want, 'no exception (%s), but %s', fault[0],
                  trees.diff(got, want))
        t.label('-no effect')
    else:
        t.require(srv.struck or locked or fault[0] == 'limit',
                  'fails without a fault: %r', err)
        t.label(fault[0])


FNAME = st.sampled_from(['a', 'b c', 'ü', "it's", 'x.tmp', '.h', '..a', '-n'])
BADNAME = st.sampled_from(['..', '../up', 'ABS', 'a/../../up', '../cwd/up'])
ANYNAME = st.one_of(*[FNAME] * 7, BADNAME)
SOP = st.one_of(
    st.tuples(st.just('C'), ANYNAME, trees.CONTENT,
              st.sampled_from(ODD_MODES)).map(list),
    st.tuples(st.just('C'), ANYNAME, trees.CONTENT,
              st.sampled_from(ODD_MODES)).map(list),
    st.tuples(st.just('D'), ANYNAME).map(list), st.just(['E']),
    st.tuples(st.just('T'), st.integers(1, 2**31 - 1)).map(list))
SOURCE = st.fixed_dictionaries({
    'ops': st.lists(SOP, min_size=3, max_size=9),
    'bad': st.one_of(st.none(), st.tuples(
        st.integers(0, 7), st.sampled_from(
            ['short', 'warn', 'fatal', 'junk', 'badmode', 'badsize', 'close',
             'rc', 'badtime', 'status'] * 3 + ['status'] * 6 + ['stall'])
    ).map(list)),
    'to': st.sampled_from(['dir', 'dir/', 'new', 'ABS', '.']),
    'proper': st.sampled_from([True, True, False]),
    'names': st.integers(1, 2), 'with': st.booleans()})


def proper(ops, rename):
    """Without the names that lead out and the directory ends too many."""
    out, depth, seen = [], [], [set()]
    if rename and not any(o[0] == 'C' for o in ops[:1]):
        ops = [['D', 'root']] + [o for o in ops if o != ['E']]
    for op in ops:
        if op[0] == 'E':
            if not depth:
                continue
            depth.pop()
            seen.pop()
        elif op[0] in 'CD':
            if op[1] in seen[-1] or op[1] in ('ABS', '..') or '/' in op[1]:
                continue
            seen[-1].add(op[1])
            if op[0] == 'D':
                depth.append(op)
                seen.append(set())
        out.append(op)
        if rename and len(out) == 1 and op[0] == 'C':
            break
    return out or [['T', 5]]


def place(ops, bad):
    """Move a fault to an operation that can have it."""
    for i in range(len(ops)) if bad else ():
        k = (bad[0] + i) % len(ops)
        op = ops[k]
        if not (bad[1] in ('short', 'badmode', 'badsize', 'status') and
                op[0] != 'C' or
                bad[1] == 'short' and not trees.data(op[2]) or
                bad[1] == 'badtime' and op[0] != 'T'):
            return [k, bad[1]]


@sub('C29', 'strange_source', SOURCE, quick=400, thorough=4000,
     rule='get from a scripted server that sends generated scp protocol, also names that lead out of the directory, too many directory ends, short data and error messages: nothing outside the local path changes, an exception for whatever is not a complete well-formed answer, else exactly the files sent; non-trivial = a refused answer or 2 or more files')
@unprivileged('vp.sshd', MOD)
def strange_source(case, t, d):
    cwd = os.path.join(d, 'cwd')
    inner = os.path.join(cwd, 'in')
    os.mkdir(inner)
    os.chdir(inner)
    ops, bad = [list(o) for o in case['ops']], case['bad']
    to = {'ABS': os.path.join(inner, 'dir')}.get(case['to'], case['to'])
    if case['proper']:
        ops = proper(ops, case['names'] == 1 and case['to'] == 'new')
    bad = place(ops, bad)
    if case['to'] in ('dir', 'dir/', 'ABS'):
        os.mkdir(os.path.join(inner, 'dir'))
    root = os.path.normpath(os.path.join(inner, to))
    for f in ('up', 'in.txt', 'a', 'dir'):
        with open(os.path.join(cwd, f), 'w') as fh:
            fh.write('mine')
    # what the protocol says: files below root, or wrong
    files, times, depth, wrong = {}, {}, [], None
    modes = {}
    where, dirs, clash, pend = root, set(), False, None
    rename = case['names'] == 1 and case['to'] == 'new'
    if case['names'] == 2 and case['to'] == 'new':
        wrong = 'no directory'
    single = False
    for i, op in enumerate(ops):
        if wrong:
            break
        if bad and bad[0] == i and bad[1] != 'rc':
            wrong = bad[1]
            break
        if op[0] == 'E':
            if not depth:
                wrong = 'end'
                break
            where = depth.pop()
        elif op[0] == 'T':
            pend = op[1]
        elif op[1] == 'ABS' or '/' in op[1] or op[1] == '..':
            if rename:
                clash = True       # the name is not used
                break
            wrong = 'name'
        else:
            p = where if rename else os.path.join(where, op[1])
            if single or p in files or op[0] == 'C' and \
                    p in dirs:
                clash = True
                break
            if op[0] == 'D':
                dirs.add(p)
                depth.append(where)
                where = p
            else:
                files[p] = trees.data(op[2])
                single = rename
                times[p] = pend
                modes[p] = op[3]
            pend = None
            rename = False
    if bad and bad[1] == 'rc' and not wrong:
        wrong = 'rc'

    def play(chan, command):
        for i, op in enumerate(ops):
            if chan.recv(1) != b'\0':
                return 1
            k = bad[1] if bad and bad[0] == i else ''
            if k in ('warn', 'fatal', 'junk'):
                chan.sendall({'warn': b'\x01scp: a: No such file\n',
                              'fatal': b'\x02scp: fatal\n',
                              'junk': b'hello\n'}[k])
                chan.recv(1)
                return 1
            if k == 'close':
                return None
            if k == 'stall':
                time.sleep(30)
            if op[0] == 'C':
                name = {'ABS': os.path.join(cwd, 'up')}.get(op[1], op[1])
                b = trees.data(op[2])
                mode = '99z' if k == 'badmode' else '0%o' % op[3]
                size = 'x' if k == 'badsize' else len(b)
                chan.sendall(('C%s %s %s\n' % (mode, size, name)).encode())
                if chan.recv(1) != b'\0':
                    return 1
                if k == 'short' and b:
                    chan.sendall(b[:len(b) // 2])
                    return None
                chan.sendall(b)
                chan.sendall(b'\x01disk error\n' if k == 'status'
                             else b'\0')
            elif op[0] == 'D':
                name = {'ABS': cwd}.get(op[1], op[1])
                chan.sendall(('D0755 0 %s\n' % name).encode())
            elif op[0] == 'E':
                chan.sendall(b'E\n')
            else:
                chan.sendall(b'Tsoon 0 x 0\n' if k == 'badtime' else
                             b'T%d 0 %d 0\n' % (op[1], op[1]))
        chan.recv(1)
        return 3 if bad and bad[1] == 'rc' else 0

    srv, host, ssh, SCPClient = setup(case, d, play=play)
    scp = SCPClient(ssh.get_transport(), socket_timeout=2.0 if bad and
                    bad[1] == 'stall' else 10.0)

    def outside():
        out = trees.read(cwd)
        have = {os.path.relpath(os.path.join(r, x), cwd)
                for r, ds, fs in os.walk(cwd) for x in ds}
        pre = os.path.relpath(root, cwd)
        inn = lambda p: p == pre or p.startswith(pre + '/')
        return ({p: (b, os.stat(os.path.join(cwd, p)).st_mode,
                     os.stat(os.path.join(cwd, p)).st_mtime_ns)
                 for p, b in out.items() if not inn(p)},
                {p: os.stat(os.path.join(cwd, p)).st_mode
                 for p in have if not inn(p)})
    before = outside()
    err = None
    try:
        names = ['x', 'y'][:case['names']]
        if case['with']:
            with scp as s:
                s.get(names, to, recursive=True, preserve_times=True)
        else:
            scp.get(names, to, recursive=True, preserve_times=True)
    except Hang:
        t.require(False, 'get never ends')
    except Exception as e:
        err = e
    signal.alarm(0)
    t.require(outside() == before, 'get changed something outside %r: %r', to,
              [x for a, b in zip(outside(), before)
               for x in set(a.items()) ^ set(b.items())][:3])
    if clash:
        t.label('-clash')
        return
    if wrong:
        t.require(err is not None, 'no exception for a wrong answer (%s)',
                  wrong)
        t.label(wrong)
        return
    t.require(err is None, 'fails for a proper answer: %r', err)
    got = {p: open(p, 'rb').read() for r, ds, fs in os.walk(root)
           for p in (os.path.join(r, f) for f in fs)} \
        if os.path.isdir(root) else {root: open(root, 'rb').read()} \
        if os.path.exists(root) else {}
    t.require(got == files, 'get: %s', trees.diff(got, files))
    for p, u in times.items():
        t.require(u is None or int(os.stat(p).st_mtime) == u,
                  'time of %r is %r, not %r', p, os.stat(p).st_mtime, u)
        m = os.stat(p).st_mode     # the group may not be this user's
        t.require((m ^ modes[p]) & 0o5777 == 0, 'mode of %r is %o, not %o',
                  p, m, modes[p])
    t.label('files' if len(files) > 1 else '-few')


SINK = st.fixed_dictionaries(dict(
    BASE, modes=st.lists(st.sampled_from(ODD_MODES), min_size=3, max_size=3),
    bad=st.one_of(st.none(), st.tuples(
        st.integers(0, 12), st.sampled_from(
            ['warn', 'fatal', 'junk', 'close', 'stderr'] * 3 + ['silent'])
    ).map(list))))


@sub('C29', 'strange_sink', SINK, quick=100, thorough=1500,
     rule='put to a scripted server that follows the scp protocol strictly and answers one step with an error, nonsense, or not at all: an exception, or exactly the files and directories of the source in a well-formed sequence; non-trivial = a refused step or 2 or more files')
@unprivileged('vp.sshd', MOD)
def strange_sink(case, t, d):
    bad = case['bad']
    got, where, problem, struck = {}, [], [], []
    gdirs, modes, times = set(), {}, {}

    def play(chan, command):
        count = [0]

        def answer():
            k = bad[1] if bad and bad[0] == count[0] else ''
            count[0] += 1
            if k:
                struck.append(k)
            if k == 'stderr':
                chan.sendall_stderr(b'scp: ambiguous target\n')
                time.sleep(0.02)
            if k == 'silent':
                time.sleep(30)
            if k in ('close', 'stderr'):
                return False
            chan.sendall({'warn': b'\x01scp: no space left\n',
                          'fatal': b'\x02scp: protocol error\n',
                          'junk': b'Welcome!\n', '': b'\0'}[k])
            return True

        def line():
            b = b''
            while not b.endswith(b'\n'):
                x = chan.recv(1)
                if not x:
                    if b:
                        problem.append('unfinished line %r' % b)
                    return None
                b += x
            return b[:-1].decode('utf-8')
        if not answer():
            return None
        utime = None
        while True:
            x = line()
            if x is None:
                return 0
            a = x[1:].split(' ', 2)
            if x[0] == 'T':
                utime = int(x[1:].split(' ')[0])
                if not answer():
                    return None
                continue
            if x[0] == 'E':
                if not where:
                    problem.append('end without a directory')
                    return None
                where.pop()
            elif x[0] == 'D':
                where.append(a[2])
                gdirs.add('/'.join(where))
                times['/'.join(where)] = utime
            elif x[0] == 'C':
                p = '/'.join(where + [a[2]])
                if not answer():
                    return None
                b = b''
                while len(b) < int(a[1]):
                    y = chan.recv(int(a[1]) - len(b))
                    if not y:
                        problem.append('short file %r' % p)
                        return None
                    b += y
                if chan.recv(1) != b'\0':
                    problem.append('no status after %r' % p)
                    return None
                if p in got:
                    problem.append('%r sent twice' % p)
                got[p] = b
                modes[p] = int(a[0], 8)
                times[p] = utime
            else:
                problem.append('line %r' % x)
                return None
            utime = None
            if not answer():
                return None
    srv, host, ssh, SCPClient = setup(case, d, play=play)
    cwd = os.path.join(d, 'cwd')
    src = os.path.join(cwd, case['name'])
    paths, want, dirs = populate(case, src)
    scp = SCPClient(ssh.get_transport(), buff_size=case['buff'] if max(
        [len(b) for b in want.values()] + [0]) < 5000 else 16384,
        socket_timeout=2.0 if bad and bad[1] == 'silent' else 10.0)
    if case['what'] == 'tree':
        want = {case['name'] + '/' + p: b for p, b in want.items()}
        dirs = {case['name'] + '/' + p for p in dirs} | {case['name']}
        srcs = [src]
        orig = {p: os.path.join(cwd, p) for p in set(want) | dirs}
    else:
        base = {}
        for p in paths:
            base.setdefault(os.path.basename(p), p)
        orig, dirs = base, set()
        want = {n: want[os.path.relpath(p, src)] for n, p in base.items()}
        srcs = list(base.values())
    err = None
    try:
        scp.put(srcs, case['to'], recursive=case['what'] == 'tree',
                preserve_times=case['preserve'])
    except Hang:
        t.require(False, 'put never ends')
    except Exception as e:
        err = e
    signal.alarm(0)
    t.require(not problem or struck, 'protocol: %r', problem)
    if struck:
        t.require(err is not None, 'no exception although the server '
                  'answered %r', struck)
        t.label(struck[0])
        return
    t.require(err is None, 'fails without a fault: %r', err)
    t.require(got == want, 'put: %s', trees.diff(got, want))
    t.require(gdirs == dirs, 'directories %r, not %r', gdirs, dirs)
    for p in orig:
        s = os.stat(orig[p])
        t.require(p not in modes or modes[p] ==
                  stat.S_IMODE(s.st_mode), 'mode of %r is %o, not %o', p,
                  modes.get(p, 0), s.st_mode)
        t.require(times[p] == (int(s.st_mtime) if case['preserve'] else None),
                  'time of %r: %r', p, times[p])
    t.label('files' if len(want) > 1 else '-few')


SEVERAL = st.fixed_dictionaries({
    'src': st.lists(st.one_of(
        st.tuples(st.just('f'), trees.CONTENT).map(list),
        st.tuples(st.just('d'), trees.trees(3, names=NAMES, dirs=DIRS))
        .map(list)), min_size=2, max_size=4),
    'names': st.permutations(['one', 'two.txt', 'a b', "o'r", 'one2', 'dé']),
    'local': st.sampled_from(['dir', 'dir', 'dir', 'cwd', 'none', 'file']),
    'recursive': st.sampled_from([True, True, True, False]),
    'times': st.lists(st.integers(1, 2**31 - 1), min_size=4, max_size=4),
    'preserve': st.booleans(), 'abs': st.booleans(), 'tuple': st.booleans()})


@sub('C29', 'several', SEVERAL, quick=100, thorough=2000,
     rule='put and get of lists that mix files and directories, recursive or not, into a directory, the working directory, a missing path or a file: everything under its own name with its modification and access times, and an exception where that is impossible; non-trivial = files and directories mixed, or refused')
@unprivileged('vp.sshd', MOD)
def several(case, t, d):
    srv, host, ssh, SCPClient = setup(case, d)
    cwd = os.path.join(d, 'cwd')
    src, up = os.path.join(cwd, 'src'), os.path.join(host, 'up')
    for x in (src, up):
        os.mkdir(x)
    os.chdir(src)
    want, dirs, kinds, tm = {}, set(), set(), case['times']
    names = case['names'][:len(case['src'])]
    for n, (k, x) in zip(names, case['src']):
        kinds.add(k)
        if k == 'f':
            want[n] = trees.data(x)
            with open(os.path.join(src, n), 'wb') as f:
                f.write(want[n])
        else:
            os.mkdir(os.path.join(src, n))
            trees.write(os.path.join(src, n), x)
            want.update({n + '/' + p: b for p, b in trees.rel(x).items()})
            dirs |= {n} | {os.path.relpath(os.path.join(r, y), src)
                           for r, ds, fs in os.walk(os.path.join(src, n))
                           for y in ds}
    when = {p: (tm[i % 4], tm[(i + 1) % 4])
            for i, p in enumerate(sorted(want))}

    def settime(root):
        for p, u in when.items():
            os.utime(os.path.join(root, p), u)

    def result(root):
        st_ = {p: os.stat(os.path.join(root, p)) for p in want
               if os.path.isfile(os.path.join(root, p))}
        return (trees.read(root), {os.path.relpath(os.path.join(r, y), root)
                                   for r, ds, fs in os.walk(root)
                                   for y in ds}, st_)

    def judge(root, kind, full):
        got, have, stats = result(root)
        t.require(got == full, '%s: %s', kind, trees.diff(got, full))
        t.require(have == (dirs if full is want else set()),
                  '%s: directories %r, not %r', kind, have, dirs)
        for p in full:
            if case['preserve']:
                u = (int(stats[p].st_atime), int(stats[p].st_mtime))
                t.require(u == when[p], '%s: times of %r are %r, not %r',
                          kind, p, u, when[p])
            else:
                stale(t, os.path.join(root, p), kind)

    def run(f, *a, **k):
        try:
            f(*a, **k)
        except Hang:
            t.require(False, 'transfer never ends')
        except Exception as e:
            return e
    settime(src)
    seq = tuple if case['tuple'] else list
    scp = SCPClient(ssh.get_transport(), socket_timeout=10.0)
    rec = case['recursive']
    kw = dict(recursive=rec, preserve_times=case['preserve'])
    e = run(scp.put, seq(os.path.join(src, n) if case['abs'] else n
                         for n in names), up if case['abs'] else 'up', **kw)
    if not rec and dirs:
        t.require(e is not None, 'put: a directory without recursive, '
                  'but no exception')
        for n, (k, x) in zip(names, case['src']):
            if k == 'd':
                trees_left = os.path.join(up, n)
                t.require(not os.path.exists(trees_left),
                          'put: %r made without recursive', n)
    else:
        t.require(e is None, 'put fails: %r', e)
        judge(up, 'put', want)
    # and from the host
    os.system('cp -a %s %s' % (src, os.path.join(host, 'rem')))
    settime(os.path.join(host, 'rem'))
    back = os.path.join(cwd, 'back')
    loc = {'dir': back, 'cwd': '', 'none': back, 'file': back}[case['local']]
    if case['local'] in ('dir', 'cwd'):
        os.mkdir(back)
    if case['local'] == 'cwd':
        os.chdir(back)
    if case['local'] == 'file':
        with open(back, 'w') as f:
            f.write('mine')
    scp = SCPClient(ssh.get_transport(), socket_timeout=10.0)
    e = run(scp.get, seq(os.path.join(host, 'rem', n) if case['abs'] else
                         'rem/' + n for n in names), loc, **kw)
    if case['local'] in ('none', 'file') or not rec and dirs:
        t.require(e is not None, 'get of %d sources (%s) raises nothing',
                  len(names), case['local'])
        if case['local'] == 'none':
            t.require(not os.path.exists(back), 'get of %d sources made one '
                      'path', len(names))
        if case['local'] == 'file':
            with open(back) as f:
                t.require(f.read() == 'mine', 'get of %d sources replaced a '
                          'file', len(names))
        t.label('refused')
        return
    t.require(e is None, 'get fails: %r', e)
    judge(back, 'get', want)
    t.label('mixed' if len(kinds) == 2 else '-alike')


CHANGING = st.fixed_dictionaries({
    'size': st.sampled_from([1, 5, 20, 40, 41, 100, 1000]),
    'buff': st.sampled_from([16384, 1, 7, 40, 100]),
    'when': st.integers(0, 8),
    'how': st.one_of(
        st.tuples(st.just('cut'), st.integers(0, 60)),
        st.tuples(st.just('add'), st.sampled_from(
            [b'x', b'\0', b'\0' * 40, b'\0C0644 1 evil\nx\0',
             b'\0D0755 0 evil\nE\n', b'\1bad\n', b'x' * 50000]))),
    'others': st.integers(0, 2), 'first': st.booleans(),
    'preserve': st.booleans(), 'tree': st.booleans(),
    'again': st.booleans()})


@sub('C29', 'changing', CHANGING, quick=120, thorough=2500,
     rule='put of files of which one becomes shorter or longer while it is being sent (by bytes that look like the protocol): put ends, and raises or has sent the bytes that were there when it began, the other files unchanged, and nothing else; non-trivial = the change came before the file was sent whole')
@unprivileged('vp.sshd', MOD)
def changing(case, t, d):
    srv, host, ssh, SCPClient = setup(case, d)
    src = os.path.join(d, 'cwd', 'src')
    os.makedirs(src)
    names = ['m'] + ['a', 'z'][:case['others']]
    want = {}
    for i, n in enumerate(names):
        want[n] = (b'%d' % i) * (case['size'] if n == 'm' else 30)
        with open(os.path.join(src, n), 'wb') as f:
            f.write(want[n])
    if not case['first']:
        names.reverse()
    changed = os.path.join(src, 'm')
    how, arg = case['how']
    calls, at = [0], []

    def progress(name, size, pos):
        if name != b'm':
            return
        if calls[0] == case['when']:
            at.append(pos)
            if how == 'cut':
                os.truncate(changed, min(arg, case['size']))
            else:
                with open(changed, 'ab') as f:
                    f.write(arg)
        calls[0] += 1
    scp = SCPClient(ssh.get_transport(), buff_size=case['buff'],
                    socket_timeout=5.0, progress=progress)
    up = os.path.join(host, 'up')
    if not case['tree']:
        os.mkdir(up)
    err = None
    try:
        scp.put(src if case['tree'] else
                [os.path.join(src, n) for n in names], up,
                recursive=case['tree'], preserve_times=case['preserve'])
    except Hang:
        t.require(False, 'put never ends when a file is %s while it is sent',
                  'cut' if how == 'cut' else 'added to')
    except Exception as e:
        err = e
    scp.close()
    got = trees.read(up) if os.path.isdir(up) else {}
    t.require(set(got) <= set(want) and set(os.listdir(host)) <= {'up'},
              'put of %r makes %r', names, sorted(got))
    if not at or at[0] >= case['size'] or \
            how == 'cut' and arg >= case['size']:
        t.require(err is None, 'put fails: %r', err)
    if err is None:
        t.require(got == want, 'no exception, but %s', trees.diff(got, want))
    else:
        for n in got:
            t.require(n == 'm' or got[n] == want[n] or
                      want[n].startswith(got[n]),
                      'exception, but %r is %r', n, got[n][:60])
    for n in want:
        if n != 'm':
            with open(os.path.join(src, n), 'rb') as f:
                t.require(f.read() == want[n], 'put changes the source')
    if case['again'] and err is None:
        for n in want:
            with open(os.path.join(src, n), 'wb') as f:
                f.write(want[n])
        calls[0] = 10 ** 6
        signal.alarm(20)
        scp.put([os.path.join(src, n) for n in names], up)
        t.require(trees.read(up) == want, 'put again: %s',
                  trees.diff(trees.read(up), want))
    t.label('%s while it is sent' % how
            if at and at[0] < case['size'] else '-no change')
