"""C25: FTP puts complete files in place, by rename, or raises."""
import os
import socket

from hypothesis import strategies as st

from vp import servers, trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.transfer.ftpsender'
# (files that look like the partial files of others)
NAMES = trees.NAMES + ['a.txt.tmp', 'grid.xml.tmp', 'data.json.tmp']
REMOTE = ['/pub/incoming/event1', 'pub/x', 'pub/x/', '/pub', 'a b/c', '/dé',
          '/', 'loc', '/pub/loc/', 'x/../y', 'data', '/d/d/d']
OP = st.one_of(
    st.just(['send']),
    st.tuples(st.just('cancel'), st.one_of(st.none(), st.text(
        st.characters(blacklist_categories=['Cs']),
        max_size=20))).map(list),
    st.tuples(st.just('local'), trees.trees(2, 1, names=NAMES)).map(list),
    st.tuples(st.just('add'), trees.flat(2, names=NAMES)).map(list),
    st.tuples(st.just('rewrite'), st.integers(0, 5)).map(list),
    st.tuples(st.just('chdir'), trees.trees(2, names=NAMES)).map(list),
    st.tuples(st.just('clean'), st.integers(0, 5)).map(list))
BASE = {
    'tree': st.one_of(st.none(), trees.trees(5, names=NAMES),
                      trees.trees(5, 1, names=NAMES)),
    'files': trees.flat(3, names=NAMES),
    'remote': st.sampled_from(REMOTE), 'local': st.sampled_from(
        ['loc', 'loc/', './loc', 'ABS']),
    'dirs': st.lists(st.sampled_from(
        ['/pub', '/pub/x', '/a b', '/loc', '/x', '/y']), max_size=3),
    'user': st.one_of(st.none(), st.sampled_from([['me', 'pä ss'],
                                                  ['me', '']]))}
CASE = st.fixed_dictionaries(dict(
    BASE, ops=st.lists(OP, max_size=5), there=st.lists(st.tuples(
        st.integers(0, 99), st.integers(0, 20)), max_size=4, unique=True)))
FAULT = st.fixed_dictionaries(dict(
    BASE, old=st.lists(st.booleans(), min_size=8, max_size=8),
    cancel=st.integers(0, 3).map(lambda i: i == 0),
    fault=st.tuples(st.sampled_from(
        ['greet', 'login', 'mkd', 'stor', 'drop', 'full', 'rename', 'dead']),
        st.integers(0, 7), st.sampled_from([0, 1, 500])).map(list)))


def clash(a, b):
    ps = set(a) | set(b)
    return any(q.startswith(p + '/') for p in ps for q in ps)


def setup(case, d, **kw):
    import ftplib
    socket.setdefaulttimeout(20)
    root = os.path.join(d, 'cwd')
    m = {'dir': None, 'files': []}
    args = {}
    if case['tree'] is not None:
        loc = case['local']
        path = os.path.join(root, 'loc') if loc == 'ABS' else loc
        trees.write(path, case['tree'])
        args['local_directory'] = m['dir'] = path
    # a directory's file and a single file do not share a name here
    have = {p.split('/')[0] for p in trees.rel(case['tree'] or [])}
    files = trees.write(os.path.join(root, 'single'),
                        [x for x in case['files'] if x[1] not in have])
    if files:
        args['local_files'] = list(files)
    m['files'] = files
    dirs = set()
    for x in case['dirs']:
        while x != '/':
            dirs.add(x)
            x = servers.norm(x, '..')
    props = {'remote_host': '127.0.0.1', 'remote_directory': case['remote']}
    if case['user']:
        props['user'], props['password'] = case['user']
    return dirs, props, args, m, ftplib


def expected(m, remote):
    new = {}
    if m['dir'] is not None:
        new.update(trees.read(m['dir']))
    n = len(new) + len(m['files'])
    for f in m['files']:
        with open(f, 'rb') as fh:
            new[os.path.basename(f)] = fh.read()
    return {servers.norm(remote, p): b for p, b in new.items()}, n


@sub('C25', 'histories', CASE, quick=300, thorough=3000,
     rule='histories of send, cancel and local changes against an in-memory FTP server: remote files equal the model, final names are only written by rename; non-trivial = 2 or more files')
@unprivileged(MOD)
def histories(case, t, d):
    from impactutils.transfer.ftpsender import FTPSender
    dirs, props, args, m, ftplib = setup(case, d)
    remote = servers.norm('/', case['remote'])
    want = {}
    if case['there']:
        # other files are there already, and stay
        x = remote
        while x != '/':
            dirs.add(x)
            x = servers.norm(x, '..')
        new = expected(m, remote)[0]
        for k, l in case['there']:
            have = sorted(new) + [servers.norm(remote, '.cancel')]
            f, nm = os.path.split(have[k % len(have)])
            f = servers.norm(f, trees.beside(nm, l))
            if f in new or clash(new, {f: 0}):
                continue
            want[f] = b'there before ' + f.encode()
            x = os.path.dirname(f)
            while x != '/':
                dirs.add(x)
                x = os.path.dirname(x)
    if want:
        t.label('there before')
    srv = servers.Ftp(dirs, dict(want))
    ftplib.FTP.port = srv.port
    s = FTPSender(properties=props, **args)
    for i, op in enumerate([['send']] + case['ops']):
        if op[0] == 'send':
            new, n = expected(m, remote)
            if clash(new, want) or any(p in srv.dirs for p in new):
                return
            res = s.send()
            t.require(res[0] == n and str(n) in res[1],
                      'send reports %r, %d files were to send', res, n)
            want.update(new)
        elif op[0] == 'cancel':
            msg = s.cancel() if op[1] is None else \
                s.cancel(op[1]) if i % 2 else s.cancel(cancel_content=op[1])
            t.require(isinstance(msg, str) and msg, 'cancel returns %r', msg)
            want[servers.norm(remote, '.cancel')] = (op[1] or '').encode()
        elif op[0] == 'local' and m['dir']:
            have = trees.read(m['dir'])
            if clash(have, trees.rel(op[1])):
                return
            trees.write(m['dir'], op[1])
        elif op[0] == 'add':
            old = {os.path.basename(f) for f in m['files']}
            paths = trees.write(os.path.join(d, 'cwd', 'more%d' % i),
                                [x for x in op[1] if x[1] not in old])
            s.addFiles(paths)
            m['files'] = m['files'] + paths
        elif op[0] == 'rewrite':
            have = [os.path.join(m['dir'], p)
                    for p in sorted(trees.read(m['dir']))] if m['dir'] else []
            have += m['files']
            if have:
                trees.rewrite(have[op[1] % len(have)], op[1] % 2)
        elif op[0] == 'chdir':
            m['dir'] = os.path.join(d, 'cwd', 'loc%d' % i)
            trees.write(m['dir'], op[1])
            s.changeDirectory(m['dir'])
        elif op[0] == 'clean':
            # somebody removes a folder
            have = sorted({os.path.dirname(p) for p in srv.files} |
                          {remote} - {'/'})
            if have:
                p = have[op[1] % len(have)].rstrip('/') + '/'
                srv.dirs -= {x for x in srv.dirs
                             if (x + '/').startswith(p) and x != '/'}
                for x in [x for x in srv.files if x.startswith(p)]:
                    del srv.files[x]
                    want.pop(x, None)
                t.label('cleaned')
        # a name in both: either content is there
        both = {servers.norm(remote, os.path.basename(f))
                for f in m['files']}
        got = dict(srv.files)
        for p in list(both):
            alt = os.path.join(m['dir'] or 'none', os.path.basename(p))
            if op[0] == 'send' and os.path.isfile(alt) and p in got:
                with open(alt, 'rb') as f:
                    if got[p] == f.read():
                        want[p] = got[p]
        t.require(got == want, 'step %d (%s): %s', i, op[0],
                  trees.diff(got, want))
        if srv.error:
            raise srv.error
    for p in srv.direct:
        t.require(p not in want, '%r was written in place', p)
    for u, pw in srv.logins:
        t.require([u, pw] == case['user'] if case['user'] else
                  u == 'anonymous', 'logged in as %r, not %r', (u, pw),
                  case['user'])
    t.label('files' if len(want) > 1 else '-few')


@sub('C25', 'faults', FAULT, quick=300, thorough=3000,
     rule='one fault of the FTP server (greeting, login, MKD, the k-th STOR refused, dropped or failing after n bytes, RNTO): the sender raises and every remote name has complete old or new contents; non-trivial = the fault struck')
@unprivileged(MOD)
def faults(case, t, d):
    from impactutils.transfer.ftpsender import FTPSender
    dirs, props, args, m, ftplib = setup(case, d)
    remote = servers.norm('/', case['remote'])
    new, n = expected(m, remote)
    fault = list(case['fault'])
    if fault[0] in ('stor', 'drop', 'full', 'rename') and n and \
            not case['cancel']:
        fault[1] %= n
    elif case['cancel']:
        fault[1] = 0
    if case['cancel']:
        new = {servers.norm(remote, '.cancel'): b'late' * 300}
    old = {p: b'previous ' + p.encode() for p, o in zip(sorted(new),
                                                        case['old']) if o}
    for p in old:
        x = servers.norm(p, '..')
        while x != '/':
            dirs.add(x)
            x = servers.norm(x, '..')
    if clash(new, {}) or any(p in dirs for p in new):
        return
    hold = None
    if fault[0] == 'dead':
        hold = servers.dead_port()
        ftplib.FTP.port = hold.getsockname()[1]
        srv = None
    else:
        srv = servers.Ftp(dirs, old, fault)
        ftplib.FTP.port = srv.port
    s = FTPSender(properties=props, **args)
    res = err = None
    try:
        res = s.cancel('late' * 300) if case['cancel'] else s.send()
    except Exception as e:
        err = e
    if srv is None:
        t.require(err is not None, 'no server, but %r', res)
        t.label('dead')
        return
    if srv.error:
        raise srv.error
    if srv.struck:
        t.require(err is not None, 'reports %r although the server failed '
                  '(%s)', res, fault[0])
        t.label(fault[0])
    else:
        t.require(err is None, 'fails without a fault: %r', err)
        t.require(all(srv.files.get(p) == b for p, b in new.items()),
                  'without a fault: %s', trees.diff(srv.files, new))
        t.label('-no fault')
    for p in new:
        t.require(srv.files.get(p) in (old.get(p), new[p]),
                  'after a failed send %r is neither the old nor the new '
                  'version: %r', p, (srv.files.get(p) or b'')[:40])
    for p in srv.files:
        t.require(p in new or 'tmp' in p, 'left %r', p)
    if err is None or fault[0] in ('stor', 'mkd', 'login', 'greet'):
        t.require(not [p for p in srv.files if p not in new],
                  'left temporary files %r', sorted(srv.files))
    t.require(os.listdir(os.path.join(d, 'tmp')) == [],
              'left local temporary files')


@sub('C25', 'two_senders', st.fixed_dictionaries({
    'trees': trees.mates(names=NAMES), 'remote': st.sampled_from(REMOTE),
    'dirs': BASE['dirs'], 'user': BASE['user'], 'k': st.integers(0, 997),
    'sub': st.sampled_from(['send', 'send', 'send', 'cancel'])}),
    quick=200, thorough=3000,
    rule='before the k-th command of one sender (or part of its data) is carried out, another sends files of the same names, or cancels; both succeed and final names only ever hold complete files of one of them; non-trivial = the other sender got in between')
@unprivileged(MOD)
def two_senders(case, t, d):
    from impactutils.transfer.ftpsender import FTPSender
    dirs, props, _, _, ftplib = setup(
        dict(case, tree=None, files=[]), d)
    remote = servers.norm('/', case['remote'])
    senders, news, known = [], [], {}
    for name, tree in zip('ab', case['trees']):
        path = os.path.join(d, 'cwd', 'local-' + name, 'x')
        trees.write(path, tree)
        senders.append(FTPSender(properties=props, local_directory=path))
        new = {servers.norm(remote, p): b
               for p, b in trees.read(path).items()}
        news.append(new)
        for p, b in new.items():
            known.setdefault(p, set()).add(b)
    stop = servers.norm(remote, '.cancel')
    if clash(known, {stop: 0}) or any(p in dirs for p in known):
        t.label('-clash')
        return
    srv = servers.Ftp(dirs)
    srv.threads = True
    ftplib.FTP.port = srv.port
    # count the commands first, on another server
    count, dry = [], servers.Ftp(dirs)
    dry.hook = count.append
    ftplib.FTP.port = dry.port
    senders[0].send()
    ftplib.FTP.port = srv.port
    state = {'k': case['k'] % len(count), 'err': None, 'bad': None}

    def look():
        for p, b in known.items():
            got = srv.files.get(p)
            if got is not None and got not in b and p != stop:
                state['bad'] = (p, got[:60])

    def hook(cmd):
        if state['k'] is None:
            return
        k, state['k'] = state['k'], None
        look()
        if k == 0:
            try:
                if case['sub'] == 'cancel':
                    senders[1].cancel()
                else:
                    senders[1].send()
            except Exception as e:
                state['err'] = e
            look()
            t.label('between')
        else:
            state['k'] = k - 1

    srv.hook = hook
    try:
        res = senders[0].send()
    except Exception as e:
        t.require(False, 'a send fails, as another sender works there: %r', e)
    ran, state['k'] = state['k'] is None, None
    look()
    t.require(state['err'] is None, 'the sender in between fails: %r',
              state['err'])
    t.require(state['bad'] is None, '%r was seen with other contents than '
              'those of either sender: %r', *(state['bad'] or ('', '')))
    t.require(res[0] == len(news[0]), 'reports %r', res)
    got = dict(srv.files)
    want = dict(news[0])
    if ran and case['sub'] == 'send':
        want.update(news[1])
    if ran and case['sub'] == 'cancel':
        want[stop] = b''
        known.setdefault(stop, set()).add(b'')
    for p in want:
        if got.get(p) in known[p]:
            want[p] = got[p]     # the later of the two
    t.require(got == want, '%s', trees.diff(got, want))
    if not ran:
        t.label('-after')
