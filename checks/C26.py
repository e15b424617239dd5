"""C26: SSH puts complete files in place, whatever their names, or raises."""
import logging
import os
import shutil

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.transfer.securesender'
REMOTE = ['rem', 'rem/sub', 'r s/t', 'rem/loc', "o'r", 'rem/', '$HOME',
          'a;b', 'dé', '`id`', 'a&b', '*']
CANCEL = ['.cancel', 'CANCEL', "cancel 'me'", '$x']
TEXT = st.one_of(
    st.none(), st.text(st.characters(blacklist_categories=['Cs'],
                                     blacklist_characters='\x00'),
                       max_size=20),
    st.sampled_from(["it's", '$HOME `id`', '%s %d', 'a\nb', '-n', '\\n']))
OP = st.one_of(
    st.just(['send']), st.tuples(st.just('cancel'), TEXT).map(list),
    st.tuples(st.just('local'), trees.trees(2, 1)).map(list),
    st.tuples(st.just('rewrite'), st.integers(0, 5)).map(list),
    st.tuples(st.just('way'), st.integers(0, 5)).map(list),
    st.tuples(st.just('clean'), st.integers(0, 5)).map(list),
    st.tuples(st.just('add'), trees.flat(2)).map(list))
BASE = {
    'tree': st.one_of(st.none(), trees.trees(4, 1)), 'files': trees.flat(2),
    'remote': st.sampled_from(REMOTE), 'abs': st.booleans(),
    'local': st.sampled_from(['loc', 'loc/', './loc', 'ABS']),
    'cancel': st.sampled_from(CANCEL),
    'user': st.sampled_from([None, 'sysop'])}
CASE = st.fixed_dictionaries(dict(
    BASE, first=st.lists(st.one_of(
        st.tuples(st.just('way'), st.integers(0, 5)).map(list),
        st.tuples(st.just('beside'), st.integers(0, 99),
                  st.integers(0, 20)).map(list)), max_size=2), ops=st.lists(OP, max_size=3), end=st.sampled_from(
        [None, None, 0, 1]), over=st.sampled_from([0, 0, 0, 1])))
FAULT = st.fixed_dictionaries(dict(
    BASE, old=st.lists(st.booleans(), min_size=8, max_size=8),
    what=st.sampled_from(['send', 'send', 'send', 'cancel']),
    fault=st.tuples(
        st.sampled_from(['close', 'drop', 'fail', 'fail', 'limit', 'limit',
                         'readonly', 'user', 'folder']),
        st.integers(0, 997), st.sampled_from([0, 1, 500, 20000])).map(list)))


def clash(a, b):
    ps = set(a) | set(b)
    return any(q.startswith(p + '/') for p in ps for q in ps)


def setup(case, d, fault=None):
    from vp import sshd
    logging.getLogger('paramiko').setLevel(logging.CRITICAL + 1)
    host = os.path.join(d, 'host')
    os.mkdir(host)
    m, args = {'dir': None, 'files': []}, {}
    if case['tree'] is not None:
        loc = case['local']
        m['dir'] = os.path.join(d, 'cwd', 'loc') if loc == 'ABS' else loc
        trees.write(m['dir'], case['tree'])
        args['local_directory'] = m['dir']
    have = {p.split('/')[0] for p in trees.rel(case['tree'] or [])}
    m['files'] = trees.write(os.path.join(d, 'cwd', 'single'),
                             [x for x in case['files'] if x[1] not in have])
    if m['files']:
        args['local_files'] = list(m['files'])
    user = case['user'] or 'nobody'
    srv = sshd.Sshd(host, d, user + ('?' if fault and fault[0] == 'user'
                                     else ''), fault)
    key = sshd.client(d, srv.port)
    remote = os.path.join(host, case['remote'])
    props = {'private_key': key, 'remote_host': '127.0.0.1',
             'remote_directory': remote if case['abs'] else case['remote']}
    if case['user']:
        props['remote_user'] = case['user']
    return srv, host, remote, props, args, m


def expected(m):
    new = trees.read(m['dir']) if m['dir'] is not None else {}
    n = len(new) + len(m['files'])
    for f in m['files']:
        with open(f, 'rb') as fh:
            new[os.path.basename(f)] = fh.read()
    return new, n


@sub('C26', 'histories', CASE, quick=200, thorough=1500,
     rule='histories of send, cancel and local changes against a real SSH server that runs sh and scp as an unprivileged user: remote files equal the model and nothing else appears; non-trivial = 2 or more files')
@unprivileged('vp.sshd', MOD)
def histories(case, t, d):
    from impactutils.transfer.securesender import SecureSender
    srv, host, remote, props, args, m = setup(case, d)
    s = SecureSender(properties=props, cancelfile=case['cancel'], **args)
    if case['over'] and '/' not in case['remote']:
        # a file where the directory is to be
        with open(remote, 'w') as f:
            f.write('x')
    pre = os.path.relpath(remote, host)
    want = {}
    for i, op in enumerate(case['first'] + [['send']] + case['ops'] + [
            ['send']] * any(o[0] == 'way' for o in case['ops']) + (
                [['clean', case['end']], ['send']]
                if case['end'] is not None else [])):
        if op[0] == 'send':
            new, n = expected(m)
            for p in {os.path.dirname(p) for p in new}:
                p = os.path.normpath(os.path.join(pre, p))
                if want.get(p) == b'in the way':
                    del want[p]
                    t.label('way')
            if clash(new, {}) or clash(new, {os.path.relpath(p, pre): 0
                                             for p in want}):
                return
            res = s.send()
            t.require(res[0] == n and str(n) in res[1],
                      'send reports %r, %d files were to send', res, n)
            want.update((os.path.normpath(os.path.join(pre, p)), b)
                        for p, b in new.items())
        elif op[0] == 'cancel':
            msg = s.cancel() if op[1] is None else \
                s.cancel(op[1]) if i % 2 else s.cancel(cancel_content=op[1])
            t.require(isinstance(msg, str) and msg, 'cancel returns %r', msg)
            want[os.path.normpath(os.path.join(pre, case['cancel']))] = \
                ((op[1] or '') + '\n').encode()
        elif op[0] == 'local' and m['dir']:
            if clash(trees.read(m['dir']), trees.rel(op[1])):
                return
            trees.write(m['dir'], op[1])
        elif op[0] == 'rewrite':
            have = [os.path.join(m['dir'], p)
                    for p in sorted(trees.read(m['dir']))] if m['dir'] else []
            have += m['files']
            if have:
                trees.rewrite(have[op[1] % len(have)], op[1] % 2)
        elif op[0] == 'way' and m['dir']:
            # a remote file where a folder with files is to be
            have = sorted({os.path.dirname(p) for p in trees.read(m['dir'])
                           if '/' in p})
            p = os.path.join(remote, have[op[1] % len(have)]) if have else ''
            if p and not os.path.exists(p) and os.path.isdir(
                    os.path.dirname(p)) or (have and i == 0 and
                                            not case['over']):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as f:
                    f.write('in the way')
                want[os.path.relpath(p, host)] = b'in the way'
        elif op[0] == 'clean' and not case['over']:
            # somebody removes a folder, or all of them
            have = sorted({os.path.dirname(p) for p in want})
            if have and os.path.isdir(remote):
                p = have[op[1] % len(have)]
                shutil.rmtree(os.path.join(host, p))
                want = {k: b for k, b in want.items()
                        if not k.startswith(p + '/')}
                t.label('cleaned')
        elif op[0] == 'beside' and not case['over']:
            # a file of somebody else, named after one that is sent
            new = expected(m)[0]
            have = sorted(new) + [case['cancel']]
            f, nm = os.path.split(have[op[1] % len(have)])
            f = os.path.join(f, trees.beside(nm, op[2]))
            g = os.path.normpath(os.path.join(pre, f))
            if f in new or clash(new, {f: 0}) or clash(want, {g: 0}):
                return
            p = os.path.join(remote, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(b'beside')
            want[g] = b'beside'
            t.label('beside')
        elif op[0] == 'add':
            old = {os.path.basename(f) for f in m['files']}
            old |= set(os.listdir(m['dir']) if m['dir'] else [])
            paths = trees.write(os.path.join(d, 'cwd', 'more%d' % i),
                                [x for x in op[1] if x[1] not in old])
            s.addFiles(paths)
            m['files'] = m['files'] + paths
        if m['dir'] and {os.path.basename(f) for f in m['files']} & \
                set(os.listdir(m['dir'])):
            return
        if case['over'] and op[0] in ('way', 'beside'):
            continue
        got = trees.read(host)
        t.require(got == want, 'step %d (%s): %s', i, op[0],
                  trees.diff(got, want))
    t.label('files' if len(want) > 1 else '-few')


@sub('C26', 'faults', FAULT, quick=200, thorough=1500,
     rule='the k-th remote command fails, is not answered or ends the connection, a file size limit strikes remote writes, the remote directory is read-only, a remote folder has the name of a file, or login is refused: success is only reported for complete files, other names keep complete old or new contents; non-trivial = the sender raised')
@unprivileged('vp.sshd', MOD)
def faults(case, t, d):
    from impactutils.transfer.securesender import SecureSender
    fault = list(case['fault'])
    folder = fault[0] == 'folder'
    srv, host, remote, props, args, m = setup(case, d,
                                              None if folder else fault)
    if fault[0] in ('close', 'drop', 'fail'):
        # count the commands first, in another directory
        srv.fault, n = ['', 0, 0], fault[1]
        os.mkdir(os.path.join(host, 'dry'))
        s = SecureSender(properties=dict(props, remote_directory='dry'),
                         cancelfile=case['cancel'], **args)
        s.cancel('late') if case['what'] == 'cancel' else s.send()
        # (folders that are there already need fewer commands)
        fault[1] = len(srv.commands) + n % max(1, len(srv.commands))
        srv.fault = fault
    if case['what'] == 'cancel':
        new, n = {case['cancel']: b'late' * 300 + b'\n'}, 1
    else:
        new, n = expected(m)
    if clash(new, {}):
        return
    old = {p: b'previous ' + p.encode() for p, o in zip(sorted(new),
                                                        case['old']) if o}
    for p, b in old.items():
        f = os.path.join(remote, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as fh:
            fh.write(b)
    kept = None
    if folder:
        # a remote folder where a file is to be
        folder = sorted(new)[fault[1] % len(new)] if new else None
        old.pop(folder, None)
        if folder:
            f = os.path.join(remote, folder)
            if os.path.isfile(f):
                os.remove(f)
            os.makedirs(f)
            if fault[2]:
                kept = folder + '/kept'
                with open(os.path.join(f, 'kept'), 'w') as fh:
                    fh.write('kept')
    ro = fault[0] == 'readonly' and os.geteuid() != 0
    if case['what'] == 'cancel':
        os.makedirs(remote, exist_ok=True)
    if ro:
        for r, ds, fs in os.walk(host, topdown=False):
            os.chmod(r, 0o555)
    s = SecureSender(properties=props, cancelfile=case['cancel'], **args)
    res = err = None
    try:
        res = s.cancel('late' * 300) if case['what'] == 'cancel' else s.send()
    except Exception as e:
        err = e
    got = trees.read(remote) if os.path.isdir(remote) else {}
    if kept:
        t.require(got.pop(kept, None) == b'kept', 'a remote folder was '
                  'emptied')
    if folder:
        t.require(not [p for p in got if p.startswith(folder + '/')],
                  'put into a folder of the name of the file: %r',
                  sorted(got))
    if err is None:
        t.require(got == new, 'reports %r, but (%s): %s', res, fault[0],
                  trees.diff(got, new))
        t.label('-no effect')
        t.require(fault[0] != 'user', 'logged in as %r', srv.logins)
    else:
        struck = srv.struck or fault[0] in ('limit', 'user') or ro or folder
        t.require(struck, 'fails without a fault: %r', err)
        t.label(fault[0])
    if case['what'] == 'cancel':
        return
    for p in new:
        t.require(got.get(p) in (old.get(p), new[p]),
                  'after a failed send %r is neither the old nor the new '
                  'version: %r', p, (got.get(p) or b'')[:40])
    for p in got:
        t.require(p in new or 'tmp' in p, 'left %r', p)


@sub('C26', 'two_senders', st.fixed_dictionaries({
    'trees': trees.mates(3), 'remote': st.sampled_from(REMOTE),
    'k': st.integers(0, 997), 'there': st.booleans(),
    'sub': st.sampled_from(['send', 'send', 'send', 'cancel'])}),
    quick=100, thorough=1200,
    rule='before the k-th remote command of one sender is run, another sends files of the same names, or cancels; both succeed and the names hold complete files of one of them; non-trivial = the other sender got in between')
@unprivileged('vp.sshd', MOD)
def two_senders(case, t, d):
    from impactutils.transfer.securesender import SecureSender
    known, news, senders = {}, [], []
    base = {'tree': None, 'files': [], 'local': 'loc', 'user': None,
            'remote': case['remote'], 'abs': False}
    srv, host, remote, props, _, _ = setup(base, d)
    for name, tree in zip('ab', case['trees']):
        path = os.path.join(d, 'cwd', 'local-' + name, 'x')
        trees.write(path, tree)
        senders.append(SecureSender(properties=props, local_directory=path))
        news.append(trees.read(path))
        for p, b in news[-1].items():
            known.setdefault(p, set()).add(b)
    if clash(known, {'.cancel': 0}):
        t.label('-clash')
        return
    if case['there'] or case['sub'] == 'cancel':
        os.makedirs(remote)
    # count the commands first, in another directory
    SecureSender(properties=dict(props, remote_directory='dry/run'),
                 local_directory=os.path.join(d, 'cwd', 'local-a', 'x')).send()
    state = {'k': case['k'] % len(srv.commands), 'err': None, 'bad': None}

    def look():
        for p, b in known.items():
            f = os.path.join(remote, p)
            if p != '.cancel' and os.path.isfile(f):
                with open(f, 'rb') as fh:
                    got = fh.read()
                if got not in b:
                    state['bad'] = (p, got[:60])

    def hook(command):
        if state['k'] is None:
            return
        k, state['k'] = state['k'], None
        look()
        if k == 0:
            try:
                if case['sub'] == 'cancel':
                    senders[1].cancel()
                else:
                    senders[1].send()
            except Exception as e:
                state['err'] = e
            look()
            t.label('between')
        else:
            state['k'] = k - 1

    srv.hook = hook
    try:
        res = senders[0].send()
    except Exception as e:
        t.require(False, 'a send fails, as another sender works there: %r', e)
    ran, state['k'] = state['k'] is None, None
    look()
    t.require(state['err'] is None, 'the sender in between fails: %r',
              state['err'])
    t.require(state['bad'] is None, '%r was seen with other contents than '
              'those of either sender: %r', *(state['bad'] or ('', '')))
    t.require(res[0] == len(news[0]), 'reports %r', res)
    got = trees.read(remote)
    want = dict(news[0])
    if ran and case['sub'] == 'send':
        want.update(news[1])
    if ran and case['sub'] == 'cancel':
        want['.cancel'] = b'\n'
        known.setdefault('.cancel', set()).add(b'\n')
    for p in want:
        if got.get(p) in known[p]:
            want[p] = got[p]     # the later of the two
    t.require(got == want, '%s', trees.diff(got, want))
    if not ran:
        t.label('-after')
