"""C22: copying puts complete, identical files in place, and cancels."""
import os
import resource
import shutil

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.transfer.copysender'
CANCEL = ['.cancel', 'CANCEL', 'cancel me']
REMOTE = ['rem', 'rem/sub', 'r s/t', 'rem/loc', "o'r", 'rem/']
LOCAL = ['loc', 'loc/', './loc', 'ABS', 'loc/loc', 'up/../loc']
OP = st.one_of(
    st.just(['send']), st.just(['send']),
    st.tuples(st.just('cancel'), st.one_of(st.none(), st.text(
        st.characters(blacklist_categories=['Cs']),
        max_size=20))).map(list),
    st.tuples(st.just('local'), trees.trees(2, 1)).map(list),
    st.tuples(st.just('drop'), st.integers(0, 5)).map(list),
    st.tuples(st.just('rewrite'), st.integers(0, 5)).map(list),
    st.tuples(st.just('add'), trees.flat(2)).map(list),
    st.tuples(st.just('chdir'), trees.trees(2)).map(list),
    st.tuples(st.just('beside'), st.integers(0, 99),
              st.integers(0, 20)).map(list),
    st.tuples(st.just('remote'), trees.trees(2, 1)).map(list),
    st.tuples(st.just('clean'), st.integers(0, 5)).map(list))
CASE = st.fixed_dictionaries({
    'tree': st.one_of(st.none(), trees.trees(5)), 'files': trees.flat(3),
    'remote': st.sampled_from(REMOTE), 'local': st.sampled_from(LOCAL),
    'absr': st.booleans(), 'cancel': st.sampled_from(CANCEL),
    'link': st.booleans(),
    'first': st.lists(st.tuples(st.just('beside'), st.integers(0, 99),
                                st.integers(0, 20)).map(list), max_size=2),
    'ops': st.lists(OP, min_size=1, max_size=7)})


def setup(case, d):
    """Write the local files; return (sender kwargs, model of the files)."""
    kw, model = {}, {'dir': None, 'files': []}
    root = os.path.join(d, 'cwd')
    if case['tree'] is not None:
        loc = case['local']
        os.makedirs(os.path.join(root, 'up'), exist_ok=True)
        path = os.path.join(root, 'loc/loc') if loc == 'ABS' else loc
        os.makedirs(path, exist_ok=True)
        trees.write(path, case['tree'])
        kw['local_directory'] = path
        model['dir'] = path
    files = trees.write(os.path.join(root, 'single'), case['files'])
    if files:
        kw['local_files'] = files
    model['files'] = list(files)
    return kw, model


def expected(model):
    out = {}
    if model['dir'] is not None:
        out.update(trees.read(model['dir']))
    n = len(out) + len(model['files'])
    for f in model['files']:
        with open(f, 'rb') as fh:
            out[os.path.basename(f)] = fh.read()
    return out, n


def clash(a, b):
    """True if a path of one is a directory of the other."""
    ps = set(a) | set(b)
    return any(q.startswith(p + '/') for p in ps for q in ps)


@sub('C22', 'histories', CASE, quick=300, thorough=4000,
     rule='histories of send, cancel, local changes, addFiles, changeDirectory and foreign remote files: remote tree equals the model after each step; non-trivial = 2 or more sends with files')
@unprivileged(MOD)
def histories(case, t, d):
    from impactutils.transfer.copysender import CopySender
    kw, model = setup(case, d)
    if case['link'] and model['dir'] and model['files']:
        os.symlink(model['files'][0], os.path.join(model['dir'], 'Lnk'))
    remote = os.path.join(d, 'cwd', case['remote']) if case['absr'] else \
        case['remote']
    c = CopySender(properties={'remote_directory': remote},
                   cancelfile=case['cancel'], **kw)
    want, sends = {}, 0
    for i, op in enumerate(case['first'] + [['send']] + case['ops']):
        if op[0] == 'send':
            new, n = expected(model)
            if clash(new, want):
                return
            res = c.send()
            t.require(res[0] == n and str(n) in res[1],
                      'send reports %r, %d files were to send', res, n)
            want.pop(case['cancel'], None)
            want.update(new)
            sends += bool(new)
            for p in new:
                t.require(not os.path.islink(os.path.join(remote, p)),
                          '%r is a link, not a copy', p)
        elif op[0] == 'cancel':
            if not os.path.isdir(remote):
                continue
            msg = c.cancel(op[1]) if i % 2 else c.cancel(cancel_content=op[1])
            t.require(isinstance(msg, str) and msg, 'cancel returns %r', msg)
            want[case['cancel']] = (op[1] or '').encode('utf-8')
        elif op[0] == 'local' and model['dir']:
            have = trees.read(model['dir'])
            if clash(have, trees.rel(op[1])):
                return
            trees.write(model['dir'], op[1])
        elif op[0] == 'drop' and model['dir']:
            have = sorted(trees.read(model['dir']))
            if have:
                os.remove(os.path.join(model['dir'], have[op[1] % len(have)]))
        elif op[0] == 'rewrite':
            have = [os.path.join(model['dir'], p)
                    for p in sorted(trees.read(model['dir']))
                    ] if model['dir'] else []
            have += model['files']
            if have:
                trees.rewrite(have[op[1] % len(have)], op[1] % 2)
        elif op[0] == 'add':
            old = {os.path.basename(f) for f in model['files']}
            new = [x for x in op[1] if x[1] not in old]
            paths = trees.write(os.path.join(d, 'cwd', 'more%d' % i), new)
            c.addFiles(paths)
            model['files'] += paths
        elif op[0] == 'chdir':
            nd = os.path.join(d, 'cwd', 'loc%d' % i)
            trees.write(nd, op[1])
            c.changeDirectory(nd)
            model['dir'] = nd
        elif op[0] == 'beside':
            # a file of somebody else, named after one that is sent
            have = sorted(expected(model)[0]) + [case['cancel']]
            f, nm = os.path.split(have[op[1] % len(have)])
            f = os.path.join(f, trees.beside(nm, op[2]))
            if f in expected(model)[0] or clash(expected(model)[0], {f: 0}) \
                    or clash(want, {f: 0}):
                return
            p = os.path.join(remote, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fh:
                fh.write(b'beside ' + f.encode())
            want[f] = b'beside ' + f.encode()
            t.label('beside')
        elif op[0] == 'clean' and os.path.isdir(remote):
            # somebody removes a folder, or all of them
            have = [''] + sorted({os.path.dirname(p) for p in want} - {''})
            p = have[op[1] % len(have)]
            shutil.rmtree(os.path.join(remote, p))
            want = {k: b for k, b in want.items()
                    if p and not k.startswith(p + '/')}
            if not p:
                t.label('cleaned')
                continue
        elif op[0] == 'remote' and os.path.isdir(remote):
            if clash(want, trees.rel(op[1])):
                return
            trees.write(remote, op[1])
            want.update(trees.rel(op[1]))
        got = trees.read(remote)
        t.require(got == want, 'step %d (%s): %s', i, op[0],
                  trees.diff(got, want))
    exp, n = expected(model)
    t.label('sends %d' % sends if sends > 1 else '-few')


FAULT = st.fixed_dictionaries({
    'tree': trees.trees(4, 1), 'files': trees.flat(3),
    'remote': st.sampled_from(REMOTE), 'local': st.sampled_from(LOCAL),
    'old': st.lists(st.booleans(), min_size=8, max_size=8),
    'fault': st.sampled_from(['size', 'size', 'size', 'unreadable', 'gone',
                              'readonly', 'folder']),
    'k': st.integers(0, 10), 'at': st.sampled_from([0, 1, 10, 500, 4096])})


@sub('C22', 'faults', FAULT, quick=200, thorough=3000,
     rule='a write fails after n bytes (file size limit), a local file is unreadable or gone, the remote is read-only, or a remote folder has the name of a file: send raises and every remote file is the complete old or new version; non-trivial = the fault struck')
@unprivileged(MOD)
def faults(case, t, d):
    from impactutils.transfer.copysender import CopySender
    kw, model = setup(case, d)
    remote = case['remote']
    new, n = expected(model)
    if clash(new, {}):
        t.label('-clash')
        return
    old = {}
    names = sorted(new)
    for p, has in zip(names, case['old']):
        if has:
            old[p] = b'previous version of ' + p.encode('utf-8') + b'!' * 50
    for p, b in old.items():
        f = os.path.join(remote, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'wb') as fh:
            fh.write(b)
    c = CopySender(properties={'remote_directory': remote}, **kw)
    struck = True
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    sources = [os.path.join(model['dir'], p)
               for p in sorted(trees.read(model['dir']))] + model['files']
    if case['fault'] == 'size':
        struck = any(len(b) > case['at'] for b in new.values())
        struck = struck or any(os.path.getsize(s) > case['at']
                               for s in sources)
        resource.setrlimit(resource.RLIMIT_FSIZE, (case['at'], hard))
    elif case['fault'] == 'unreadable':
        os.chmod(sources[case['k'] % len(sources)], 0)
    elif case['fault'] == 'gone':
        if not model['files']:
            t.label('-no fault')
            return
        os.remove(model['files'][case['k'] % len(model['files'])])
    elif case['fault'] == 'folder':
        # a remote folder where a file is to be
        struck = bool(names)
        if names:
            p = names[case['k'] % len(names)]
            old.pop(p, None)
            f = os.path.join(remote, p)
            if os.path.isfile(f):
                os.remove(f)
            os.makedirs(f)
            old[p + '/kept'] = b'kept'
            with open(os.path.join(f, 'kept'), 'w') as fh:
                fh.write('kept')
    else:
        if os.getuid() == 0:
            return
        os.makedirs(remote, exist_ok=True)
        for r, ds, fs in os.walk(remote, topdown=False):
            os.chmod(r, 0o555)
    try:
        res = c.send()
    except Exception:
        res = None
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
    if struck:
        t.require(res is None, 'send reports %r although a file could not be '
                  'copied (%s)', res, case['fault'])
        t.label(case['fault'])
    else:
        t.require(res is not None and res[0] == n, 'send fails: %r', res)
        t.label('-no fault')
    got = trees.read(remote) if os.path.isdir(remote) else {}
    for p in names:
        ok = [old.get(p), new.get(p)]
        if case['fault'] in ('gone', 'unreadable', 'size'):
            # the sender's own copy of a lost local file counts as unsent
            ok.append(None if p not in old else old[p])
        if p == '.cancel':
            ok.append(None)    # an earlier cancellation is withdrawn first
        # a directory file replaced by a single file of the same name
        alt = os.path.join(model['dir'], p)
        if os.path.isfile(alt) and os.access(alt, os.R_OK):
            with open(alt, 'rb') as f:
                ok.append(f.read())
        t.require(got.get(p) in ok, 'after a failed send %r is neither the '
                  'old nor the new version: %r', p,
                  got.get(p) and got[p][:40])
    if case['fault'] == 'folder':
        t.require(all(got.get(p) == old[p] for p in old
                      if p.endswith('/kept')), 'a remote folder was emptied')
        t.require(not [p for p in got if p not in old and
                       os.path.dirname(p) + '/kept' in old],
                  'put into a folder of the name of the file')
    for p in got:
        t.require(p in new or p in old or 'tmp' in p,
                  'a failed send left %r', p)


@sub('C22', 'two_senders', st.fixed_dictionaries({
    'trees': trees.mates(), 'single': st.booleans(),
    'remote': st.sampled_from(REMOTE), 'k': st.integers(0, 997),
    'cancelled': st.booleans(), 'sub': st.sampled_from(['send', 'cancel']),
    'there': st.booleans()}), quick=250, thorough=3000,
    rule='at the k-th change one sender makes (or is about to make) to the remote directory, another sends files of the same names, or cancels; both succeed, and final names only ever hold complete files of one of them; non-trivial = the other sender got in between')
@unprivileged(MOD)
def two_senders(case, t, d):
    import sys
    from impactutils.transfer.copysender import CopySender
    root = os.path.join(d, 'cwd')
    remote = os.path.join(root, case['remote'])
    known, props = {}, {'remote_directory': case['remote']}
    senders, news, first = [], [], None
    for name, tree in zip('ab', case['trees']):
        path = os.path.join(root, 'local-' + name, 'x')
        files = trees.write(path, tree)
        kw = {'local_directory': path}
        new = trees.read(path)
        if case['single']:
            base = {os.path.basename(f) for f in files}
            if len(base) < len(files):
                kw = {'local_files': files[:1]}
                new = {os.path.basename(files[0]): new[
                    os.path.relpath(files[0], path)]}
            else:
                kw = {'local_files': files}
                new = {os.path.basename(f): new[os.path.relpath(f, path)]
                       for f in files}
        senders.append(CopySender(properties=props, **kw))
        news.append(new)
        first = first or kw
    for new in news:
        for p, b in new.items():
            known.setdefault(p, set()).add(b)
    if clash(known, {'.cancel': 0}):
        t.label('-clash')
        return
    stop = case['cancelled'] or case['sub'] == 'cancel'
    if case['there'] or stop:
        os.makedirs(remote)
    if case['cancelled']:
        with open(os.path.join(remote, '.cancel'), 'w') as f:
            f.write('stop')
        known.setdefault('.cancel', set()).add(b'stop')
    known.setdefault('.cancel', set()).add(b'')
    state = {'k': None, 'err': None, 'bad': None}

    def look():
        for p, b in known.items():
            f = os.path.join(remote, p)
            if os.path.isfile(f):
                with open(f, 'rb') as fh:
                    got = fh.read()
                if got not in b:
                    state['bad'] = (p, got[:60])

    def hook(event, args):
        if state['k'] is None:
            return
        if event == 'open':
            ours = isinstance(args[2], int) and args[2] & (
                os.O_WRONLY | os.O_RDWR)
        else:
            ours = event in ('os.rename', 'os.mkdir', 'os.remove',
                             'os.chmod', 'os.link')
        if not ours or not os.path.abspath(os.fsdecode(args[0])).startswith(
                os.path.normpath(remote)):
            return
        k, state['k'] = state['k'], None
        look()
        if k == 0:
            try:
                if case['sub'] == 'cancel':
                    senders[1].cancel()
                else:
                    senders[1].send()
            except Exception as e:
                state['err'] = e
            look()
            t.label('between')
        else:
            state['k'] = k - 1

    # count the changes first, in another directory
    sys.addaudithook(hook)
    remote, state['k'] = os.path.join(root, 'dry'), 9999
    CopySender(properties={'remote_directory': 'dry'}, **first).send()
    remote = os.path.join(root, case['remote'])
    state['k'] = case['k'] % max(1, 9999 - state['k'])
    try:
        res = senders[0].send()
    except Exception as e:
        t.require(False, 'a send fails, as another sender works there: %r', e)
    ran, state['k'] = state['k'] is None, None
    look()
    t.require(state['err'] is None, 'the sender in between fails: %r',
              state['err'])
    t.require(state['bad'] is None, '%r was seen with other contents than '
              'those of either sender: %r', *(state['bad'] or ('', '')))
    t.require(res[0] == len(news[0]), 'reports %r', res)
    got = trees.read(remote)
    want = dict(news[0])
    if ran and case['sub'] == 'send':
        for p, b in news[1].items():
            want[p] = got.get(p) if got.get(p) in known[p] else b
    got.pop('.cancel', None)
    want.pop('.cancel', None)
    for p in want:
        if got.get(p) in known[p]:
            want[p] = got[p]     # the later of the two
    t.require(got == want, '%s', trees.diff(got, want))
    if not ran:
        t.label('-after')


@sub('C22', 'killed', st.fixed_dictionaries({
    'tree': trees.trees(4, 1), 'files': trees.flat(2),
    'remote': st.sampled_from(REMOTE), 'local': st.sampled_from(LOCAL),
    'old': st.lists(st.booleans(), min_size=8, max_size=8),
    'k': st.integers(0, 997), 'exc': st.booleans()}),
    quick=150, thorough=2500,
    rule='the sending process ends (or is interrupted) at its k-th change of the remote directory: every remote file is a complete old or new version, and the next send puts everything in place; non-trivial = it ended before the send was done')
@unprivileged(MOD)
def killed(case, t, d):
    import sys
    from impactutils.transfer.copysender import CopySender
    kw, model = setup(case, d)
    root = os.path.join(d, 'cwd')
    new, n = expected(model)
    if clash(new, {'.cancel': 0}):
        t.label('-clash')
        return
    vers = {p: {b} for p, b in new.items()}
    for f in sorted(trees.read(model['dir'])):
        # single files may have the name of one of the directory
        with open(os.path.join(model['dir'], f), 'rb') as fh:
            vers[f].add(fh.read())
    for p, has in zip(sorted(new), case['old']):
        b = b'previous version of ' + p.encode('utf-8') + b'!' * 50
        vers[p].add(b if has else None)
        if has:
            f = os.path.join(case['remote'], p)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'wb') as fh:
                fh.write(b)
    state = {'k': None, 'dir': os.path.join(root, 'dry')}

    def hook(event, args):
        if state['k'] is None:
            return
        if event == 'open':
            ours = isinstance(args[2], int) and args[2] & (
                os.O_WRONLY | os.O_RDWR)
        else:
            ours = event in ('os.rename', 'os.mkdir', 'os.remove',
                             'os.chmod', 'os.link')
        if not ours or not os.path.abspath(os.fsdecode(args[0])).startswith(
                state['dir']):
            return
        if state['k'] == 0:
            state['k'] = None
            if case['exc']:
                raise KeyboardInterrupt
            os._exit(77)
        state['k'] -= 1

    # count the changes first, in another directory
    sys.addaudithook(hook)
    state['k'] = 9999
    CopySender(properties={'remote_directory': 'dry'}, **kw).send()
    count, state['k'] = 9999 - state['k'], None
    state['dir'] = os.path.normpath(os.path.join(root, case['remote']))
    pid = os.fork()
    if pid == 0:
        try:
            state['k'] = case['k'] % max(1, count)
            CopySender(properties={'remote_directory': case['remote']},
                       **kw).send()
            os._exit(0)
        except KeyboardInterrupt:
            os._exit(77)
        finally:
            os._exit(78)
    code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    t.require(code in (0, 77), 'send fails')
    t.label('killed' if code else '-done')
    got = trees.read(case['remote']) if os.path.isdir(case['remote']) else {}
    for p in new:
        ok = vers[p] | ({None} if p == '.cancel' else set())
        t.require(got.get(p) in ok, 'after the end of the sender %r is '
                  'neither the old nor the new version: %r', p,
                  got.get(p) and got[p][:40])
    res = CopySender(properties={'remote_directory': case['remote']},
                     **kw).send()
    t.require(res[0] == n, 'reports %r', res)
    after = trees.read(case['remote'])
    for p in new:
        t.require(after.get(p) == new[p], 'the next send leaves %r as %r', p,
                  after.get(p) and after[p][:40])
