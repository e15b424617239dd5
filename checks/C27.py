"""C27: senders refuse incomplete input and own what they are given."""
import copy
import os

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.transfer.factory'
CLASSES = {
    'copy': ('CopySender', ['remote_directory']),
    'ftp': ('FTPSender', ['remote_directory', 'remote_host']),
    'pdl': ('PDLSender', ['java', 'jarfile', 'privatekey', 'configfile',
                          'source', 'type', 'code', 'eventsource',
                          'eventsourcecode']),
    'email': ('EmailSender', ['smtp_servers', 'sender', 'subject',
                              'recipients', 'message']),
    'ssh': ('SecureSender', ['private_key', 'remote_host',
                             'remote_directory'])}
BADFILES = ['missing', 'dir', 'tuple', 'str', 'set', 'gen']
CASE = st.fixed_dictionaries({
    'kind': st.sampled_from(sorted(CLASSES)),
    'drop': st.one_of(st.just([]), st.just([]), st.just([]),
                      st.lists(st.integers(0, 8), min_size=1, max_size=9)),
    'extra': st.lists(st.sampled_from(['foo', 'user', 'zip_file', 'event']),
                      max_size=2),
    'files': trees.flat(3), 'tree': st.one_of(st.none(), trees.trees(3)),
    'badfiles': st.sampled_from([None] * 4 + BADFILES),
    'at': st.integers(0, 3),
    'baddir': st.sampled_from([None] * 4 + ['missing', 'file'])})


def props(kind):
    return {p: ['x@y.z'] if p in ('smtp_servers', 'recipients') else
            'value of ' + p for p in CLASSES[kind][1]}


@sub('C27', 'constructor', CASE, quick=400, thorough=6000,
     rule='each sender with properties left out, files or directories missing or of a wrong type: the documented exception, or a sender that lists exactly its files; non-trivial = something is wrong or a directory is given')
@unprivileged(MOD)
def constructor(case, t, d):
    from impactutils.exceptions import RequiredArgumentError
    from impactutils.transfer.factory import get_sender_class
    kind = case['kind']
    cls = get_sender_class(kind)
    t.require(cls.__name__ == CLASSES[kind][0], '%r gives %r', kind, cls)
    for bad in ('', kind.upper(), kind + ' ', 'scp', None, 'sftp'):
        t.raises(KeyError, get_sender_class, bad)
    p = props(kind)
    req = CLASSES[kind][1]
    missing = {req[i % len(req)] for i in case['drop']} \
        if len(case['drop']) < 9 else set(req)
    for m in missing:
        del p[m]
    for e in case['extra']:
        p[e] = 'x'
    kw = {}
    files = trees.write(os.path.join(d, 'cwd', 'single'), case['files'])
    expect = None
    b = case['badfiles']
    if case['tree'] is not None:
        kw['local_directory'] = os.path.join(d, 'cwd', 'loc')
        trees.write(kw['local_directory'], case['tree'])
    if case['baddir']:
        kw['local_directory'] = os.path.join(d, 'cwd', 'nil')
        if case['baddir'] == 'file':
            open(kw['local_directory'], 'w').close()
        expect = FileNotFoundError
    if b in ('missing', 'dir'):
        f = os.path.join(d, 'cwd', 'bad')
        if b == 'dir':
            os.mkdir(f)
        files.insert(case['at'] % (len(files) + 1), f)
        kw['local_files'] = files
        expect = FileNotFoundError
    elif b:
        kw['local_files'] = {'tuple': tuple(files), 'str': __file__,
                             'set': set(files),
                             'gen': (f for f in files)}[b]
        expect = TypeError
    elif files or case['at'] == 0:
        kw['local_files'] = files
    if missing:
        expect = RequiredArgumentError
    t.label(expect.__name__ if expect else '-fine')
    if expect:
        t.raises(expect, cls, properties=p, **kw)
        return
    s = cls(properties=p, **kw)
    t.require(set(s.getRequiredProperties()) == set(req),
              'required properties %r', s.getRequiredProperties())
    got = s.getAllLocalFiles()
    if case['tree'] is None:
        t.require(got == [], 'no directory, but files %r', got)
    else:
        want = {os.path.join(kw['local_directory'], *x[0], x[1])
                for x in case['tree']}
        t.require(set(got) == want and len(got) == len(want),
                  'getAllLocalFiles: %r, not %r', got, want)
        t.label('directory')


OP = st.one_of(
    st.tuples(st.just('addprop'), st.integers(0, 1),
              st.sampled_from(['remote_directory', 'x'])).map(list),
    st.tuples(st.just('addfiles'), st.integers(0, 1),
              trees.flat(2)).map(list),
    st.tuples(st.just('addbad'), st.integers(0, 1),
              trees.flat(2)).map(list),
    st.tuples(st.just('chdir'), st.integers(0, 1), trees.trees(2)).map(list),
    st.tuples(st.just('chbad'), st.integers(0, 1)).map(list),
    st.tuples(st.just('mutate'), st.sampled_from(
        ['props', 'files', 'added'])).map(list),
    st.tuples(st.just('send'), st.integers(0, 1)).map(list))
OWN = st.fixed_dictionaries({
    'files': trees.flat(2), 'tree': st.one_of(st.none(), trees.trees(2)),
    'none': st.booleans(),
    'ops': st.lists(OP, min_size=2, max_size=8)})


@sub('C27', 'ownership', OWN, quick=200, thorough=4000,
     rule='two copy senders built from the same dictionary and list, histories of addProperty, addFiles (also with a missing file), changeDirectory, sends and changes to the caller\'s objects: each sender sends exactly its own files to its own directory, the caller\'s objects never change; non-trivial = 2 or more operations on a sender')
@unprivileged(MOD)
def ownership(case, t, d):
    from impactutils.transfer.factory import get_sender_class
    cls = get_sender_class('copy')
    cwd = os.path.join(d, 'cwd')
    shared = {'remote_directory': os.path.join(cwd, 'out')}
    files = trees.write(os.path.join(cwd, 'single'), case['files'])
    kw = {}
    if files or not case['none']:
        kw['local_files'] = files
    if case['tree'] is not None:
        kw['local_directory'] = os.path.join(cwd, 'loc')
        trees.write(kw['local_directory'], case['tree'])
    senders = [cls(properties=shared, **kw) for i in range(2)]
    model = [{'to': 'out', 'files': list(files),
              'dir': kw.get('local_directory')} for i in range(2)]
    added = []
    mine = (copy.deepcopy(shared), list(files))
    ops = 0
    for i, op in enumerate(case['ops'] + [['send', 0], ['send', 1]]):
        s, m = (senders[op[1]], model[op[1]]) if op[0] != 'mutate' else (0, 0)
        if op[0] == 'addprop':
            s.addProperty(op[2], os.path.join(cwd, 'out%d' % i))
            if op[2] == 'remote_directory':
                m['to'] = 'out%d' % i
            ops += 1
        elif op[0] in ('addfiles', 'addbad'):
            new = trees.write(os.path.join(cwd, 'more%d' % i), op[2])
            if op[0] == 'addfiles':
                arg = list(new)
                s.addFiles(arg)
                m['files'] += new
                added.append(arg)
                ops += 1
            else:
                new.append(os.path.join(cwd, 'nowhere') if i % 2 else cwd)
                t.raises(FileNotFoundError, s.addFiles, new)
        elif op[0] == 'chdir':
            m['dir'] = os.path.join(cwd, 'loc%d' % i)
            trees.write(m['dir'], op[2])
            s.changeDirectory(m['dir'])
            ops += 1
        elif op[0] == 'chbad':
            t.raises(FileNotFoundError, s.changeDirectory,
                     os.path.join(cwd, 'nowhere'))
            f = os.path.join(cwd, 'a file')
            open(f, 'w').close()
            t.raises(FileNotFoundError, s.changeDirectory, f)
        elif op[0] == 'mutate':
            if op[1] == 'props':
                shared['remote_directory'] = os.path.join(cwd, 'elsewhere')
            elif op[1] == 'files':
                files.append(os.path.join(cwd, 'elsewhere'))
            elif added:
                added[-1].append(os.path.join(cwd, 'elsewhere'))
            mine = (copy.deepcopy(shared), list(files))
        else:
            want = trees.read(m['dir']) if m['dir'] else {}
            flat = [os.path.basename(f) for f in m['files']]
            if len(set(flat)) < len(flat) or \
                    {p.split('/')[0] for p in want} & set(flat):
                return
            n = len(want) + len(flat)
            for f in m['files']:
                with open(f, 'rb') as fh:
                    want[os.path.basename(f)] = fh.read()
            to = os.path.join(cwd, m['to'])
            before = trees.read(to) if os.path.isdir(to) else {}
            before.pop('.cancel', None)
            ps = set(before) | set(want)
            if any(q.startswith(p + '/') for p in ps for q in ps):
                return
            res = s.send()
            t.require(res[0] == n, 'reports %r, %d files to send', res, n)
            got = trees.read(to) if os.path.isdir(to) else {}
            t.require(got == dict(before, **want), 'sends other files: %s',
                      trees.diff(got, dict(before, **want)))
        t.require((shared, files) == mine,
                  '%s changed the objects of the caller: %r', op[0],
                  (shared, files))
    t.require(not os.path.exists(os.path.join(cwd, 'elsewhere')),
              'sent where the sender was not told to')
    t.label('ops' if ops > 1 else '-few')


KEY = st.sampled_from(['maxmmi', 'alert', 'later', 'x'])
WORD = st.sampled_from(['green', 'red', 'V', 'us'])
PDLOP = st.one_of(
    st.tuples(st.just('send'), st.integers(0, 1)).map(list),
    st.tuples(st.just('product'), KEY, WORD).map(list),
    st.tuples(st.just('drop'), KEY).map(list),
    st.tuples(st.just('props'), st.sampled_from(['code', 'type']),
              WORD).map(list),
    st.tuples(st.just('addprop'), st.integers(0, 1),
              st.sampled_from(['code', 'type']), WORD).map(list))
PDL = st.fixed_dictionaries({
    'prod': st.dictionaries(KEY, WORD, max_size=3),
    'ops': st.lists(PDLOP, min_size=1, max_size=6)})


@sub('C27', 'pdl_ownership', PDL, quick=60, thorough=1200,
     rule='two PDL senders built from the same properties and product properties, histories of sends, addProperty and changes to the caller\'s dictionaries: each command names exactly the sender\'s own values; non-trivial = a dictionary changed before a send')
@unprivileged('impactutils.transfer.pdlsender')
def pdl_ownership(case, t, d):
    from impactutils.transfer.pdlsender import PDLSender
    java = os.path.join(d, 'java')
    log = os.path.join(d, 'cwd', 'argv')
    with open(java, 'w') as f:
        f.write('#!/bin/sh\nprintf "%%s\\n" "$@" > %s\n' % log)
    os.chmod(java, 0o755)
    shared = dict(props('pdl'), java=java)
    for k in shared:
        if k != 'java':
            shared[k] = k
    prod = dict(case['prod'])
    senders = [PDLSender(properties=shared, product_properties=prod)
               for i in range(2)]
    model = [dict(shared), dict(shared)]
    want = dict(prod)
    changed = False
    for op in case['ops'] + [['send', 0], ['send', 1]]:
        mine = (dict(shared), dict(prod))
        if op[0] == 'product':
            prod[op[1]] = op[2]
        elif op[0] == 'drop':
            prod.pop(op[1], None)
        elif op[0] == 'props':
            shared[op[1]] = op[2]
        elif op[0] == 'addprop':
            senders[op[1]].addProperty(op[2], op[3])
            model[op[1]][op[2]] = op[3]
        else:
            senders[op[1]].send()
            with open(log) as f:
                got = f.read().split('\n')
            os.remove(log)
            m = model[op[1]]
            for k in ('code', 'type', 'source', 'eventsource'):
                t.require('--%s=%s' % (k, m[k]) in got,
                          'not %s=%s in %r', k, m[k], got)
            have = sorted(a for a in got if a.startswith('--property-'))
            t.require(have == sorted('--property-%s=%s' % x
                                     for x in want.items()),
                      'product properties %r, given %r', have, want)
        if op[0] in ('product', 'drop', 'props'):
            changed = True
        else:
            t.require((shared, prod) == mine,
                      '%s changed the objects of the caller', op[0])
    t.label('changed' if changed else '-unchanged')
