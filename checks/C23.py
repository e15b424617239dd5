"""C23: PDL gets exactly the stated command line; commands report truth."""
import datetime
import os

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.gen import fl
from vp.jail import unprivileged

MOD = 'impactutils.transfer.pdlsender'
REQ = ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type',
       'code', 'eventsource', 'eventsourcecode']
# anything a shell or the template could misread
SPICY = st.one_of(
    st.sampled_from(['us', 'shakemap', 'ci2015abcd', 'a b', ' lead', "it's",
                     '"quoted"', '$HOME', '`id`', '$(id)', 'a;b', 'a|b',
                     'a&b', '*', '~', 'x>y', 'x<y', '\\', 'tab\there', '#1',
                     '(1)', '{a,b}', '[FILE]', '[SOURCE]', '[STATUS]',
                     '[PRODUCT_PROPERTIES]', '[OPTIONAL_PROPERTIES]', '[CODE]',
                     'ünï', '', '!x', 'a=b', '--x', '%s', 'two\nlines',
                     '\\1', '\\g<0>', 'trailing ']),
    st.text(st.characters(blacklist_categories=['Cs'],
                          blacklist_characters='\x00'), max_size=8))
PLAIN = st.sampled_from(['us', 'shakemap', 'ci2015abcd', 'nc', 'losspager'])
VAL = st.one_of(PLAIN, SPICY)
KEY = st.one_of(st.sampled_from(['maxmmi', 'alert', 'time', 'a-b', 'a_b',
                                 'review status', 'x.y', "k'"]),
                st.text('abcxyz_-', min_size=1, max_size=6))
TIME = st.tuples(st.one_of(st.datetimes(datetime.datetime(1900, 1, 1),
                                        datetime.datetime(2099, 1, 1)),
                           st.datetimes(datetime.datetime(1, 1, 3),
                                        datetime.datetime(9999, 12, 29))),
                 st.sampled_from([None, None, 0, 1, 999, 1000, 500000,
                                  999499, 999500, 999999])).map(
    lambda v: (v[0] if v[1] is None else v[0].replace(microsecond=v[1])
               ).isoformat(timespec='microseconds'))
PROD = st.lists(st.tuples(KEY, st.one_of(
    SPICY.map(lambda v: ['s', v]), st.integers(-10 ** 9, 10 ** 9).map(
        lambda v: ['i', v]), fl(-1e6, 1e6).map(lambda v: ['f', v]),
    TIME.map(lambda v: ['t', v]), st.booleans().map(lambda v: ['b', v]))),
    max_size=5, unique_by=lambda x: x[0])
OPT = st.fixed_dictionaries({}, optional={
    'latitude': fl(-90, 90), 'longitude': fl(-180, 180), 'depth': fl(-10, 800),
    'magnitude': fl(-1, 10), 'eventtime': TIME})
CASE = st.fixed_dictionaries({
    'req': st.tuples(*[VAL] * 8), 'zone': st.one_of(
        st.none(), st.integers(-840, 840)), 'java': st.sampled_from(
        ['java', 'my java', "j'v", 'java;x', '$java']),
    'opt': OPT, 'prod': st.one_of(st.none(), PROD),
    'files': trees.flat(1), 'tree': st.one_of(st.none(), trees.trees(4)),
    'rc': st.sampled_from([0, 0, 0, 1, 2, 127, 255]),
    'out': st.sampled_from(['', 'sent ok', 'ünï', '"x"\n', '\xff', 'BIG']),
    'op': st.sampled_from(['send', 'send', 'cancel', 'cancel send']),
    'extra': st.booleans()})
SCRIPT = '''#!/usr/bin/python3
import os, sys
h = os.path.dirname(os.path.abspath(sys.argv[0]))
with open(os.path.join(h, 'argv'), 'ab') as f:
    f.write(b'\\0'.join(os.fsencode(a) for a in sys.argv[1:]) + b'\\0\\1')
out = open(os.path.join(h, 'out'), 'rb').read()
os.write(1, out) if len(out) < 4096 else sys.stdout.buffer.write(out)
sys.stdout.flush()
os.write(2, b'some error')
sys.exit(%d)
'''


def show(kind, v):
    if kind == 's':
        return v
    if kind == 'i':
        return '%d' % v
    if kind == 'f':
        return '%.4f' % v
    if kind == 'b':
        return None                # either True or 1
    return v[:23]                  # milliseconds


@sub('C23', 'command_line', CASE, quick=250, thorough=3000,
     rule='java is a recording script: its arguments, with any characters in any value, are exactly the stated ones, and its outcome is reported; non-trivial = some value needs quoting')
@unprivileged(MOD)
def command_line(case, t, d):
    from impactutils.exceptions import PDLError
    from impactutils.transfer.pdlsender import PDLSender
    bind = os.path.join(d, 'bin')
    os.mkdir(bind)
    java = os.path.join(bind, case['java'])
    with open(java, 'w') as f:
        f.write(SCRIPT % case['rc'])
    os.chmod(java, 0o755)
    out = case['out'].encode('latin-1') if case['out'] == '\xff' else \
        b'x' * 300000 if case['out'] == 'BIG' else case['out'].encode('utf-8')
    with open(os.path.join(bind, 'out'), 'wb') as f:
        f.write(out)
    props = dict(zip(REQ[1:], case['req']))
    props['java'] = java
    special = any(not v.isalnum() for v in case['req'])
    for k, v in case['opt'].items():
        props[k] = datetime.datetime.fromisoformat(v) if k == 'eventtime' \
            else v
    if 'eventtime' in props and case['zone'] is not None:
        # the same instant on the clock of another zone
        props['eventtime'] = props['eventtime'].replace(
            tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(
                datetime.timedelta(minutes=case['zone'])))
    prod = None
    if case['prod'] is not None:
        prod = {}
        for k, (kind, v) in case['prod']:
            prod[k] = datetime.datetime.fromisoformat(v) if kind == 't' else v
    kw = {}
    files = trees.write(os.path.join(d, 'cwd', 'single'), case['files'])
    if files:
        kw['local_files'] = files
    loc = None
    if case['tree'] is not None:
        loc = os.path.join(d, 'cwd', 'a loc')
        trees.write(loc, case['tree'])
        kw['local_directory'] = loc
    pcopy = dict(props)
    p = PDLSender(properties=props, product_properties=prod, **kw)
    if prod is not None and case['extra']:
        prod['later'] = 'x'        # the caller's dictionary is its own
    want = {'-jar': None}
    common = ['--send', '--source=' + props['source'],
              '--type=' + props['type'], '--code=' + props['code'],
              '--eventsource=' + props['eventsource'],
              '--eventsourcecode=' + props['eventsourcecode'],
              '--privateKey=' + props['privatekey'],
              '--configFile=' + props['configfile']]
    for k, v in case['opt'].items():
        common.append({'latitude': '--latitude=%.4f',
                       'longitude': '--longitude=%.4f',
                       'depth': '--depth=%.1f', 'magnitude':
                       '--magnitude=%.1f'}[k] % v if k != 'eventtime'
                      else '--eventtime=%sZ' % v[:23])
    either = []
    for k, (kind, v) in case['prod'] or []:
        special = special or (kind == 's' and not v.isalnum())
        if kind == 'b':
            either.append({'--property-%s=%s' % (k, v),
                           '--property-%s=%d' % (k, v)})
        else:
            common.append('--property-%s=%s' % (k, show(kind, v)))
    t.label('quoting' if special else '-plain')
    nfiles = len(files) + (len(trees.read(loc)) if loc else 0)
    for op in case['op'].split():
        log = os.path.join(bind, 'argv')
        if os.path.exists(log):
            os.remove(log)
        try:
            res = p.send() if op == 'send' else p.cancel()
            err = None
        except PDLError as e:
            err, res = e, None
        t.require((err is None) == (case['rc'] == 0),
                  '%s with exit status %d: %r', op, case['rc'],
                  err or res)
        t.require(os.path.exists(log), 'the java command was not run')
        with open(log, 'rb') as f:
            runs = f.read().split(b'\x01')[:-1] if False else [f.read()]
        t.require(runs[0].count(b'\0\1') == 1, 'java was run %d times',
                  runs[0].count(b'\0\1'))
        argv = [a.decode('utf-8', 'surrogateescape')
                for a in runs[0][:-2].split(b'\0')]
        t.require(argv[:2] == ['-jar', props['jarfile']],
                  'command starts with %r', argv[:2])
        exp = list(common)
        exp.append('--status=' + ('UPDATE' if op == 'send' else 'DELETE'))
        got = sorted(argv[2:])
        for e in either:
            hit = [a for a in got if a in e]
            t.require(hit, 'no argument %r in %r', sorted(e), got)
            if hit:
                got.remove(hit[0])
        opt = []
        if files:
            opt.append('--file=' + files[0])
        if loc:
            opt.append('--directory=' + loc)
        if op == 'send':
            exp += opt
        else:                      # deletion may or may not name the content
            got = [g for g in got if g not in opt]
        t.require(got == sorted(exp), '%s arguments: unexpected %r, '
                  'missing %r', op, [g for g in got if g not in exp],
                  [e for e in exp if e not in got])
        if err is None and op == 'send':
            t.require(res[0] == nfiles, 'send reports %r files of %d', res[0],
                      nfiles)
            t.require(case['out'] in ('\xff',) or
                      out.decode('utf-8') in res[1],
                      'the output of PDL is not in %r', res[1][:80])
        elif err is None:
            t.require(out.decode('utf-8', 'replace').strip() in (
                res if isinstance(res, str)
                else res.decode('utf-8', 'replace')),
                'the output of PDL is not in %r', res[:80])
        else:
            t.require('some error' in str(err), 'the error of PDL is not in '
                      '%r', str(err)[:200])
    t.require(props == pcopy, 'the properties given were changed')


@sub('C23', 'one_file', st.tuples(trees.flat(4), st.booleans()), quick=60,
     thorough=300,
     rule='more than one single file is refused with PDLError before PDL is run; non-trivial = 2 or more files')
@unprivileged(MOD)
def one_file(case, t, d):
    from impactutils.exceptions import PDLError
    from impactutils.transfer.pdlsender import PDLSender
    tree, later = case
    if len(tree) < 2:
        t.label('-few')
        return
    t.label('n%d' % len(tree))
    files = trees.write(os.path.join(d, 'cwd', 's'), tree)
    props = {k: 'x' for k in REQ}
    mark = os.path.join(d, 'cwd', 'ran')
    props['java'] = os.path.join(d, 'j')
    with open(props['java'], 'w') as f:
        f.write('#!/bin/sh\ntouch %s\n' % mark)
    os.chmod(props['java'], 0o755)
    if later:
        p = PDLSender(properties=props, local_files=files[:1])
        p.addFiles(files[1:])
    else:
        p = PDLSender(properties=props, local_files=files)
    t.raises(PDLError, p.send)
    t.require(not os.path.exists(mark), 'PDL was run')


@sub('C23', 'get_command_output', st.tuples(
    st.integers(0, 255), st.sampled_from([0, 1, 10, 4096, 70000, 300000]),
    st.sampled_from([0, 1, 100, 70000, 200000]), st.booleans(),
    st.sampled_from(['ascii', 'bytes', 'nul']), st.booleans()), quick=150,
    thorough=1500,
    rule='commands with any exit status and up to 300 kB on both streams: success flag, output and errors reported exactly; non-trivial = failing, or more than a pipe buffer')
@unprivileged('impactutils.io.cmd')
def get_command_output(case, t, d):
    from impactutils.io.cmd import get_command_output as run
    rc, no, ne, errfirst, kind, sig = case
    a, b = {'ascii': (b'o', b'e'), 'bytes': (b'\xff\xfe', b'\x80'),
            'nul': (b'\0', b'\r\n')}[kind]
    out, err = a * (no // len(a)), b * (ne // len(b))
    with open('out', 'wb') as f:
        f.write(out)
    with open('err', 'wb') as f:
        f.write(err)
    parts = ['cat out', 'cat err >&2']
    if errfirst:
        parts.reverse()
    end = 'kill -9 $$' if sig and rc % 7 == 3 else 'exit %d' % rc
    ok = rc == 0 and 'kill' not in end
    t.label('big' if max(no, ne) > 65536 else 'failing' if not ok
            else '-plain')
    res = run('; '.join(parts + [end]))
    t.require(len(res) == 3 and res[0] is ok, 'success is %r, expected %r',
              res[0], ok)
    t.require(res[1] == out, 'output: %d bytes of %d', len(res[1]), len(out))
    t.require(res[2] == err, 'errors: %d bytes of %d', len(res[2]), len(err))
