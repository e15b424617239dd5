"""C24: mail reaches every recipient once, complete, and privately."""
import email
import email.header
import io
import os
import socket
import zipfile
from collections import Counter

from hypothesis import strategies as st

from vp import servers, trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.transfer.emailsender'
ADDR = ['%s@%s' % (u, h) for h in ('foo.com', 'bar.org', 'loop.example')
        for u in ('fred', 'barney', 'w.f', 'a+b', 'x', "o'neil", 'very.long')]
BAD = ['dead', 'greet', 'dropgreet', 'helo', 'sender', 'all', 'datacmd',
       'data', 'dropdata']
TEXT = st.one_of(
    st.text(st.characters(blacklist_categories=['Cs', 'Cc']), max_size=30),
    st.lists(st.sampled_from(['', 'one', 'From me', '.', '..', '.x', 'é', 'ü',
                              '>From', 'To: x', '--', 'a = b', '☃', ' s ',
                              '=3D']),
             max_size=5).map('\n'.join),
    st.sampled_from(['You two!', 'x' * 900]))
# the mail parser of Python unquotes a file name twice
NAMES = [n for n in trees.NAMES if '"' not in n and '\\' not in n] + [
    'x.eml', 'm.mht', 'x.vcf', 'v.mp4', 'a.gz', 'n.rst', 'From']
SUBJ = st.one_of(st.text(st.characters(min_codepoint=33, max_codepoint=126),
                         min_size=1, max_size=30),
                 st.sampled_from(['Fired!', 'é', 'M 5.6 Earthquake, Alaska',
                                  'a ' * 60 + 'z', 'día ' * 30 + 'z']))
SERVER = st.tuples(
    st.sampled_from(['ok', 'some', 'dropquit', 'badquit'] + BAD),
    st.lists(st.sampled_from(ADDR), max_size=4)).map(list)
CASE = st.fixed_dictionaries({
    'tree': st.one_of(st.none(), st.none(), trees.trees(4, names=NAMES)),
    'files': trees.flat(3, names=NAMES), 'zip': st.sampled_from(
        [None, None, 'all.zip', 'all files.zip', 'ü.zip']),
    'rcpt': st.lists(st.sampled_from(ADDR), min_size=1, max_size=12,
                     unique=True),
    'max': st.sampled_from([None, 0, 1, 2, 3, 4, 5, 12, 100]),
    'primary': st.sampled_from([None, None, 'all@quarry.org']),
    'subject': SUBJ, 'message': TEXT,
    'bad': st.lists(SERVER, max_size=3),
    'good': st.booleans(), 'cancel': st.sampled_from(
        [None, None, None, 'plain', 'content', 'prop']),
    'csubj': st.booleans()})


def decoded(h):
    return str(email.header.make_header(email.header.decode_header(h)))


def lines(s):
    return s.replace('\r\n', '\n').rstrip('\n')


@sub('C24', 'delivery', CASE, quick=250, thorough=4000,
     rule='recipients, batch sizes, files, zip, texts and 1-4 scripted loopback SMTP servers (dead, refusing, dropping): deliveries, privacy and contents judged at the servers; non-trivial = 2 or more messages, a faulty server, or attachments')
@unprivileged(MOD)
def delivery(case, t, d):
    from impactutils.transfer.emailsender import EmailSender
    socket.getfqdn = lambda *a: 'localhost'
    socket.setdefaulttimeout(20)
    srv, hold, names = [], [], []
    for b, refuse in case['bad'] + ([['ok', []]] if case['good'] or
                                    not case['bad'] else []):
        if b == 'dead':
            hold.append(servers.dead_port())
            names.append('127.0.0.1:%d' % hold[-1].getsockname()[1])
        else:
            s = servers.Smtp(b, refuse)
            srv.append(s)
            names.append('127.0.0.1:%d' % s.port)
    props = {'smtp_servers': names, 'sender': 'mrslate@quarry.org',
             'subject': case['subject'], 'message': case['message'],
             'recipients': list(case['rcpt'])}
    if case['max'] is not None:
        props['max_bcc'] = case['max']
    primary = case['primary'] if case['max'] != 0 else None
    if case['primary']:
        props['primary_recipient'] = case['primary']
    if case['zip']:
        props['zip_file'] = case['zip']
    kw, nfiles, want = {}, 0, Counter()
    inzip = {}
    if case['tree'] is not None:
        loc = os.path.join(d, 'cwd', 'loc')
        trees.write(loc, case['tree'])
        kw['local_directory'] = loc
        nfiles += len(case['tree'])
        inzip.update(trees.rel(case['tree']))
        want.update((x[1], trees.data(x[2])) for x in case['tree'])
    single = [x for x in case['files']
              if not any(k.split('/')[0] == x[1] for k in inzip)]
    files = trees.write(os.path.join(d, 'cwd', 'single'), single)
    if files:
        kw['local_files'] = files
        nfiles += len(files)
        inzip.update(trees.base(single))
        want.update((x[1], trees.data(x[2])) for x in single)
    before = trees.read(os.path.join(d, 'cwd'))
    subject, text = case['subject'], case['message']
    c = case['cancel']
    if c:
        text = 'This is a cancel message.'
        if case['csubj']:
            subject = props['cancel_subject'] = 'CANCEL ' + subject
        if c == 'content':
            text = case['message']
        if c == 'prop':
            text = props['cancel_content'] = 'never mind\n' + case['message']
        want, inzip = Counter(), {}
    sender = EmailSender(properties=props, **kw)
    err = res = None
    try:
        if c:
            res = sender.cancel(text) if c == 'content' else sender.cancel()
        else:
            res = sender.send()
    except Exception as e:
        err = e
    for s in srv:
        if s.error:
            raise s.error

    # who got it
    got = Counter()
    for s in srv:
        for frm, rcpt, data in s.accepted:
            t.require(frm == 'mrslate@quarry.org', 'sent from %r', frm)
            got.update(rcpt)
    ok = {a for a in case['rcpt'] if any(s.accepts(a) for s in srv)}
    if primary and not any(s.accepts(primary) for s in srv):
        ok = set()
    for a in got:
        if a != primary:
            t.require(a in case['rcpt'], 'a stranger got it: %r', a)
            t.require(got[a] == 1, '%r got %d copies (%r)', a, got[a],
                      [s.behaviour for s in srv])
    if len(ok) == len(case['rcpt']):
        t.require(err is None, 'fails although every recipient can be '
                  'reached: %r', err)
    else:
        t.require(err is not None, 'succeeds, but %r were not sent to',
                  sorted(set(case['rcpt']) - set(got)))
        t.label('undeliverable')
    if err is None:
        t.require(set(case['rcpt']) <= set(got), '%r got nothing',
                  sorted(set(case['rcpt']) - set(got)))
        if c:
            t.require(isinstance(res, str) and
                      str(len(case['rcpt'])) in res, 'cancel returns %r', res)
        else:
            t.require(res[0] == nfiles and str(len(case['rcpt'])) in res[1],
                      'send reports %r for %d files', res, nfiles)
    size = case['max'] if case['max'] is not None else 25
    batches = len(case['rcpt']) if size == 0 else -(-len(case['rcpt']) // size)
    if primary and err is None:
        t.require(got[primary] == batches, 'the primary recipient got %d '
                  'copies of %d messages', got[primary], batches)

    # what they got
    n = 0
    for s in srv:
        for frm, rcpt, data in s.accepted:
            n += 1
            bcc = [a for a in rcpt if a != primary]
            t.require(len(bcc) <= max(size, 1), 'a message to %d recipients '
                      'with max_bcc %r', len(bcc), case['max'])
            m = email.message_from_bytes(data)
            head = ' '.join('%s: %s' % (k, decoded(v)) for k, v in m.items())
            show = bcc if size else bcc[1:]
            for a in case['rcpt']:
                if size or a not in rcpt:
                    body = head.replace(decoded(m['Subject']), '')
                    t.require(a not in body,
                              'the header reveals %r to %r: %r', a, show, head)
            if size == 0:
                t.require(m['To'] == rcpt[0], 'To: %r for %r', m['To'], rcpt)
            elif primary:
                t.require(m['To'] == primary, 'To: %r', m['To'])
            t.require(m['From'] == frm and m['Date'], 'header %r', head)
            t.require(lines(decoded(m['Subject']).replace('\n ', ' ')) ==
                      subject, 'Subject: %r, not %r', m['Subject'], subject)
            parts = m.get_payload() if m.is_multipart() else [m]
            for p in parts:
                t.require(not p.is_multipart(), 'a nested message: %r',
                          p.get_content_type())
            raw = parts[0].get_payload(decode=True)
            txt = raw.decode(parts[0].get_content_charset() or 'ascii')
            t.require(lines(txt) == lines(text), 'message %r, not %r',
                      txt[:60], text[:60])
            att = Counter((p.get_filename(), p.get_payload(decode=True))
                          for p in parts[1:])
            if case['zip'] and nfiles + (case['tree'] is not None) and not c:
                t.require([k[0] for k in att.elements()] == [case['zip']],
                          'attached %r, not the zip file',
                          [k[0] for k in att])
                z = zipfile.ZipFile(io.BytesIO(list(att)[0][1]))
                zs = [i for i in z.infolist() if not i.is_dir()]
                t.require(len({i.filename for i in zs}) == len(zs),
                          'the zip file has an entry twice')
                t.require({i.filename: z.read(i) for i in zs} == inzip,
                          'zip file: %s', trees.diff(
                              {i.filename: z.read(i) for i in zs}, inzip))
            else:
                t.require(att == want, 'attachments %r, not %r',
                          sorted((k[0], len(k[1])) for k in att.elements()),
                          sorted((k[0], len(k[1])) for k in want.elements()))
    t.require(trees.read(os.path.join(d, 'cwd')) == before,
              'send changed the local files')
    t.require(os.listdir(os.path.join(d, 'tmp')) == [],
              'left temporary files %r', os.listdir(os.path.join(d, 'tmp')))
    if n > 1:
        t.label('messages')
    if any(b != 'ok' for b, _ in case['bad']):
        t.label('faulty server')
    if want:
        t.label('attachments')


KINDS = ['a.png', 'b.jpg', 'c.wav', 'd.mp3', 'e.pdf', 'f.zip', 'g.json',
         'h.txt', 'i.html', 'j.csv', 'k.xml', 'l.tar.gz', 'm.txt.gz', 'n.eml',
         'o.mht', 'p', 'q.xyz', 'r.gif', 's.mp4', 't.svg', 'u.ps', 'v.jpeg',
         'w.hdf', 'x.kmz', 'y.png.Z', 'z.bz2']


@sub('C24', 'attachment_kinds', st.lists(
    st.tuples(st.sampled_from(KINDS), trees.CONTENT), min_size=3, max_size=12,
    unique_by=lambda x: x[0]).map(lambda v: [list(x) for x in v]),
    quick=60, thorough=1000,
    rule='3-12 files of different types (images, sound, documents, compressed, messages, unknown) in one mail: each is attached once, byte for byte, under its name; non-trivial = all')
@unprivileged(MOD)
def attachment_kinds(case, t, d):
    from impactutils.transfer.emailsender import EmailSender
    socket.getfqdn = lambda *a: 'localhost'
    socket.setdefaulttimeout(20)
    s = servers.Smtp('ok', [])
    files = trees.write(os.path.join(d, 'cwd'), [[[], n, c] for n, c in case])
    EmailSender(properties={
        'smtp_servers': ['127.0.0.1:%d' % s.port], 'sender': 'a@b.org',
        'subject': 'files', 'message': 'see the files',
        'recipients': ['fred@foo.com']}, local_files=files).send()
    if s.error:
        raise s.error
    t.require(len(s.accepted) == 1, '%d messages', len(s.accepted))
    m = email.message_from_bytes(s.accepted[0][2])
    att = sorted((p.get_filename(), p.get_payload(decode=True))
                 for p in m.get_payload()[1:] if not p.is_multipart())
    want = sorted((n, trees.data(c)) for n, c in case)
    t.require(att == want, 'attachments %r, not %r',
              [(k[0], len(k[1])) for k in att],
              [(k[0], len(k[1])) for k in want])
    t.label('files')
