"""C30: time zone data is fetched, unpacked, and nothing else is touched."""
import io
import os
import urllib.error
import urllib.request
import zipfile

from hypothesis import strategies as st

from vp import trees
from vp.core import sub
from vp.jail import unprivileged

MOD = 'impactutils.time.timeutils'
ZIP = 'timezones.shapefile.zip'
REL = '/evansiroky/timezone-boundary-builder/releases/'
OTHER = st.sampled_from([
    None, '#', '', '/', REL + 'latest', REL + 'tag/2018d',
    REL + 'download/2018d/timezones-with-oceans.shapefile.zip',
    REL + 'download/2018d/timezones.geojson.zip',
    'https://x.org/timezones.shapefile.tar', '/archive/2018d.zip',
    'mailto:a@b.c', '/login?return_to=%2Fevansiroky'])
LINK = st.sampled_from([
    REL + 'download/2018d/' + ZIP, REL + 'download/2020a/' + ZIP,
    'https://github.com' + REL + 'download/2018d/' + ZIP,
    'https://objects.example.org/x/' + ZIP,
    REL + 'download/2018d/' + ZIP + '?raw=true'])
STEM = st.sampled_from(['combined-shapefile', 'combined_shapefile', 'tz',
                        'a b', 'ünï'])
EXT = ['.shp', '.dbf', '.shx', '.prj', '.cpg']
CASE = st.fixed_dictionaries({
    'before': st.lists(OTHER, max_size=4), 'after': st.lists(OTHER,
                                                             max_size=4),
    'link': st.one_of(LINK, LINK, LINK, LINK, st.none()),
    'stem': STEM, 'exts': st.permutations(EXT), 'n': st.integers(0, 4),
    'base': st.sampled_from(['dist/', 'dist/', '', 'a/b/', 'x y/']),
    'base2': st.sampled_from([None, None, 'doc/', '', 'dist/doc/']),
    'dirs': st.booleans(), 'deflate': st.booleans(),
    'size': st.sampled_from([0, 1, 1000, 100000]),
    'have': trees.trees(4, names=['mine.txt', 'tz.dbf', 'tz.shp', 'tz.prj',
                                  'combined-shapefile.dbf', 'readme'],
                        dirs=['dist', 'a', 'doc', 'sub'], depth=2),
    'zip': st.sampled_from(['no', 'no', 'old', 'older', 'junk', 'cut']),
    'slash': st.booleans(), 'rel': st.booleans(),
    'fault': st.sampled_from([None] * 6 + ['page', 'data', 'torn', 'cut',
                                           'refused'])})


class Answer(io.BytesIO):
    status = code = 200

    def getcode(self):
        return 200


class Torn(Answer):
    def read(self, *a):
        raise ConnectionResetError('lost')


@sub('C30', 'download', CASE, quick=250, thorough=4000,
     rule='generated release pages and archives (flat, nested, with directory entries), existing files, also the archive of an earlier download, lost or broken answers: the linked archive and no other is fetched, all of its files are in the directory, other files are unchanged, otherwise an exception; non-trivial = existing files, a fault, or no link')
@unprivileged(MOD)
def download(case, t, d):
    import impactutils.time.timeutils as tu
    arc, seen = {}, []
    exts = sorted({'.shp'} | set(case['exts'][:case['n']]),
                  key=case['exts'].index)
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, 'w', zipfile.ZIP_DEFLATED if case['deflate']
                         else zipfile.ZIP_STORED) as z:
        if case['dirs']:
            for b in (case['base'], case['base2'] or ''):
                parts = b.split('/')[:-1]
                for i in range(len(parts)):
                    p = '/'.join(parts[:i + 1]) + '/'
                    if p not in seen:
                        z.writestr(p, '')
                        seen.append(p)
        for e in exts:
            b = (case['stem'] + e).encode() * (case['size'] // 8 + 1)
            arc[case['stem'] + e] = b
            z.writestr(case['base'] + case['stem'] + e, b)
        if case['base2'] is not None:
            arc['README.md'] = b'read me'
            z.writestr(case['base2'] + 'README.md', b'read me')
    data = buf.getvalue()
    if case['fault'] == 'cut':
        data = data[:len(data) // 2]
    page = '<html><body>' + ''.join(
        '<a%s>x</a>' % ('' if h is None else ' href="%s"' % h)
        for h in case['before'] + [case['link']] * (case['link'] is not None)
        + case['after']) + '</body></html>'
    url = case['link'] and (case['link'] if case['link'][0] == 'h' else
                            'https://github.com' + case['link'])
    log = []

    def urlopen(u, *a, **kw):
        u = u if isinstance(u, str) else u.full_url
        log.append(u)
        f = case['fault']
        if f == 'refused' or f == 'page' and u != url or \
                f == 'data' and u == url:
            raise urllib.error.HTTPError(u, 503, 'no', {}, io.BytesIO())
        if u == url:
            return (Torn if f == 'torn' else Answer)(data)
        if 'releases/latest' in u:
            return Answer(page.encode())
        return Answer(b'<html></html>')
    urllib.request.urlopen = urlopen
    if hasattr(tu, 'urlopen'):
        tu.urlopen = urlopen
    out = os.path.join(d, 'cwd', 'out')
    trees.write(out, case['have'])
    # what an earlier download left
    old = io.BytesIO()
    with zipfile.ZipFile(old, 'w') as z:
        z.writestr(case['base'] + (case['stem'] if case['zip'] == 'old' else
                                   'gone') + '.shp', b'old')
    if case['zip'] != 'no':
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, ZIP), 'wb') as f:
            f.write({'junk': b'x' * 300, 'cut': data[:len(data) // 2]}.get(
                case['zip'], old.getvalue()))
        t.label('earlier archive')
    with open(os.path.join(d, 'cwd', 'beside'), 'w') as f:
        f.write('mine')
    before = trees.read(out)
    before.pop(ZIP, None)
    dirs = {os.path.relpath(os.path.join(r, x), out)
            for r, ds, fs in os.walk(out) for x in ds}
    arg = ('out' if case['rel'] else out) + '/' * case['slash']
    err = res = None
    try:
        res = tu.get_recent_timezone_data(arg)
    except Exception as e:
        err = e
    got = trees.read(out) if os.path.isdir(out) else {}
    got.pop(ZIP, None)
    now = {os.path.relpath(os.path.join(r, x), out)
           for r, ds, fs in os.walk(out) for x in ds}
    t.require(os.path.isfile(os.path.join(d, 'cwd', 'beside')),
              'a file outside of the directory is gone')
    for p, b in before.items():
        if p not in arc:
            t.require(got.get(p) == b, 'an existing file was removed or '
                      'changed: %r', p)
    if case['have']:
        t.label('existing files')
    fault = case['fault'] or (case['link'] is None and 'no link')
    if fault:
        t.label(fault)
        t.require(err is not None, 'no exception (%s), but %r', fault, res)
        t.require(case['link'] is not None or len(log) <= 1,
                  'asked for %r without a link', log)
        return
    t.label('-plain')
    if err is not None:
        raise err
    t.require(log[1:] == [url], 'fetched %r, not %r', log[1:], url)
    t.require(os.path.normpath(res) == os.path.normpath(
        os.path.join(arg, case['stem'] + '.shp')), 'returns %r', res)
    want = dict(before, **arc)
    t.require(got == want, 'files: %s', trees.diff(got, want))
    t.require(now == dirs, 'directories %r, before %r', now, dirs)
