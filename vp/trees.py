"""Generated file trees: [[dirs, name, [text, repeat]], ...]."""
import os

from hypothesis import strategies as st

DIRS = ['d', 'data', 'loc', 'a dir', "o'dir", 'dé', 'd.x', 'rem']
NAMES = ['a.txt', 'grid.xml', 'b c.dat', "it's", 'ünï.txt', '.hidden',
         '$HOME', 'a;b', 'x.tmp', '[1]', '"q"', 'data.json', 'loc.txt', 'F',
         'p&q', '100%', 'back\\slash', '#x', '(1)', 'img.png', 'w.wav',
         'z.zip', 'n.html', '.cancel', 'CANCEL', 'link.txt', 'x.lnk']
LINKS = ['link.txt', 'x.lnk']
CONTENT = st.tuples(
    st.one_of(st.text(st.characters(max_codepoint=255), max_size=12),
              st.sampled_from(['', 'x', 'line\n', 'a\r\nb\n', '\x00\xff',
                               'From me\n', '.\n'])),
    st.sampled_from([1, 1, 1, 2, 100, 1024, 9000])).map(list)
OTHER = st.sampled_from(DIRS)
# names made from others, as editors and transfer programs do
BESIDE = ['%s~', '%s.bak', '%s.tmp', '%s.part', '%s.old', '%s.new', '%s.1',
          '%s_', '.%s.swp', '%s.log', '.%s', 'tmp%s', '_%s', '#%s#', '%s.gz',
          '%s.lock', '%s.tmp_0', '%s-1', '-%s', '%s.pyc', '._%s']
PLAIN = st.one_of(
    st.text('abcXYZ019._-+=@,#!^~', min_size=1, max_size=10),
    st.sampled_from(['.DS_Store', 'Thumbs.db', 'core', 'a', 'README', 'a.TXT',
                     'A.txt', 'x' * 100])).filter(
                         lambda s: s not in ('.', '..') and s.strip('.'))


def beside(name, k):
    return BESIDE[k % len(BESIDE)] % name


def name_of(names):
    some = st.sampled_from(names)
    return st.one_of(some, some, some, PLAIN, st.builds(
        beside, some, st.integers(0, len(BESIDE) - 1)))


def data(c):
    return (c[0] * c[1]).encode('latin-1')


@st.composite
def trees(draw, maxn=5, minn=0, names=NAMES, dirs=DIRS, depth=3):
    n = draw(st.integers(minn, maxn))
    out, seen, folders = [], set(), set()
    for _ in range(n):
        d = draw(st.lists(st.sampled_from(dirs), max_size=depth))
        nm = draw(name_of(names))
        up = {tuple(d[:i + 1]) for i in range(len(d))}
        path = tuple(d) + (nm,)
        if path in seen or path in folders or up & seen:
            continue       # a name is that of one file, or of a folder
        seen.add(path)
        folders |= up
        out.append([d, nm, draw(CONTENT)])
    return out


@st.composite
def flat(draw, maxn=3, names=NAMES):
    """Files from various directories with distinct base names."""
    nms = draw(st.lists(name_of(names), max_size=maxn, unique=True))
    return [[draw(st.lists(st.sampled_from(DIRS), max_size=2)), nm,
             draw(CONTENT)] for nm in nms]


def write(root, tree):
    """Write the tree below root; return the list of paths. Names that tell
    so become symbolic links to files elsewhere."""
    paths = []
    far = os.path.join(os.path.dirname(os.path.abspath(root)),
                       '.far-' + os.path.basename(os.path.abspath(root)))
    os.makedirs(root, exist_ok=True)
    for d, nm, c in tree:
        p = os.path.join(root, *d)
        os.makedirs(p, exist_ok=True)
        p = os.path.join(p, nm)
        if nm in LINKS and not os.path.lexists(p):
            os.makedirs(far, exist_ok=True)
            k = os.path.join(far, 'f%d' % len(os.listdir(far)))
            open(k, 'wb').close()
            os.symlink(k, p)
        with open(p, 'wb') as f:
            f.write(data(c))
        paths.append(p)
    return paths


def rewrite(path, same_time):
    """Change every byte of a file, keeping its size (and time)."""
    s = os.stat(path)
    with open(path, 'rb') as f:
        b = f.read()
    with open(path, 'wb') as f:
        f.write(bytes(x ^ 1 for x in b))
    if same_time:
        os.utime(path, ns=(s.st_atime_ns, s.st_mtime_ns))


def rel(tree):
    return {'/'.join(d + [nm]): data(c) for d, nm, c in tree}


def base(tree):
    return {nm: data(c) for d, nm, c in tree}


def read(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def diff(got, want):
    """Readable difference of two {path: bytes}."""
    out = []
    for k in sorted(set(got) | set(want)):
        if k not in got:
            out.append('missing %r' % k)
        elif k not in want:
            out.append('unexpected %r' % k)
        elif got[k] != want[k]:
            out.append('%r has %d bytes %r..., expected %d bytes %r...' % (
                k, len(got[k]), got[k][:20], len(want[k]), want[k][:20]))
    return '; '.join(out[:4])


def mates(maxn=4, **kw):
    """A tree and another that shares names with it: [tree, tree]."""
    def both(x):
        a, keep, more = x
        b, seen = [], {}
        for i, (dd, nm, c) in enumerate(a):
            if keep[i % len(keep)]:
                b.append([dd, nm, ['B' + c[0], c[1]]])
        seen = set(rel(a))
        for dd, nm, c in more:
            p = '/'.join(dd + [nm])
            if not any(p == q or p.startswith(q + '/') or
                       q.startswith(p + '/') for q in seen):
                b.append([dd, nm, c])
                seen.add(p)
        return [a, b]
    return st.tuples(trees(maxn, 1, **kw), st.lists(
        st.sampled_from([True, True, False]), min_size=maxn, max_size=maxn),
        trees(2, **kw)).map(both)
