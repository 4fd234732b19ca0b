"""C10: exporting to USFM 2, USFM 3 or ESFM and loading that again gives the same Bible."""
import os, re, zipfile, tarfile
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C10'


def setup():
    global G, USFMBible, ESFMBible
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Formats.USFMBible import USFMBible
    from BibleOrgSys.Formats.ESFMBible import ESFMBible


FORMATS = {'toUSFM2': ('.usfm', 'AllUSFM2Files', ('zip', 'gzip', 'bz2')), 'toUSFM3': ('.usfm', 'AllUSFM3Files', ('zip', 'gzip', 'bz2')), 'toESFM': ('.ESFM', 'AllESFMFiles', ('zip',))}


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    B = draw(st.lists(st.sampled_from(g.BOOKS), min_size=n, max_size=n, unique=True))
    books = [draw(g.book(BBB=b, max_chapters=2, vp=True, verse_heads=draw(st.booleans()))) for b in B]
    for bk in books:
        k = draw(st.integers(0, 5))
        if k == 0: bk['lines'].insert(1, g.L('usfm', '3.0'))
        elif k == 1: bk['lines'].insert(1, g.L('ide', 'UTF-8'))
        elif k == 2: bk['lines'].insert(1, g.L('ide', 'UTF-8')); bk['lines'].insert(1, g.L('usfm', '3.0'))
        elif k == 3: bk['lines'].insert(1, g.L('ide', 'UTF-8')); bk['lines'].insert(2, g.L('rem', 'A remark'))
        if k in (0, 2) and draw(st.booleans()): bk['lines'].insert(2, g.L('rem', 'A remark'))
    return dict(books=books, format=draw(st.sampled_from(list(FORMATS))), crlf=draw(st.booleans()))


def rows(book):
    return [[e.getMarker(), e.getAdjustedText() or '', e.getCleanText(), [[x.getType(), x.getIndex(), x.getText(), x.getCleanText()] for x in e.getExtras() or []]] for e in book]


def exported(folder, fmt):
    """The exported books (by file name), also as held in the archives."""
    ext, archive, kinds = FORMATS[fmt]
    fs = sorted(os.listdir(folder))
    out = {}
    for f in fs:
        if f.endswith(ext):
            with open(os.path.join(folder, f), 'rb') as h: out[f] = h.read()
    equal(fs, sorted(list(out) + [f'{archive}.{k}' for k in kinds]), 'exported files')
    for k in kinds:
        p = os.path.join(folder, f'{archive}.{k}')
        if k == 'zip':
            with zipfile.ZipFile(p) as z: held = {x: z.read(x) for x in z.namelist()}
        else:
            with tarfile.open(p) as t: held = {x.name: t.extractfile(x).read() for x in t.getmembers()}
        check(held == out, 'the archive holds the exported files', k, sorted(held), sorted(out))
    return out


def again(folder, fmt):
    b = (ESFMBible if fmt == 'toESFM' else USFMBible)(folder, 'xyz')
    b.loadBooks()
    return b


def book_level(es, fmt, BBB):
    """Lines without those that the export adds at the start of the book."""
    if fmt == 'toUSFM3': added = [['usfm', '3.0']]
    elif fmt == 'toESFM': added = [['ide', 'UTF-8'], ['rem', 'ESFM v0.5 ' + BBB]]
    else: return es
    return [e for i, e in enumerate(es) if not (i < 4 and e[:2] in added)]


def run(c, rec):
    fmt = c['format']
    rec.label(fmt)
    rec.interesting(sum(len(b['lines']) for b in c['books']) > 12)
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', c['books'], eol='\r\n' if c['crlf'] else '\n')
        bible = ld.load_usfm(d + '/src')
        B = bible.getBookList()
        before = {b: rows(bible[b]) for b in B}
        for k in (1, 2): os.makedirs(f'{d}/{k}')
        check(getattr(bible, fmt)(f'{d}/1'), fmt, 'succeeds')
        equal({b: rows(bible[b]) for b in B}, before, 'the Bible after', fmt)
        one = exported(f'{d}/1', fmt)
        equal(len(one), len(B), 'number of exported books')
        b2 = again(f'{d}/1', fmt)
        equal(b2.getBookList(), B, 'books')
        for b in B:
            x, y = rows(b2[b]), rows(bible[b])
            if fmt == 'toUSFM3': equal([e[0] for e in x[:2]], ['id', 'usfm'], 'first lines')
            if fmt == 'toESFM': equal([e[0] for e in x if e[0] in ('id', 'ide')][:2], ['id', 'ide'], 'first lines')
            x, y = book_level(x, fmt, b), book_level(y, fmt, b)
            for i in range(min(len(x), len(y))): equal(x[i], y[i], 'line', i, 'of', b, 'after', fmt)
            equal(len(x), len(y), 'number of lines of', b)
            x, y = ([k for k in z[b]._CVIndex if k[0] != '-1'] for z in (b2, bible))
            equal(x, y, 'verses of', b)
        check(getattr(b2, fmt)(f'{d}/2'), fmt, 'succeeds again')
        two = exported(f'{d}/2', fmt)
        equal(two, one, 'exported again')


@st.composite
def bridge_case(draw):
    b = draw(st.sampled_from(g.BOOKS))
    return dict(book=draw(g.book(BBB=b, max_chapters=2, headings=draw(st.booleans()), intro=False)), format=draw(st.sampled_from(['toUSFM2', 'toUSFM3'])), dash=draw(st.sampled_from('--–—')))


def run_bridges(c, rec):
    """removeVerseBridges: the text of a bridge goes to its first verse, and the others follow, empty."""
    bk = c['book']
    src = dict(bk, lines=[[m, n.replace('-', c['dash']) if m == 'v' else n, ps] for m, n, ps in bk['lines']])
    lines, pending = [], []
    for m, n, parts in bk['lines']:
        if m in ('v', 'c'):
            lines += [['v', x, []] for x in pending]; pending = []
        if m == 'v' and re.fullmatch(r'\d+-\d+', n):
            a, z = map(int, n.split('-'))
            n, pending = str(a), [str(x) for x in range(a + 1, z + 1)]
        elif m == 'v' and '-' in n: raise Discard()
        lines.append([m, n, parts])
    lines += [['v', x, []] for x in pending]
    rec.interesting(len(lines) > len(bk['lines']))
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', [src]); ld.write_usfm(d + '/exp', [dict(bk, lines=lines)])
        bible, want = ld.load_usfm(d + '/src'), ld.load_usfm(d + '/exp')
        for k in (1, 2): os.makedirs(f'{d}/{k}')
        check(getattr(bible, c['format'])(f'{d}/1', True), 'succeeds')
        check(getattr(want, c['format'])(f'{d}/2'), 'succeeds')
        got, exp = again(f'{d}/1', c['format']), again(f'{d}/2', c['format'])
        x, y = rows(got[bk['BBB']]), rows(exp[bk['BBB']])
        for i in range(min(len(x), len(y))): equal(x[i], y[i], 'line', i, 'without bridges')
        equal(len(x), len(y), 'number of lines without bridges')


SUBS = [Sub('round trips', case, run, 1200, rule='more than twelve lines', shards=5),
        Sub('bridges', bridge_case, run_bridges, 200, rule='a bridge was removed', shards=2)]

PROBES = []
