"""C11: the XML exports are well-formed and hold every verse's text at its place, and load again."""
import os, re, collections
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C11'


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


def words(text): return ' '.join(text.replace('\xa0', ' ').split())
def local(tag): return tag.split('}')[-1] if isinstance(tag, str) else ''


def parse(path):
    with open(path, 'rb') as f: data = f.read()
    try: return ET.fromstring(data)
    except ET.ParseError as e: raise Violation(f'{os.path.basename(path)} is not well-formed XML: {e}: {data.splitlines()[max(0, e.position[0] - 1)][:300]!r}')


BLOCKS = g.PARAS + ['q', 'b']


def flow(root, skip, start, end=lambda e: False):
    """Text of the verses of a document where a verse is what follows its (empty) start element. skip(e): text isn't verse text."""
    out, now = [], [None]

    def add(t):
        if t and now[0] is not None: out[now[0]][1].append(t)

    def walk(e, hidden):
        s = start(e)
        if s is not None:
            if s == 'none': now[0] = None
            else: out.append((s, [])); now[0] = len(out) - 1
        elif end(e): now[0] = None
        h = hidden or skip(e)
        if e.tag in BLOCKS: add(' ')
        if not h: add(e.text)
        for x in e:
            walk(x, h)
            if h and not hidden and start(x) not in (None, 'none'): h = False  # a verse starting inside a heading paragraph
            if not h: add(x.tail)
    walk(root, False)
    return [(cv, words(''.join(t))) for cv, t in out]


def usfx(d):
    root = parse(f'{d}/Bible.usfx')
    out = {}
    for book in root.iter('book'):
        C = [None]

        def start(e):
            if e.tag == 'c': C[0] = e.get('id'); return 'none'
            if e.tag == 'v': return (C[0], e.get('id'))
        check(book.get('id') not in out, 'book twice', book.get('id'))
        out[book.get('id')] = flow(book, lambda e: e.tag in ('f', 'x', 's', 'r', 'd', 'h', 'toc', 'id', 'ide', 'rem', 'fig', 'cl', 'cp', 'ca') or e.tag == 'p' and (e.get('sfm') or '') in HEADS or e.tag in HEADS, start, lambda e: e.tag == 've')
    return out


HEADS = {'mt1', 'mt2', 'mt3', 's1', 's2', 's3', 'ms1', 'ms2', 'mr', 'sr', 'r', 'd', 'sp', 'cl', 'cd', 'qa', 'qd', 'rem', 'h', 'toc1', 'toc2', 'toc3', 'ide', 'is1', 'ip', 'iot', 'io1', 'restore', 'mte1', 'mte', 'mt', 's', 'ms'}


def usx(sub):
    def read(d):
        out = {}
        for n in sorted(os.listdir(f'{d}/{sub}')):
            root = parse(f'{d}/{sub}/{n}')
            C, B = [None], root.find('.//book').get('code')

            def start(e):
                if e.tag == 'chapter' and e.get('number'): C[0] = e.get('number'); return 'none'
                if e.tag == 'verse' and e.get('number'): return (C[0], e.get('number'))
            out[B] = flow(root, lambda e: e.tag in ('note', 'figure', 'book') or e.tag == 'para' and e.get('style') in HEADS, start, lambda e: e.tag == 'verse' and e.get('eid'))
        return out
    return read


def osis(d):
    out = {}
    for n in os.listdir(d):
        if not n.endswith('.osis'): continue
        root = parse(f'{d}/{n}')
        for book in root.iter():
            if local(book.tag) != 'div' or book.get('type') != 'book': continue

            def start(e):
                if local(e.tag) == 'verse' and e.get('sID'):
                    ids = [x.split('.') for x in e.get('osisID').split()]
                    check(len({i[1] for i in ids}) == 1, 'verse IDs', ids)
                    return (ids[0][1], ids[0][2] + ('-' + ids[-1][2] if len(ids) > 1 else ''))
            out[book.get('osisID')] = flow(book, lambda e: local(e.tag) in ('title', 'note', 'figure', 'speaker'), start, lambda e: local(e.tag) == 'verse' and e.get('eID'))
    return out


def visible(e):
    return (e.text or '') + ''.join(('' if x.tag in ('NOTE', 'XREF') else visible(x)) + (x.tail or '') for x in e)


def nested(name, book, bn, chapter, cn, verse, vn):
    def read(d):
        root, out = parse(f'{d}/{name}'), {}
        for b in root.iter(book):
            rows = []
            for c in b.iter(chapter):
                for v in c.iter(verse):
                    n = v.get(vn) or ''
                    if v.get('enumber'): n += '-' + v.get('enumber')
                    rows.append(((c.get(cn), n), words(visible(v))))
            out[b.get(bn)] = rows
        return out
    return read


READERS = {'toUSFXXML': usfx, 'toUSXXML': usx('USX3Files'), 'toUSX2XML': usx('USX2Files'), 'toOSISXML': osis, 'toOpenSongXML': nested('Bible.osong', 'b', 'n', 'c', 'n', 'v', 'n'),
           'toZefaniaXML': nested('Bible.zef', 'BIBLEBOOK', 'bnumber', 'CHAPTER', 'cnumber', 'VERS', 'vnumber'), 'toHaggaiXML': nested('Bible.hag', 'BIBLEBOOK', 'bnumber', 'CHAPTER', 'cnumber', 'VERSE', 'vnumber')}


def key(name, B):
    c = G.loadedBibleBooksCodes
    if name in ('toZefaniaXML', 'toHaggaiXML'): return str(c.getReferenceNumber(B))
    if name == 'toOSISXML': return c.getOSISAbbreviation(B)
    return c.getUSFMAbbreviation(B).upper()


@st.composite
def bibles(draw, special=True, **opts):
    opts = dict(FULL, **opts)
    books = [draw(g.book(BBB=B, max_chapters=2, long=False, **opts)) for B in draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=2, unique=True))]
    if special and draw(st.booleans()):
        for bk in books:
            for m, n, ps in bk['lines']:
                if ps and ps[-1][0] == 't' and m not in ('id', 'ide', 'h') and draw(st.integers(0, 4)) == 0: ps[-1][1] += draw(st.sampled_from([' & more', ' <b>', ' 1 < 2', ' x&y;']))
    return dict(books=books)


def run(name):
    def go(c, rec):
        with TempDir() as d, quiet():
            ld.write_usfm(f'{d}/in', c['books'])
            b = ld.load_usfm(f'{d}/in')
            names = {B: b.getAssumedBookName(B) for B in b.books}
            os.makedirs(f'{d}/out')
            # with a schema the files are also validated (unless there is nothing to do that with)
            schema = {'validationSchema': f'{d}/none.xsd'} if name in ('toUSX2XML', 'toOSISXML') and len(c['books']) > 1 else {}
            getattr(b, name)(f'{d}/out', **schema)
            got = READERS[name](f'{d}/out')
        for bk in c['books']:
            texts, order = g.verse_text(bk)
            rec.interesting(len(order) > 2)
            k = names[bk['BBB']] if name == 'toOpenSongXML' else key(name, bk['BBB'])
            check(k in got, 'book', k, 'is missing in', sorted(got))
            want = [(cv, words(' '.join(texts[cv]))) for cv in order]
            want = [w for w in want if w[1]]
            have = {}
            for cv, text in got[k]: have[cv] = words(have.get(cv, '') + ' ' + text.replace('- - -', ''))  # the filler of a verse without text
            have = [w for w in have.items() if w[1]]
            numbers = [n for m, n, t in bk['lines'] if m == 'v']
            if len(set(numbers)) < len(numbers): have.sort(), want.sort()  # where a repeated verse goes depends on which of its parts have text
            equal(have, want, name, 'verses of', bk['BBB'])
    return go


def load_again(name, out):
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    from BibleOrgSys.Formats.ZefaniaXMLBible import ZefaniaXMLBible
    if name == 'toZefaniaXML': b = ZefaniaXMLBible(out, 'Bible.zef')
    else: b = USXXMLBible(f'{out}/{"USX3Files" if name == "toUSXXML" else "USX2Files"}', 'Test')
    if hasattr(b, 'preload'): b.preload()
    b.load()
    return b


def loaded_texts(book):
    d, C, V = {}, '-1', '0'
    for e in book:
        m, t = e.getMarker(), e.getCleanText()
        if m == 'c': C, V = t, '0'
        elif m == 'v': V = t
        elif m in ('v~', 'p~') and V != '0':
            t = words(t.replace('- - -', ''))
            if t: d[C, V] = words(d.get((C, V), '') + ' ' + t)
    return d


def reload(name):
    def go(c, rec):
        with TempDir() as d, quiet():
            ld.write_usfm(f'{d}/in', c['books'])
            b = ld.load_usfm(f'{d}/in')
            os.makedirs(f'{d}/out')
            getattr(b, name)(f'{d}/out')
            b = load_again(name, f'{d}/out')
            equal(sorted(b.getBookList()), sorted(bk['BBB'] for bk in c['books']), name, 'books loaded again')
            got = {bk['BBB']: loaded_texts(b[bk['BBB']]) for bk in c['books']}
        for bk in c['books']:
            texts, order = g.verse_text(bk)
            rec.interesting(len(order) > 2)
            want = {cv: words(' '.join(t)) for cv, t in texts.items()}
            equal(sorted(got[bk['BBB']].items()), sorted(x for x in want.items() if x[1]), name, 'verses of', bk['BBB'], 'loaded again')
    return go


# What the importers load today without loss: no notes, character formatting, words with attributes or bridges (see DESIGN.md)
LOADABLE = dict(notes=False, chars=False, words=False, vp=False, bridges=False, repeats=False, swaps=False, rich_heads=False)
FULL = dict(repeats=True, swaps=True)
SUBS = [Sub(n, lambda n=n: bibles(), run(n), quick=100, rule='at least three verses', shards=2) for n in READERS]
SUBS += [Sub('reload ' + n, lambda n=n: bibles(special=n == 'toZefaniaXML', **LOADABLE), reload(n), quick=150, rule='at least three verses') for n in ('toUSXXML', 'toUSX2XML', 'toZefaniaXML')]
