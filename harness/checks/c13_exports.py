"""C13: exporters can be run in any order, are repeatable and leave the Bible as it was; web and document exports hold all of the verse text."""
import os, re, unicodedata, html.parser, html as html_module
import xml.etree.ElementTree as ET
from collections import Counter
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C13'
EXPORTERS = ('makeLists toBOSBCV toBibleDoor toDrupalBible toESFM toESword toEasyWorshipBible toHTML5 toHaggaiXML toMarkdown toMyBible toMySword toOSISXML toOpenSongXML toPickleObject toPickledBible '
             'toPseudoUSFM toSwordModule toSwordSearcher toTeX toText toUSFM2 toUSFM3 toUSFXXML toUSX2XML toUSXXML toVPL toZefaniaXML totheWord').split()
ARCHIVES = ('.zip', '.bz2', '.gzip', '.gz')


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


def squash(t): return ''.join(t.split())


# ------------------------------------------------------------------ order and repetition

def snapshot(b):
    rows = {}
    for B in b.getBookList():
        rows[B] = [(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getOriginalText(), [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in e.getExtras() or []]) for e in b.books[B]]
    return dict(books=rows, list=b.getBookList(), name=b.getAName(), metadata=repr(b.suppliedMetadata), settings=repr(b.settingsDict),
                names=[(B, b.getAssumedBookName(B), b.getLongTOCName(B), b.getShortTOCName(B), b.getBooknameAbbreviation(B)) for B in b.getBookList()])


TIME = re.compile(rb'\d{4}-\d\d-\d\d([T ]\d\d:\d\d(:\d\d)?(\.\d+)?)?|\d\d:\d\d:\d\d(\.\d+)?')


def tree(folder):
    d = {}
    for p, _, names in os.walk(folder):
        for n in names:
            if n.endswith(ARCHIVES): continue
            with open(os.path.join(p, n), 'rb') as f: d[os.path.relpath(os.path.join(p, n), folder)] = f.read()
    return d


def plain(e, files):
    """Contents without the time of the export."""
    r = {}
    for n, c in files.items():
        if e == 'toMyBible': n = re.sub(r'_\d+', '', n)
        if n.endswith('.pickle'): c = b''  # see C09; also holds the time and whether another export was done before
        r[n] = TIME.sub(b'TIME', c)
    return r


@st.composite
def some_books(draw, **options):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    B = draw(st.lists(st.sampled_from(g.BOOKS), min_size=n, max_size=n, unique=True))
    return dict(books=[draw(g.book(BBB=b, max_chapters=3, vp=False, **options)) for b in B])


@st.composite
def sequence(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    B = draw(st.lists(st.sampled_from(g.BOOKS), min_size=n, max_size=n, unique=True))
    books = [draw(g.book(BBB=b, max_chapters=2, max_verses=6, vp=False)) for b in B]
    return dict(books=books, exports=draw(st.lists(st.sampled_from(EXPORTERS), min_size=2, max_size=4)))


def export(b, e, folder):
    os.makedirs(folder)
    try: getattr(b, e)(folder)
    except Exception as x: raise Violation(f'{e} failed: {type(x).__name__}: {x}') from x
    return plain(e, tree(folder))


def run_sequence(c, rec):
    rec.interesting(len(set(c['exports'])) > 1)
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', c['books'])
        b = ld.load_usfm(d + '/src')
        before = snapshot(b)
        done = {}
        for i, e in enumerate(c['exports']):
            files = export(b, e, f'{d}/out{i}')
            check(files, e, 'writes files')
            if e in done: same_files(files, done[e], e, 'repeated after', c['exports'][:i])
            done[e] = files
            after = snapshot(b)
            for k in before: equal(after[k], before[k], 'the Bible after', e, k)
        e = c['exports'][-1]
        fresh = ld.load_usfm(d + '/src')
        same_files(done[e], export(fresh, e, d + '/fresh'), e, 'after', c['exports'][:-1])


def same_files(got, want, *what):
    equal(sorted(got), sorted(want), 'files of', *what)
    for n in want:
        if got[n] != want[n]:
            a, b = got[n].split(b'\n'), want[n].split(b'\n')
            for x, y in zip(a, b): equal(x[:300], y[:300], 'line of', n, 'from', *what)
            equal(len(a), len(b), 'lines of', n, 'from', *what)


# ------------------------------------------------------------------ web pages

def first(V):
    """The first verse of a bridge (where links lead to)."""
    return re.split('[-–—]', V)[0]


@st.composite
def web_books(draw):
    """Books whose notes mostly refer to their own verses, in several styles."""
    c = draw(some_books())
    for bk in c['books']:
        C = V = None
        for m, n, ps in bk['lines']:
            if m == 'c': C, V = n, None
            if m == 'v': V = n
            for p in ps or []:
                if p[0] != 'n' or not V or p[3][0][0] not in ('fr', 'xo') or draw(st.integers(0, 3)) == 0: continue
                p[3][0][1] = C + draw(st.sampled_from('::.')) + draw(st.sampled_from([V, V, first(V), V.replace('-', '–')])) + draw(st.sampled_from(['', '', ':', '.']))
    return c


VOID = ('meta', 'link', 'img', 'br', 'hr')


class Page(html.parser.HTMLParser):
    """Checks that tags match, and gives the verse texts and the ids and links."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.open, self.verses, self.order, self.verse, self.ids, self.links, self.headings, self.other = [], {}, [], None, [], [], [], []

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if 'id' in a: self.ids.append(a['id'])
        if 'href' in a: self.links.append(a['href'])
        c = a.get('class', '')
        m = re.fullmatch(r'C(\d+)V(\S+)', a.get('id', ''))
        if c == 'verse' and m:
            self.verse = m[1], first(m[2])
            self.order.append(self.verse)
        if tag not in VOID: self.open.append((tag, c))

    def handle_endtag(self, tag):
        check(self.open and self.open[-1][0] == tag, 'end tag', tag, 'closes', self.open[-3:], 'at line', self.getpos()[0])
        self.open.pop()

    def handle_data(self, t):
        classes = [c for _, c in self.open]
        if not t.strip() or any(c.endswith('Symbol') or c == 'fnFigure' for c in classes): return
        if 'verseText' in classes:
            self.verses[self.verse] = self.verses.get(self.verse, '') + squash(t)
        else: self.other.append(t)


def web(c, rec):
    books = c['books']
    rec.interesting(sum(len(g.verse_text(bk)[0]) for bk in books) > 5)
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', books)
        b = ld.load_usfm(d + '/src')
        b.toHTML5(d + '/out')
        pages = {}
        for n, text in tree(d + '/out/Website').items():
            if not n.endswith('.html'): continue
            p = Page()
            p.feed(text.decode())
            p.close()
            equal(p.open, [], 'open tags at the end of', n)
            equal(len(set(p.ids)), len(p.ids), 'ids of', n, [i for i in p.ids if p.ids.count(i) > 1][:5])
            pages[n] = p
        have = {bk['BBB']: {(C, first(V)) for C, V in g.verse_text(bk)[0]} | {n for m, n, _ in bk['lines'] if m == 'c'} for bk in books}
        for bk in books: check(f'{bk["BBB"]}.html' in pages, 'page for', bk['BBB'], sorted(pages))
        for n, p in pages.items():
            for l in p.links:
                if l.startswith('http'): continue
                page, _, at = l.partition('#')
                if page.endswith('.css'): continue
                check(not page or page in pages, n, 'links to a page which is not there', l)
                if not at or at in pages[page or n].ids: continue
                m = re.fullmatch(r'C(?:S(\d+)|(\d+)V(\d+[a-z]?))', at)  # (may lead to a verse the Bible doesn't have)
                there = have.get((page or n)[:3], ())
                check(m and (m[1] not in there if m[1] else (m[2], m[3]) not in there), 'link to a place which is not there', n, l, [i for i in pages[page or n].ids if i[0] == 'C'][:30])
        for bk in books:
            p, (want, order) = pages[f'{bk["BBB"]}.html'], g.verse_text(bk)
            for l in p.links:
                if re.match('#(FNote|ENote|XRef)', l): check(l[1:] in p.ids, 'link to a note which is not there', l)
            got = {k: t for k, t in p.verses.items() if t}
            equal(got, {(k[0], first(k[1])): squash(''.join(t)) for k, t in want.items() if squash(''.join(t))}, 'verse texts of the page of', bk['BBB'])


# ------------------------------------------------------------------ documents and word lists

def documents(c, rec):
    """Verse texts (plain words) appear in order in the Markdown and TeX exports."""
    books = c['books']
    rec.interesting(sum(len(g.verse_text(bk)[0]) for bk in books) > 5)
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', books)
        b = ld.load_usfm(d + '/src')
        for e in ('toMarkdown', 'toTeX'):
            files = export(b, e, f'{d}/{e}')
            for bk in books:
                n = [n for n in files if bk['BBB'] in n and n.endswith(('.md', '.tex'))]
                equal(len(n), 1, 'file of', e, bk['BBB'])
                text = files[n[0]].decode()
                if e == 'toTeX': text = re.sub(r'\\(?:chapter|verse)Number\{[^}]*\}|\\Bible\w+\{([^}]*)\}|\\BibleParagraphStyle[A-Z]+', r'\1', text)
                else: text = text.replace('_', '').replace('*', '')
                text, at = squash(text), 0
                want, order = g.verse_text(bk)
                for k in order:
                    for t in want[k]:
                        t = squash(t)
                        i = text.find(t, at)
                        check(i >= 0, e, 'text of verse', bk['BBB'], k, t, 'is missing or out of order after', text[max(0, at - 40):at], 'before', text[at:at + 80])
                        at = i + len(t)


# Lines whose words surely count, and lines which surely aren't part of the printed text
COUNTED = re.compile(r'[vp]~|i?mte?\d|is\d|ip|iot|io\d|s\d')
NOT_COUNTED = re.compile(r'id|ide|h\d?|toc\d|rem|sts|usfm|c|v')


def words_of(text):
    out = []
    for w in text.replace('—', ' ').replace('–', ' ').split():
        while w and unicodedata.category(w[0])[0] in 'PSC': w = w[1:]
        while w and unicodedata.category(w[-1])[0] in 'PSC': w = w[:-1]
        if w and not re.fullmatch(r'[\d:.,-]+', w): out.append(w)
    return out


def word_lists(c, rec):
    """The word lists in the four formats agree, are sorted, and hold every word of titles, headings, introductions, verses (and notes) as often as it occurs."""
    surely, perhaps, notes = Counter(), Counter(), Counter()
    for bk in c['books']:
        for m, _, _, clean, extras, _, _ in g.model(bk):
            if NOT_COUNTED.fullmatch(m): continue
            (surely if COUNTED.fullmatch(m) else perhaps).update(words_of(clean))
            for x in extras:
                if x[0] not in ('fig', 'ww'): notes.update(words_of(x[-1]))
    rec.interesting(len(surely) > 10)
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', c['books'])
        files = export(ld.load_usfm(d + '/src'), 'makeLists', d + '/out')
    for kind in ('All_wordcounts', 'Main_text_wordcounts', 'All_wordcounts_case_insensitive', 'Main_text_wordcounts_case_insensitive'):
        low = surely + notes if kind.startswith('All') else surely
        high = low + perhaps
        if kind.endswith('insensitive'): low, high = ({k: v for k, v in fold(x).items()} for x in (low, high))
        for order in ('word', 'count'):
            n = f'{kind}_sorted_by_{order}'
            txt = [l.rsplit(' ', 1) for l in files[f'TXT/{n}.txt'].decode('utf-8-sig').splitlines()]
            got = [(w, int(k)) for w, k in txt]
            equal(len(dict(got)), len(got), 'a word only once in', n)
            if order == 'word': equal([w for w, _ in got], sorted(w for w, _ in got), 'words of', n, 'in order')
            else: equal([k for _, k in got], sorted(k for _, k in got), 'counts of', n, 'in order')
            csv_rows = [l.rsplit(',', 1) for l in files[f'CSV/{n}.csv'].decode('utf-8-sig').splitlines()]
            equal([(w.strip("'\"") if ',' in w else w, int(k)) for w, k in csv_rows if w != 'Word'], got, 'CSV of', n)
            root = ET.fromstring(files[f'XML/{n}.xml'].decode().split('?>', 1)[1])
            equal([(e.findtext('word'), int(e.findtext('count'))) for e in root.iter('entry')], got, 'XML of', n)
            rows = re.findall(r'<tr><td>(.*?)</td><td>(\d+)</td></tr>', files[f'HTML/{n}.html'].decode())
            equal([(html_module.unescape(w), int(k)) for w, k in rows], got, 'HTML of', n)
            total = Counter()  # (quotes matched with one inside the word, as in Ka‘ū’, stay in the lists)
            for w, k in got:
                for x in words_of(w): total[x] += k
            for w, k in total.items(): check(low.get(w, 0) <= k <= high.get(w, 0), n, 'word', w, 'count', k, 'expected', low.get(w, 0), 'to', high.get(w, 0))
            for w in low: check(w in total, n, 'lacks', w)


def fold(counts):
    r = Counter()
    for w, k in counts.items(): r[w.lower()] += k
    return r


SUBS = [
    Sub('sequences', sequence, run_sequence, quick=400, rule='at least two different exporters', shards=4),
    Sub('web', web_books, web, quick=200, rule='more than five verses', shards=2),
    Sub('documents', lambda: some_books(notes=False, figs=False, words=False, chars=False), documents, quick=200, rule='more than five verses', shards=2),
    Sub('word lists', lambda: some_books(), word_lists, quick=200, rule='more than ten different words', shards=2),
]
