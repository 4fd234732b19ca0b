"""C32: a project package (Paratext 7 and 8, DBL, Scripture Burrito) gives exactly the books and the settings that are in it.

Oracle: the text is loaded a second time from plain files with the plain importer (which C01 and C11 decide), and the settings,
names, versifications, spellings and so on must be those that were written into the package's metadata files.
"""
import json
import os
import shutil
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

import gen_usfm as g
import loaders as ld
import refdata
from core import check, equal, quiet, short, Sub, sut, TempDir

PROPERTY = 'C32'


def setup():
    global G, CODES
    G = sut()
    CODES = G.loadedBibleBooksCodes


VALUE = st.lists(st.sampled_from(['Faith', '& Life', 'Bible', '<New>', 'Ñandú', '"Good"', "People's", '2020', '©', 'מלך', 'a=b', '/', '1.5']), min_size=1, max_size=4).map(' '.join)
SAFE = st.lists(st.sampled_from(['Faith', 'Life', 'Bible', 'Ñandú', "People's", '2020', 'מלך']), min_size=1, max_size=3).map(' '.join)
KEYS = ['Name', 'Copyright', 'FullName', 'Language', 'LanguageIsoCode', 'Versification', 'DefaultFont', 'Editable', 'ChapterVerseSeparator', 'BooksPresent', 'MinParatextVersion', 'FileNameForm', 'Guid']
STYLE = ['Name', 'Description', 'OccursUnder', 'Rank', 'Endmarker', 'TextType', 'TextProperties', 'Justification', 'FontSize', 'SpaceBefore', 'LeftMargin']
BOOL = st.sampled_from(['true', 'false'])
FAMILY = dict(max_chapters=2, max_verses=5, intro=True, headings=True, notes=True, chars=True, suffixes=True, bridges=True, words=True)
PLAIN = dict(max_chapters=3, max_verses=6, intro=True, headings=True, notes=False, chars=False, words=False, vp=False, bridges=False, repeats=False, swaps=False, rich_heads=False)  # what the USX importer and exporter can do


@st.composite
def texts(draw, most=3, family=FAMILY):
    bbbs = draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=most, unique=True))
    return [draw(g.book(BBB=B, **family)) for B in bbbs]


@st.composite
def versification(draw):
    lines = []
    books = draw(st.lists(st.sampled_from([B for B in g.BOOKS]), min_size=1, max_size=4, unique=True))
    code = lambda B: g.USFM_ABBREV[B].upper()
    num = st.integers(1, 150)
    for B in books: lines.append(('counts', B, draw(st.lists(st.integers(1, 176), min_size=1, max_size=5))))
    for B in draw(st.lists(st.sampled_from(books), max_size=2)): lines.append(('map', B, f' {draw(num)}:{draw(num)}', draw(st.sampled_from(books)), f' {draw(num)}:{draw(num)}-{draw(num)}'))
    for B in draw(st.lists(st.sampled_from(books), max_size=2)): lines.append(('omit', B, draw(num), draw(num), draw(st.booleans())))
    text, want, seen = [], {}, set()
    for l in lines:
        k, B = l[0], l[1]
        if draw(st.integers(0, 3)) == 0: text.append(draw(st.sampled_from(['# a comment', '#', '', '# MAT 1:25 2:23', '#! a comment'])))
        if k == 'counts':
            text.append(code(B) + ' ' + ' '.join(f'{n}:{v}' for n, v in enumerate(l[2], 1)))
            want.setdefault('VerseCounts', {})[B] = {str(n): str(v) for n, v in enumerate(l[2], 1)}
        elif k == 'map':
            text.append(f'{code(B)}{l[2]} = {code(l[3])}{l[4]}')
            want.setdefault('Mappings', {})[B + l[2]] = l[3] + l[4]
        else:
            text.append(('#! -' if l[4] else '-') + f'{code(B)} {l[2]}:{l[3]}')
            want.setdefault('Omitted', []).append([B, str(l[2]), str(l[3])])
    return dict(lines=text, want=want, bom=draw(st.booleans()))


@st.composite
def projects(draw):
    names = draw(st.lists(st.sampled_from(g.BOOKS), max_size=4, unique=True))
    return dict(books=draw(texts()), settings=[[k, draw(st.one_of(st.just(''), VALUE))] for k in draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=6, unique=True))],
                names=[[B] + [draw(VALUE) for _ in range(3)] for B in names], vrs=[draw(versification()) for _ in range(draw(st.integers(0, 2)))],
                naming=draw(st.booleans()), closed=draw(st.booleans()), oneline=draw(st.integers(0, 4)) == 0, bom=draw(st.booleans()),
                spelling=[[w, draw(st.sampled_from('RW')), draw(st.one_of(st.none(), VALUE)), draw(st.booleans())] for w in draw(st.lists(g.word, max_size=4, unique=True))],
                guid=draw(st.one_of(st.none(), st.uuids().map(str))), licence=draw(st.one_of(st.none(), st.dictionaries(st.sampled_from('abc'), VALUE, min_size=1, max_size=3))),
                auto=[[draw(st.sampled_from(['~', '<<', '`', '--', 'ñ'])), draw(st.sampled_from(['“', '‘', '—', 'N']))] for _ in range(draw(st.integers(0, 3)))],
                derived=[[draw(st.sampled_from(g.BOOKS)), draw(st.integers(0, 150)), draw(st.integers(1, 150)), '%08X' % draw(st.integers(0, 2**32 - 1)), draw(SAFE)] for _ in range(draw(st.integers(0, 3)))],
                characters=draw(st.one_of(st.none(), st.lists(VALUE, min_size=2, max_size=4))),
                styles=[[m, [[k, draw(SAFE)] for k in draw(st.lists(st.sampled_from(STYLE), min_size=1, max_size=4, unique=True))], draw(st.booleans())] for m in draw(st.lists(st.sampled_from(['id', 'c', 'v', 'add', 'q1', 's']), max_size=4, unique=True))],
                tags=[[str(n), draw(VALUE), draw(SAFE), draw(BOOL)] for n in draw(st.lists(st.integers(1, 9), max_size=3, unique=True))],
                canons=[[str(n), draw(VALUE), draw(BOOL), draw(BOOL), draw(st.lists(st.sampled_from(g.BOOKS), max_size=4))] for n in draw(st.lists(st.integers(1, 9), max_size=3, unique=True))],
                checks=[[B, k, draw(SAFE), str(draw(st.integers(0, 99)))] for B, k in draw(st.lists(st.tuples(st.sampled_from(g.BOOKS), st.sampled_from(['Markers', 'Quotations', 'ChapterVerse'])), max_size=4, unique=True))],
                terms=[[t, draw(BOOL), draw(st.lists(g.word, max_size=3)), draw(st.one_of(st.none(), VALUE)), draw(st.lists(VALUE, max_size=2))] for t in draw(st.lists(VALUE, max_size=3, unique=True))],
                passages=[[k, draw(st.sampled_from('UF')), draw(VALUE)] for k in draw(st.lists(st.sampled_from(['1CH 29:27;1KI 2:11', 'MAT 3:1;MRK 1:4', 'JHN 1:1']), max_size=3, unique=True))],
                above=max(0, draw(st.integers(-2, 2))), single=draw(st.integers(0, 3)) == 0,
                encoding=draw(st.sampled_from([None, '65001', '65001', '1252'])))


def rows(book):
    return [(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getFullText(), [(x.getType(), x.getIndex(), x.getText(), x.getCleanText()) for x in e.getExtras() or []]) for e in book]


def same_books(a, b):
    equal(sorted(a.getBookList()), sorted(b.getBookList()), 'books')
    for B in b.getBookList(): equal(rows(a[B]), rows(b[B]), 'contents of', B)


def load(b, c):
    if not c['single']: return b.load()
    b.preload()
    for x in c['books']: b.loadBook(x['BBB'])


def write(path, text, bom=False):
    with open(path, 'wt', encoding='utf-8') as f: f.write(('\ufeff' if bom else '') + text)


def common(d, c):
    """The files that Paratext 7 and 8 have in common."""
    if c['names']:
        write(f'{d}/BookNames.xml', '<?xml version="1.0" encoding="utf-8"?>\n<BookNames>\n' + ''.join(
            f'  <book code="{g.USFM_ABBREV[B].upper()}" abbr={quoteattr(a)} short={quoteattr(s)} long={quoteattr(l)} />\n' for B, a, s, l in c['names']) + '</BookNames>', c['bom'])
    for n, v in enumerate(c['vrs']): write(f'{d}/{("custom", "English")[n]}.vrs', '\n'.join(v['lines']) + '\n', v['bom'])
    if c['spelling']:
        write(f'{d}/SpellingStatus.xml', '<?xml version="1.0" encoding="utf-8"?>\n<SpellingStatus>\n' + ''.join(
            f'  <Status Word={quoteattr(w)} State="{s}">\n' + ('    <SpecificCase />\n' if e else '') + (f'    <Correction>{escape(x)}</Correction>\n' if x else '    <Correction />\n') + '  </Status>\n' for w, s, x, e in c['spelling']) + '</SpellingStatus>')
    if c['styles']:
        write(f'{d}/usfm.sty', '# comment\n\n' + '\n'.join(f'\\Marker {m}\n' + ''.join(f'\\{k} {v}\n' for k, v in a) + ('\\Bold\n' if b else '') for m, a, b in c['styles']), c['bom'])
    if c['auto']: write(f'{d}/AutoCorrect.txt', '# comment\n\n#x-->y\n' + ''.join(f'{a}-->{b}\n' for a, b in c['auto']), c['bom'])


def same_common(m, c):
    code = lambda B: g.USFM_ABBREV[B].upper()
    equal(m.get('BooksNames', {}), {B: (code(B), a, s, l) for B, a, s, l in c['names']}, 'book names')
    have = {k: {p: ([list(x) for x in q] if p == 'Omitted' else q) for p, q in v.items()} for k, v in m.get('Versifications', {}).items()}
    equal(have, {('custom', 'English')[n]: v['want'] for n, v in enumerate(c['vrs'])}, 'versifications')
    spelling = m.get('SpellingStatus', {})
    equal(spelling.get('SpellingWords', spelling), {w: dict({'State': s, 'Correction': x}, **({'SpecificCase': None} if e else {})) for w, s, x, e in c['spelling']}, 'spellings')
    equal(m.get('Styles', {}), {'usfm': {t: dict(list(map(tuple, a)) + ([('Bold', None)] if b else [])) for t, a, b in c['styles']}} if c['styles'] else {}, 'styles')
    equal(m.get('Autocorrects', {}), dict(map(tuple, c['auto'])), 'autocorrections')


def naming(c): return dict(PrePart='', PostPart='Test.usfm', BookNameForm='41MAT')


def settings_lines(c, empty):
    out = [f'<{k}>{escape(v)}</{k}>' if v or not empty else f'<{k} />' for k, v in c['settings']]
    if c['naming']: out.append('<Naming ' + ' '.join(f'{k}="{v}"' for k, v in naming(c).items()) + (' />' if c['closed'] else '></Naming>'))
    return out


def interesting(c): return len(c['books']) > 1 and bool(c['settings']) and bool(c['vrs'] or c['names'] or c['spelling'])


def ptx8(c, rec):
    """A Paratext 8 project."""
    from BibleOrgSys.Formats.PTX8Bible import PTX8Bible
    rec.interesting(interesting(c))
    with TempDir() as d, quiet():
        os.makedirs(f'{d}/p')
        ld.write_usfm(f'{d}/q', c['books'])
        ld.write_usfm(f'{d}/p', c['books'])
        lines = settings_lines(c, True)
        write(f'{d}/p/Settings.xml', ('' if c['oneline'] else '\n').join(['<ScriptureText>'] + lines + ['</ScriptureText>']) + '\n', c['bom'])
        common(f'{d}/p', c)
        if c['guid']: write(f'{d}/p/unique.id', c['guid'], c['bom'])
        if c['licence']: write(f'{d}/p/license.json', json.dumps(c['licence']), c['bom'])
        if c['derived']:
            write(f'{d}/p/DerivedTranslationStatus.xml', '<DerivedTranslationVerseList>' + ''.join(f'<Verse ref="{g.USFM_ABBREV[B].upper()} {C}:{V}" derived="{x}">{escape(t)}</Verse>' for B, C, V, x, t in c['derived']) + '</DerivedTranslationVerseList>')
        X = lambda name, text: write(f'{d}/p/{name}.xml', '<?xml version="1.0" encoding="utf-8"?>\n' + text)
        U = lambda B: g.USFM_ABBREV[B].upper()
        if c['tags']: X('CommentTags', '<TagList>' + ''.join(f'<Tag Id="{i}" Name={quoteattr(n)} Icon="{x}" CreatorResolve="{f}" />' for i, n, x, f in c['tags']) + '<LastUsedID>9</LastUsedID></TagList>')
        if c['canons']: X('Canons', '<Canons NextId="9">' + ''.join(f'<Canon Id="{i}" Default="{f}" Psa151inPsa="{p}"><Name>{escape(n)}</Name>' + ''.join(f'<Book>{U(B)}</Book>' for B in l) + '</Canon>' for i, n, f, p, l in c['canons']) + '</Canons>')
        if c['checks']: X('CheckingStatus', '<CheckingStatuses>' + ''.join(f'<CheckingStatus><BookName>{U(B)}</BookName><Check>{k}</Check><MD5>{t}</MD5><Errors>{n}</Errors></CheckingStatus>' for B, k, t, n in c['checks']) + '</CheckingStatuses>')
        if c['terms']:
            X('TermRenderings', '<TermRenderingsList>' + ''.join(f'<TermRendering Id={quoteattr(t)} Guess="{f}"><Renderings>{", ".join(r)}</Renderings><Glossary>{escape(gl or "")}</Glossary><Denials>'
                + ''.join(f'<Denial>{escape(x)}</Denial>' for x in l) + '</Denials></TermRendering>' for t, f, r, gl, l in c['terms']) + '</TermRenderingsList>')
        if c['passages']: X('ParallelPassageStatus', '<PassageStatus>' + ''.join(f'<Status passageKey="{k}" status="{t}">' + (f'<Content>{escape(x)}</Content>' if t == 'F' else '<Content />') + '<History /></Status>' for k, t, x in c['passages']) + '</PassageStatus>')
        b = PTX8Bible(f'{d}/p')
        load(b, c)
        other = ld.load_usfm(f'{d}/q')
        same_books(b, other)
        m = b.suppliedMetadata['PTX8']
        want = {k: v or None for k, v in c['settings']}
        if c['naming']: want['Naming'] = naming(c)
        equal(m['Settings'], want, 'settings')
        for a, z in (('Copyright', 'Copyright'), ('FullName', 'WorkName'), ('LanguageIsoCode', 'ISOLanguageCode')):
            if want.get(a): equal(b.settingsDict.get(z), want[a], 'setting', z)
        same_common(m, c)
        equal(m.get('UniqueId'), c['guid'], 'unique id')
        equal(m.get('Licence'), c['licence'], 'licence')
        done = {}
        for B, C, V, x, t in c['derived']: done.setdefault(B, {})[str(C), str(V)] = (x, t)
        equal(m.get('DerivedTranslationStatusByBook', {}), done, 'derived translation status')
        flag = lambda f: f == 'true'
        have = m.get('CommentTags', {}).get('Tag', {})
        equal(have, {i: {'Id': i, 'Name': n, 'Icon': x, 'CreatorResolve': flag(f)} for i, n, x, f in c['tags']}, 'comment tags')
        want = {i: dict({'DefaultFlag': flag(f), 'Psa151inPsaFlag': flag(p), 'LjeInBarFlag': None, 'DagPartialFlag': None, 'Name': n}, **({'BookList': l} if l else {})) for i, n, f, p, l in c['canons']}
        equal(m.get('Canons', {}), want, 'canons')
        books, checks = {}, {}
        for B, k, t, n in c['checks']:
            books.setdefault(U(B), {})[k] = dict(MD5=t, Errors=n)
            checks.setdefault(k, {})[U(B)] = dict(MD5=t, Errors=n)
        equal((m.get('CheckingStatusByBook', {}), m.get('CheckingStatusByCheck', {})), (books, checks), 'checking status')
        want = {t: dict(guessFlag=flag(f), Renderings=r or None, Glossary=gl or None, Denials=[('Denial', x) for x in l] or None) for t, f, r, gl, l in c['terms']}
        equal(m.get('TermRenderings', {}), want, 'term renderings')
        want = {k: dict({'Status': t}, **({'Content': x} if t == 'F' else {})) for k, t, x in c['passages']}
        equal(m.get('ParallelPassageStatus', {}), want, 'parallel passages')
        left = {os.path.relpath(p, f'{d}/p') for p in b.filepathsNotYetLoaded}
        equal(left, set(), 'files not loaded')


def ptx7(c, rec):
    """A Paratext 7 project."""
    from BibleOrgSys.Formats.PTX7Bible import PTX7Bible
    rec.interesting(interesting(c))
    with TempDir() as d, quiet():
        os.makedirs(f'{d}/p')
        ld.write_usfm(f'{d}/q', c['books'])
        ld.write_usfm(f'{d}/p', c['books'])
        lines = settings_lines(c, c['closed'])
        if c['characters'] and not c['oneline']: lines.append('<ValidCharacters>' + '\r\n'.join(map(escape, c['characters'])) + '</ValidCharacters>')
        else: c = dict(c, characters=None)
        if c['encoding'] == '65001': lines.insert(0, '<Encoding>65001</Encoding>')
        write(f'{d}/p/Test.ssf', ('' if c['oneline'] else '\r\n').join(['<ScriptureText>'] + ([] if c['oneline'] else [' ']) + lines + ['</ScriptureText>']) + '\n', c['bom'])
        common(f'{d}/p', c)
        if c['above'] == 2:  # the usual place, with those of the other projects
            os.rename(f'{d}/p/Test.ssf', f'{d}/proj.ssf')
            os.rename(f'{d}/p', f'{d}/proj')
            write(f'{d}/Zulu.ssf', '<ScriptureText>\n<Name>Zulu</Name>\n<Copyright>Wrong</Copyright>\n</ScriptureText>\n')
        elif c['above']: os.rename(f'{d}/p/Test.ssf', f'{d}/Other.ssf')
        b = PTX7Bible(f'{d}/proj' if c['above'] == 2 else f'{d}/p')
        load(b, c)
        same_books(b, ld.load_usfm(f'{d}/q'))
        m = b.suppliedMetadata['PTX7']
        want = {k: v for k, v in c['settings']}
        if c['characters']: want['ValidCharacters'] = ' '.join(c['characters'])
        if c['encoding'] == '65001': want['Encoding'] = '65001'
        if c['naming']: want['Naming'] = ('', ' '.join(f'{k}="{v}"' for k, v in naming(c).items()))
        have = dict(m['SSF'])
        equal(have, want, 'settings')
        for a, z in (('Copyright', 'Copyright'), ('FullName', 'WorkName'), ('LanguageIsoCode', 'ISOLanguageCode')):
            if want.get(a): equal(b.settingsDict.get(z), want[a], 'setting', z)
        same_common(m, c)


@st.composite
def dbls(draw):
    books = draw(texts(family=PLAIN))
    order = draw(st.permutations([b['BBB'] for b in books]))
    return dict(books=books, order=list(order), version=draw(st.sampled_from(['1', '1', '2.0', '2.1'])), name=draw(VALUE), abbreviation=draw(SAFE), extra=draw(st.booleans()),
                default=draw(st.integers(0, 2)), names=[[b['BBB']] + [draw(VALUE) for _ in range(3)] for b in books], iso=draw(st.sampled_from(['eng', 'mbt', 'heb'])),
                agencies=[[k, draw(VALUE)] for k in draw(st.lists(st.sampled_from(['publisher', 'creator', 'publisher', 'etenPartner']), max_size=3))],
                countries=draw(st.lists(st.sampled_from(['PH', 'NZ', 'IL', 'PE']), min_size=1, max_size=3, unique=True)), vrs=draw(versification()), licence=draw(st.booleans()),
                copyright=draw(st.one_of(st.none(), VALUE)))


def book_list(tag, codes):
    return f'<{tag}>' + ''.join(f'<book code="{x}" />' for x in codes) + f'</{tag}>'


def dbl(c, rec):
    """A Digital Bible Library bundle."""
    from BibleOrgSys.Formats.DBLBible import DBLBible
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    rec.interesting(len(c['books']) > 1)
    rec.label('metadata ' + c['version'])
    with TempDir() as d, quiet():
        source, where = usx(d, c)
        codes = [g.USFM_ABBREV[B].upper() for B in c['order']]
        os.makedirs(f'{d}/p')
        v = c['version']
        top = f'{d}/p/release' if v == '2.1' else f'{d}/p'
        os.makedirs(top, exist_ok=True)
        which = 2 if c['default'] == 2 else 1
        os.makedirs(f'{top}/USX_{which}')
        for B, path in where.items(): shutil.copy(path, f'{top}/USX_{which}/{g.USFM_ABBREV[B].upper()}.usx')
        write(f'{top}/styles.xml', '<stylesheet><property name="font-size" unit="pt">12</property><style id="c" publishable="true" versetext="true"><name>c - Chapter</name></style></stylesheet>')
        write(f'{d}/p/license.xml', '<license id="0123456789abcdef"><dateLicense>2014-01-01</dateLicense><publicationRights><allowOffline>true</allowOffline></publicationRights></license>')
        md = f'<identification><name>{escape(c["name"])}</name><abbreviation>{escape(c["abbreviation"])}</abbreviation><scope>NT</scope></identification>'
        md += '<agencies>' + ''.join(f'<{k}>{escape(t)}</{k}>' for k, t in c['agencies']) + '</agencies>'
        md += f'<language><iso>{c["iso"]}</iso></language>'
        if v == '1':
            md += f'<country><iso>{c["countries"][0]}</iso><name>{c["countries"][0]}</name></country>'
            md += '<bookNames>' + ''.join(f'<book code="{g.USFM_ABBREV[B].upper()}"><long>{escape(l)}</long><short>{escape(s)}</short><abbr>{escape(a)}</abbr></book>' for B, a, s, l in c['names']) + '</bookNames>'
            lists = [(2, codes), (1, codes[:1])] if which == 2 else [(1, codes)] + ([(2, codes[:1])] if c['default'] else [])
            md += '<contents>' + ''.join(f'<bookList id="{n}"' + (' default="true"' if n == which else '') + '><name>All</name>' + book_list('books', l) + '</bookList>' for n, l in sorted(lists)) + '</contents>'
            write(f'{d}/p/metadata.xml', '<?xml version="1.0" encoding="utf-8"?><DBLMetadata id="06125adad2d5898a" revision="1" type="text" typeVersion="1.2">' + md + '</DBLMetadata>')
        else:
            pre = 'release/' if v == '2.1' else ''
            md += '<countries>' + ''.join(f'<country><iso>{x}</iso><name>{x}</name></country>' for x in c['countries']) + '</countries>'
            md += '<names>' + ''.join(f'<name id="book-{g.USFM_ABBREV[B].lower()}"><abbr>{escape(a)}</abbr><short>{escape(s)}</short><long>{escape(l)}</long></name>' for B, a, s, l in c['names']) + '</names>'
            pubs = [(which, codes)] + ([(3 - which, codes[:1])] if c['default'] else [])
            md += '<publications>' + ''.join(f'<publication id="p{n}"' + (' default="true"' if n == which else '') + f'><name>P{n}</name>' + book_list('canonicalContent', l) + '<structure>' + ''.join(
                f'<content name="book-{x.lower()}" role="{x}" src="{pre}USX_{n}/{x}.usx" />' for x in l) + '</structure></publication>' for n, l in sorted(pubs)) + '</publications>'
            write(f'{d}/p/metadata.xml', f'<?xml version="1.0" encoding="utf-8"?><DBLMetadata id="06125adad2d5898a" revision="1" version="{v}">' + md + '</DBLMetadata>')
        write(f'{d}/p/versification.vrs', '\n'.join(c['vrs']['lines']) + '\n')
        b = DBLBible(f'{d}/p', 'Test')
        b.load()
        other = USXXMLBible(source, 'Test', encoding='utf-8')
        other.preload() if hasattr(other, 'preload') else None
        other.load()
        equal(list(b.books), c['order'], 'books')
        for B in c['order']: equal(rows(b[B]), rows(other[B]), 'contents of', B)
        m = b.suppliedMetadata['DBL']
        equal((b.name, b.abbreviation), (c['name'], c['abbreviation']), 'name and abbreviation')
        if v == '1': equal(m['bookNames'], {g.USFM_ABBREV[B].upper(): dict(long=l, short=s, abbr=a) for B, a, s, l in c['names']}, 'book names')
        else: equal(m['names'], {'book-' + g.USFM_ABBREV[B].lower(): dict(long=l, short=s, abbr=a) for B, a, s, l in c['names']}, 'book names')
        equal(b.settingsDict.get('language--iso'), c['iso'], 'language')
        equal(m.get('License', {}).get('Id'), '0123456789abcdef', 'licence')
        have = {p: ([list(x) for x in q] if p == 'Omitted' else q) for p, q in m['Versifications']['versification'].items()}
        equal(have, c['vrs']['want'], 'versification')
        for k in {k for k, t in c['agencies']}: equal(m['agencies'].get(k), [t for q, t in c['agencies'] if q == k], 'agency', k)


def usx(d, c):
    """Writes the books as USX files and gives the folder and the path of each."""
    ld.write_usfm(f'{d}/in', c['books'])
    b = ld.load_usfm(f'{d}/in')
    os.makedirs(f'{d}/out')
    b.toUSXXML(f'{d}/out')
    folder = f'{d}/out/USX3Files'
    where = {}
    for B in c['order']:
        code = g.USFM_ABBREV[B].upper()
        f = [x for x in os.listdir(folder) if x.endswith('.usx') and code in x]
        check(len(f) == 1, 'USX file of', B, os.listdir(folder))
        where[B] = f'{folder}/{f[0]}'
    return folder, where


@st.composite
def burritos(draw):
    kind = draw(st.sampled_from(['usfm', 'usx']))
    books = draw(texts(family=FAMILY if kind == 'usfm' else PLAIN))
    lang = draw(st.sampled_from(['en', 'en', 'hi', 'mbt']))
    return dict(books=books, order=list(draw(st.permutations([b['BBB'] for b in books]))), kind=kind, folder=draw(st.sampled_from(['ingredients', 'release/USX_1', 'release/text', ''])),
                lang=lang, name=draw(VALUE), abbreviation=draw(SAFE), others=draw(st.booleans()), scope=draw(st.booleans()), more=draw(st.booleans()), sub=draw(st.booleans()))


def burrito(c, rec):
    """A Scripture Burrito."""
    from BibleOrgSys.Formats.ScriptureBurritoBible import ScriptureBurritoBible
    from BibleOrgSys.Formats.USXXMLBible import USXXMLBible
    rec.interesting(len(c['books']) > 1)
    rec.label(c['kind'])
    with TempDir() as d, quiet():
        if c['kind'] == 'usx': source, where = usx(d, c)
        else:
            source = f'{d}/in'
            ld.write_usfm(source, c['books'])
            where = {B: f'{source}/{f}' for B in c['order'] for f in os.listdir(source) if g.USFM_ABBREV[B].upper() in f}
        sub = c['folder'] + '/' if c['folder'] else ''
        os.makedirs(f'{d}/p/{sub}', exist_ok=True)
        md = dict(format='scripture burrito', meta=dict(version='1.0.0', category='source', defaultLocale=c['lang'], dateCreated='2020-01-01T00:00:00Z', normalization='NFC'),
                  idAuthorities=dict(dbl=dict(id='https://thedigitalbiblelibrary.org', name={'en': 'DBL'})), identification=dict(name={c['lang']: c['name']}, abbreviation={c['lang']: c['abbreviation']}),
                  confidential=False, languages=[dict(tag=c['lang'], name={'en': 'Some language'})], copyright=dict(shortStatements=[dict(statement='(c)', lang='en')]), localizedNames={}, ingredients={})
        if c['more'] and c['lang'] != 'en':
            md['identification']['name']['es'] = 'Otro nombre'
        for B in c['order']:
            code = g.USFM_ABBREV[B].upper()
            md['localizedNames']['book-' + code.lower()] = dict(short={c['lang']: B}, long={c['lang']: B})
            name = f'{sub}{code}.{c["kind"]}'
            shutil.copy(where[B], f'{d}/p/{name}')
            md['ingredients'][name] = dict(checksum=dict(md5='0' * 32), mimeType='text/x-' + c['kind'], size=os.path.getsize(where[B]), scope={code: ['1'] if c['scope'] else []})
        if c['others']:
            md['ingredients'][f'{sub}versification.json'] = dict(checksum=dict(md5='0' * 32), mimeType='application/json', size=2)
            write(f'{d}/p/{sub}versification.json', '{}')
        write(f'{d}/p/metadata.json', json.dumps(md))
        b = ScriptureBurritoBible(f'{d}/p', 'Test')
        b.load()
        if c['kind'] == 'usx':
            other = USXXMLBible(source, 'Test', encoding='utf-8')
            if hasattr(other, 'preload'): other.preload()
            other.load()
        else: other = ld.load_usfm(source)
        equal(sorted(b.books), sorted(c['order']), 'books')
        for B in c['order']: equal(rows(b[B]), rows(other[B]), 'contents of', B)
        equal((b.name, b.abbreviation), (c['name'], c['abbreviation']), 'name and abbreviation')


SUBS = [
    Sub('Paratext 8', projects, ptx8, quick=150, rule='more than one book, settings and another metadata file'),
    Sub('Paratext 7', projects, ptx7, quick=150, rule='more than one book, settings and another metadata file'),
    Sub('DBL', dbls, dbl, quick=120, rule='more than one book'),
    Sub('Scripture Burrito', burritos, burrito, quick=120, rule='more than one book'),
]
