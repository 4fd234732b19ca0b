"""C24: Bible book files, and Bible formats in folders, are recognised for what they are."""
import os, re
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C24'


def setup():
    global G, TRIPLES, USX_TRIPLES, ORDER, CODES
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    c = G.loadedBibleBooksCodes
    TRIPLES = {B: (abbreviation, digits) for abbreviation, digits, B in c.getAllUSFMBooksCodeNumberTriples()}
    USX_TRIPLES = {B: (abbreviation, digits) for abbreviation, digits, B in c.getAllUSXBooksCodeNumberTriples()}
    ORDER = {B: i for i, B in enumerate(c.getSequenceList(list(TRIPLES)))}
    CODES = [a.upper() for a, _ in TRIPLES.values()]


def code_free(name):
    """The name has no book code in it (which could make it look like the file of another book)."""
    return not any(x in name.upper() for x in CODES)


LANGUAGES = ['xyz', 'eng', 'XYZ', 'WEB', 'BibleWriter', 'tpi', 'Kjv', 'q', 'zz9', 'fr_TOB2', 'mbt-q']
EXTENSIONS = ['usfm', 'sfm', 'SFM', 'USFM', 'txt', 'TXT', 'ptx', 'ESFM']
# name: (dd number, abbreviation, language)
TEMPLATES = {
    'ddBBBlll': '{d}{B}{l}', 'ddbbblll': '{d}{b}{l}', 'lllddBBB': '{l3}{d}{B}', 'lllddbbb': '{l3}{d}{b}', 'dd-BBB': '{d}-{B}', 'dd_BBB': '{d}_{B}', 'BBBdd': '{B}{d}', 'BBB': '{B}', 'bbb': '{b}',
    'BBB-lll': '{B}-{l}', 'lllBBB': '{l}{B}', 'dd-BBB-lll': '{d}-{B}-{l}', 'lll_BBB': '{l}_{B}', 'number': 'part{i}', 'none': '{r}'}
NOISE = ['README.txt', 'notes.doc', 'cover.jpg', 'project.ssf', 'usfm.sty', 'styles.css', 'custom.vrs', 'x.zip', 'autocorrect.txt', 'log.log', 'plan~', 'HyphenatedWords.txt', 'index.html', 'q.bak', 'w.odt']


@st.composite
def folder(draw):
    abbr = {B: t for B, t in TRIPLES.items()}
    books = draw(st.lists(st.sampled_from(sorted(set(abbr))), min_size=1, max_size=8, unique=True))
    books = [b for b in books if b in abbr]
    template, l, ext = draw(st.sampled_from(sorted(TEMPLATES))), draw(st.sampled_from(LANGUAGES)), draw(st.sampled_from(EXTENSIONS))
    files = []
    for i, B in enumerate(books):
        a, d = abbr[B]
        name = TEMPLATES[template].format(d=d, B=a.upper(), b=a.lower(), l=l, l3=(l + 'qqq')[:3], i=i + 1, r=f'q{i}w' * (i + 1))
        files.append([B, f'{name}.{ext}', draw(st.sampled_from(['{}', '{} - Test Bible', '{} Some text', '{}  v2'])).format(draw(st.sampled_from([a.upper(), a.upper(), a, a.lower()])))])
    return dict(files=files, noise=draw(st.lists(st.sampled_from(NOISE), max_size=4, unique=True)), folders=draw(st.lists(st.sampled_from(['Backups', 'shared', 'figures']), max_size=2, unique=True)),
                bom=draw(st.integers(0, 4)) == 0, crlf=draw(st.booleans()), template=template, plain=draw(st.integers(0, 3)) == 0)


def write(path, text, bom=False, crlf=False):
    with open(path, 'wb') as f: f.write((b'\xef\xbb\xbf' if bom else b'') + text.replace('\n', '\r\n' if crlf else '\n').encode())


def usfm_names(c, rec):
    """Exactly the book files are found, each with its own book, in book order, and loading the folder loads exactly these."""
    from BibleOrgSys.InputOutput.USFMFilenames import USFMFilenames
    from BibleOrgSys.Formats.USFMBible import USFMBible
    rec.interesting(len(c['files']) > 1 and c['template'] not in ('number', 'none'))
    rec.label(c['template'])
    with TempDir() as d, quiet():
        for B, n, i in c['files']: write(f'{d}/{n}', f'\\id {i}\n\\h Name\n\\c 1\n\\p\n\\v 1 Word of {B}.\n', c['bom'], c['crlf'])
        for n in c['noise']: write(f'{d}/{n}', 'Some other file\nwith text\n')
        if c['plain']: write(f'{d}/zz1q.txt', 'Not a book\n')
        for n in c['folders']: os.mkdir(f'{d}/{n}'); write(f'{d}/{n}/{c["files"][0][1]}', '\\id GEN\n')
        want = sorted(((B, n) for B, n, _ in c['files']), key=lambda x: ORDER[x[0]])
        u = USFMFilenames(d)
        got = [tuple(x) for x in u.getMaximumPossibleFilenameTuples(strictCheck=True)]
        equal(got, want, 'book files found (strict), template', u.getFilenameTemplate())
        equal(len(u), len(want), 'number of files')
        equal(sorted(u.getUnusedFilenames()), sorted(set(os.listdir(d)) - {n for _, n in want}), 'unused files')
        equal([tuple(x) for x in u.getMaximumPossibleFilenameTuples()], want, 'book files found')
        inside = [tuple(x) for x in u.getPossibleFilenameTuplesInt()]
        equal(inside, want, 'book files by their id lines')
        for strict in (True, False):
            some = [tuple(x) for x in u.getConfirmedFilenameTuples(strictCheck=strict)]
            check(set(some) <= set(want), 'confirmed', some, 'of', want)
        b = USFMBible(d, 'xyz')
        b.loadBooks()
        equal(sorted(b.getBookList()), sorted(B for B, _ in want), 'books loaded')
        for B in b.getBookList():
            text = [e.getCleanText() for e in b.books[B] if e.getMarker() == 'v~']
            equal(text, [f'Word of {B}.'], 'text of', B)


@st.composite
def odd_folder(draw):
    kind = draw(st.sampled_from(['Bibledit', 'dash', 'wrong ids']))
    if kind == 'wrong ids':
        books = draw(st.lists(st.sampled_from(g.BOOKS), min_size=2, max_size=6, unique=True))
        ids = list(books)
        for _ in range(draw(st.integers(1, 2))):
            i, j = draw(st.integers(0, len(ids) - 1)), draw(st.integers(0, len(ids) - 1))
            ids[i], ids[j] = ids[j], ids[i]
        return dict(kind=kind, books=books, ids=ids, template=draw(st.sampled_from(['ddBBBlll', 'lllddBBB', 'dd-BBB'])))
    return dict(kind=kind, numbers=draw(st.lists(st.integers(1, 66), min_size=1, max_size=10, unique=True)), noise=draw(st.lists(st.sampled_from(NOISE), max_size=3, unique=True)))


def odd_names(c, rec):
    """Bibledit and 'dd-Name' file names; files whose id line names another book."""
    import BibleOrgSys.InputOutput.USFMFilenames as U
    rec.label(c['kind'])
    with TempDir() as d, quiet():
        if c['kind'] == 'wrong ids':
            rec.interesting(c['ids'] != c['books'])
            want, named = [], []
            for B, I in zip(c['books'], c['ids']):
                a, n = TRIPLES[B]
                name = TEMPLATES[c['template']].format(d=n, B=a, l='wxyz', l3='xyz') + '.usfm'
                write(f'{d}/{name}', f'\\id {TRIPLES[I][0]}\n\\c 1\n')
                named.append((B, name))
                if B == I: want.append((B, name))
            u = U.USFMFilenames(d)
            equal(sorted(tuple(x) for x in u.getConfirmedFilenameTuples()), sorted(named), 'files confirmed by name')
            equal(sorted(tuple(x) for x in u.getConfirmedFilenameTuples(strictCheck=True)), sorted(want), 'files confirmed by name and id line')
            equal(sorted(tuple(x) for x in u.getPossibleFilenameTuplesInt()), sorted((I, n) for I, (_, n) in zip(c['ids'], named)), 'files by id line')
            return
        rec.interesting(len(c['numbers']) > 1)
        names = {int(re.match(r'\d+', n).group()): n for n in (U.BIBLEDIT_FILENAMES if c['kind'] == 'Bibledit' else U.ALTERNATE_FILENAMES)}
        want = []
        for n in sorted(c['numbers']):
            B = G.loadedBibleBooksCodes.getBBBFromReferenceNumber(n)
            want.append((B, names[n] + '.usfm'))
            write(f'{d}/{names[n]}.usfm', f'\\id {TRIPLES[B][0]}\n\\c 1\n')
        for n in c['noise']: write(f'{d}/{n}', 'Some other file\nwith text\n')
        u = U.USFMFilenames(d)
        equal([tuple(x) for x in u.getConfirmedFilenameTuples(strictCheck=True)], want, 'confirmed files, template', u.getFilenameTemplate())
        equal([tuple(x) for x in u.getMaximumPossibleFilenameTuples(strictCheck=True)], want, 'files found')


USX_TEMPLATES = {'dddBBB': '{d}{B}', 'dddBbb': '{d}{a}', 'BBB': '{B}', 'bbb': '{b}', 'dd-BBB': '{p}-{B}'}  # (Bbb: as published, e.g., Gen)


@st.composite
def usx_folder(draw):
    t = draw(st.sampled_from(sorted(USX_TEMPLATES)))
    can = [B for B in g.BOOKS if B in USX_TRIPLES and USX_TRIPLES[B][1].isdigit() and (len(t) != 6 or '-' not in t or int(USX_TRIPLES[B][1]) < 67)]
    return dict(template=t, books=draw(st.lists(st.sampled_from(can), min_size=1, max_size=8, unique=True)), ext=draw(st.sampled_from(['usx', 'usx', 'USX'])), bom=draw(st.booleans()),
                noise=draw(st.lists(st.sampled_from(NOISE), max_size=4, unique=True)), bad=draw(st.lists(st.sampled_from(g.BOOKS), max_size=2, unique=True)), quotes=draw(st.sampled_from(['"', "'"])))


def usx_names(c, rec):
    """USX book files are found with their right books, files which aren't USX are only found when the contents aren't looked at."""
    from BibleOrgSys.InputOutput.USXFilenames import USXFilenames
    rec.interesting(len(c['books']) > 1)
    rec.label(c['template'])
    q = c['quotes']

    def name(B):
        a, n = USX_TRIPLES[B]
        p = int(n) if n.isdigit() else 0
        return USX_TEMPLATES[c['template']].format(d=n, a=a, B=a.upper(), b=a.lower(), p=f'{p + (p > 39):02}') + '.' + c['ext']
    with TempDir() as d, quiet():
        want = []
        for B in c['books']:
            write(f'{d}/{name(B)}', f'<?xml version={q}1.0{q} encoding={q}utf-8{q}?>\n<usx version={q}3.0{q}>\n  <book code={q}{USX_TRIPLES[B][0].upper()}{q} style={q}id{q}>x</book>\n</usx>\n', c['bom'])
            want.append((B, name(B)))
        bad = [B for B in c['bad'] if B not in c['books'] and B in USX_TRIPLES and USX_TRIPLES[B][1].isdigit() and (c['template'] != 'dd-BBB' or int(USX_TRIPLES[B][1]) < 67)]
        for B in bad: write(f'{d}/{name(B)}', f'Not an\nXML\nfile\n')
        for n in c['noise']: write(f'{d}/{n}', 'Some other file\nwith text\n')
        want.sort(key=lambda x: ORDER[x[0]])
        u = USXFilenames(d)
        equal([tuple(x) for x in u.getConfirmedFilenameTuples(strictCheck=True)], want, 'USX files confirmed (strict), template', u.getFilenameTemplate())
        equal([tuple(x) for x in u.getConfirmedFilenameTuples()], sorted(want + [(B, name(B)) for B in bad], key=lambda x: ORDER[x[0]]), 'USX files confirmed')


# exporter: (what the search must say, name of the class); 'x|y' — written as file x, renamed to y
EXPORTS = {
    'toUSFM2': ('USFM2 Bible', 'USFM2Bible'), 'toUSFM3': ('USFM Bible', 'USFMBible'), 'toESFM': ('ESFM Bible', 'ESFMBible'), 'toUSXXML': ('USX XML Bible', 'USXXMLBible'), 'toUSX2XML': ('USX XML Bible', 'USXXMLBible'),
    'toUSFXXML': ('USFX XML Bible', 'USFXXMLBible'), 'toOSISXML': ('OSIS XML Bible', 'OSISXMLBible'), 'toOpenSongXML': ('OpenSong XML Bible', 'OpenSongXMLBible'), 'toZefaniaXML': ('Zefania XML Bible', 'ZefaniaXMLBible'),
    'toHaggaiXML': ('Haggai XML Bible', 'HaggaiXMLBible'), 'toSwordSearcher': ('Forge Bible', 'ForgeForSwordSearcherBible'), 'toDrupalBible': ('Drupal Bible', 'DrupalBible'),
    'totheWord': ('theWord Bible', 'theWordBible'), 'toMySword': ('MySword Bible', 'MySwordBible'), 'toESword': ('e-Sword Bible', 'ESwordBible'), 'toMyBible': ('MyBible Bible', 'MyBibleBible'),
    'toEasyWorshipBible': ('EasyWorship Bible', 'EasyWorshipBible'), 'toPickledBible': ('pickled Bible', 'PickledBible')}
KEEPS = ['toUSFM2', 'toUSFM3', 'toESFM', 'toUSXXML', 'toUSX2XML', 'toUSFXXML', 'toOSISXML', 'toPickledBible']  # the others may leave out deuterocanonical books
NOTBIBLES = ['toHTML5', 'toMarkdown', 'toTeX', 'toBibleDoor', 'makeLists', 'toText']
# Hand-written files of formats which are only imported: name, text, what the search must say, class
SAMPLES = {
    'VPL': ('{n}.txt', '{A} 1:1 In the beginning\n{A} 1:2 and then more\n', 'VPL Bible', 'VPLBible'),
    'VPL BOM': ('{n}.txt', '\ufeff{A} 1:1 In the beginning\n{A} 1:2 and then more\n', 'VPL Bible', 'VPLBible'),
    'VPL numbers': ('{n}.txt', '{N:02}001001\tIn the beginning\n{N:02}001002\tand then more\n', 'VPL Bible', 'VPLBible'),
    'CSV': ('{n}.csv', '"Book","Chapter","Verse","Scripture"\n"{N}","1","1","In the beginning"\n"{N}","1","2","and then more"\n', 'CSV Bible', 'CSVBible'),
    'CSV txt': ('{n}.txt', 'Book|Chapter|Verse|Scripture\n{N}|1|1|In the beginning\n{N}|1|2|and then more\n', 'CSV Bible', 'CSVBible'),
    'Unbound': ('{n}_utf8.txt', '#THE UNBOUND BIBLE (www.unboundbible.org)\n#name\tTest\n#filetype\tUnmapped-BCVS\n#copyright\tnone\n#abbreviation\n#language\teng\n#note\n#columns\torig_book_index\torig_chapter\torig_verse\torig_subverse\torder_by\ttext\n{N:02}{T}\t1\t1\t\t10\tIn the beginning\n{N:02}{T}\t1\t2\t\t20\tand then more\n', 'Unbound Bible', 'UnboundBible'),
    'YET': ('{n}.yet', 'info\tshortName\tTST\ninfo\tlongName\tTest\nbook_name\t{N}\tName\nverse\t{N}\t1\t1\tIn the beginning\nverse\t{N}\t1\t2\tand then more\n', 'YET Bible', 'YETBible'),
    'VerseView': ('{n}.xml', '<?xml version="1.0"?>\n<bible>\n<fname>xyz.xml</fname>\n<revision>1</revision>\n<title>Test</title>\n<font>Arial</font>\n<copyright>c</copyright>\n<sizefactor>1</sizefactor>\n<b n="{E}">\n<c n="1">\n<v n="1">In the beginning</v>\n<v n="2">and then more</v>\n</c>\n</b>\n</bible>\n', 'VerseView XML Bible', 'VerseViewXMLBible'),
    'OSIS': ('{n}.xml', '<?xml version="1.0" encoding="UTF-8"?>\n<osis xmlns="http://www.bibletechnologies.net/2003/OSIS/namespace" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">\n<osisText osisRefWork="Bible" xml:lang="en" osisIDWork="T"><header><work osisWork="T"><title>T</title></work></header><div type="book" osisID="{O}"><chapter osisID="{O}.1"><verse osisID="{O}.1.1">In the beginning</verse><verse osisID="{O}.1.2">and then more</verse></chapter></div></osisText></osis>\n', 'OSIS XML Bible', 'OSISXMLBible'),
}


@st.composite
def plain_book(draw, B):
    out = [g.L('id', g.USFM_ABBREV[B])]
    if draw(st.booleans()): out.append(g.L('h', g.NAMES[B]))
    out.append(g.L('mt1', g.NAMES[B]))
    for C in range(1, draw(st.integers(2, 3))):
        out += [g.L('c', str(C))] + [g.L('s1', draw(g.plain))] * draw(st.integers(0, 1)) + [g.L('p')]
        for V in range(1, draw(st.integers(2, 5))): out.append(g.L('v', draw(g.plain), str(V)))
    return dict(BBB=B, lines=out)


@st.composite
def bible_folder(draw):
    kind = draw(st.sampled_from(['export'] * 4 + ['sample'] * 2 + ['other']))
    c = dict(kind=kind, inside=draw(st.integers(0, 2)) == 0, noise=draw(st.lists(st.sampled_from([n for n in NOISE if n not in ('plan~', 'index.html', 'project.ssf')]), max_size=4, unique=True)),
             folders=draw(st.lists(st.sampled_from(['figures', 'Fonts', 'old']), max_size=2, unique=True)))
    if kind == 'sample': c.update(what=draw(st.sampled_from(sorted(SAMPLES))), BBB=draw(st.sampled_from(['GEN', 'EXO', 'RUT', 'PSA', 'MAT', 'ROM', 'PHM', 'REV', 'JN1'])), name=draw(st.sampled_from(['xyz', 'web', 'Test_Bible'])))
    else:
        what = draw(st.sampled_from(sorted(EXPORTS) if kind == 'export' else NOTBIBLES + ['noise', 'noise']))
        n = 1 if what == 'toOSISXML' else 3
        c.update(what=what, books=[draw(plain_book(B)) for B in draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=n, unique=True))])
        if what == 'noise': c['texts'] = draw(st.lists(st.tuples(st.sampled_from(['a.txt', 'b.csv', 'c.xml', 'd_utf8.txt', 'e.yet', 'f.bc', 'g.SFM', 'h', 'k.usx', 'l.osis', 'm.ini']),
                                                                   st.sampled_from(['', '\n', '\n\n\n', '\ufeff\n', '\ufeff', 'Hello\n', 'A line\nand another\n\n', '<?xml version="1.0"?>\n', '<?xml version="1.0"?>\n<a>\n</a>\n', '<?xml version="1.0" encoding="utf-8"?>\n<!-- x -->\n<note>\n\n\n\n</note>\n', '<html>\n<p>GEN 1:1 x</p>\n</html>\n', '\\documentclass\n', '# x\n', ';\n', '123\n', '1 2 3\n4 5 6\n', 'a,b,c\n1,2,3\n'])).map(list), max_size=5, unique_by=lambda x: x[0]))
    return c


def formats(c, rec):
    """The search says which one Bible format a folder holds, autoload gives that Bible; other files aren't Bibles."""
    import BibleOrgSys.UnknownBible as U
    with TempDir() as top, quiet():
        d = f'{top}/in/Stuff' if c['inside'] else f'{top}/in'
        if c['inside'] and c['what'] in ('toUSXXML', 'toUSX2XML'): d = f'{top}/in'  # (these are already in a subfolder)
        os.makedirs(d)
        books, want, cls = None, 'None found', None
        rec.label(c['what'])
        rec.interesting(bool(c['inside'] or c['noise'] or c['folders']))
        if c['kind'] == 'sample':
            name, text, want, cls = SAMPLES[c['what']]
            B = c['BBB'] if c['what'] != 'VerseView' else 'GEN'  # (these have all books in order)
            t = G.loadedBibleBooksCodes
            values = dict(T='N' if t.isNewTestament_NR(B) else 'O', n=c['name'], A=TRIPLES[B][0].title(), N=t.getReferenceNumber(B), O=t.getOSISAbbreviation(B), E=t.getEnglishName_NR(B))
            write(f'{d}/{name.format(**values)}', text.format(**values))
            books = [B]
        elif c['what'] == 'noise':
            for n, text in c['texts']: write(f'{d}/{n}', text)
        else:
            os.mkdir(f'{top}/src')
            ld.write_usfm(f'{top}/src', c['books'])
            b = ld.load_usfm(f'{top}/src')
            if c['what'] in EXPORTS: want, cls = EXPORTS[c['what']]
            getattr(b, c['what'])(d)
            books = [B for B in b.getBookList() if c['what'] in KEEPS or B != 'TOB']
            if not books: raise Discard()
            for n in os.listdir(d):
                if n == 'Bible.txt' and c['what'] == 'toDrupalBible': os.rename(f'{d}/{n}', f'{d}/xyz.bc')
                if os.path.isfile(f'{d}/{n}') and (n.endswith('.zip') or n.endswith('.conf') or n.endswith('.gz')): os.remove(f'{d}/{n}')
            if c['what'] in NOTBIBLES and c['inside']: d = top + '/in'
        for n in c['noise']:
            if not os.path.exists(f'{d}/{n}'): write(f'{d}/{n}', 'Some other file\nwith text\n')
        for n in c['folders']: os.makedirs(f'{d}/{n}', exist_ok=True)
        before = sorted((p, sorted(fs)) for p, _, fs in os.walk(top))
        where = f'{top}/in'
        equal(U.UnknownBible(where).search(), want, 'Bible found in', before)
        got = U.UnknownBible(where).search(autoLoadAlways=True, autoLoadBooks=True)
        if cls is None: equal(got, want, 'autoload')
        else:
            equal(type(got).__name__, cls, 'class of the Bible loaded')
            if cls != 'EasyWorshipBible': equal(sorted(B for B in got.getBookList() if B in books or B != 'TOB'), sorted(books), 'books loaded from', c['what'])  # (these always have all books)
        equal(sorted((p, sorted(fs)) for p, _, fs in os.walk(top)), before, 'files after the search')


SUBS = [
    Sub('formats in folders', bible_folder, formats, quick=500, rule='with other files, folders, or one level down', shards=6),
    Sub('USFM file names', folder, usfm_names, quick=600, rule='several books with a naming template', shards=2),
    Sub('other USFM file names', odd_folder, odd_names, quick=300, rule='several books', shards=2),
    Sub('USX file names', usx_folder, usx_names, quick=300, rule='several books', shards=2),
]
