"""C09: saving and restoring a Bible as a pickle gives back the same Bible."""
import os
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C09'


def setup():
    global G, P
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Formats import PickledBible as P


EXPORTS = ['toUSFM2', 'toUSFM3', 'toESFM', 'toPseudoUSFM', 'toText', 'toVPL', 'toMarkdown']


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    B = draw(st.lists(st.sampled_from(g.BOOKS), min_size=n, max_size=n, unique=True))
    books = [draw(g.book(BBB=b, max_chapters=2, max_verses=4, vp=True)) for b in B]
    how = draw(st.sampled_from(['object', 'folder', 'zip', 'zip only', 'folder', 'zip only']))
    names = {k: draw(st.sampled_from(['ABC', 'My Bible', 'Ærø ḿ', 'x/y', 'a b'])) for k in ('abbreviation', 'name', 'description', 'version', 'shortName', 'givenName') if draw(st.integers(0, 2)) == 0}
    meta = {k: draw(st.sampled_from(['Public domain', 'See https://x.org/?a=1&b=2', ''])) for k in ('aboutText', 'sourceURL', 'licenceText') if draw(st.booleans())}
    before = draw(st.lists(st.sampled_from(['discover', 'sections', 'versification', 'search']), max_size=2, unique=True))
    loading = draw(st.sampled_from(['all', 'all', 'check', 'one by one', 'some']))
    order = draw(st.permutations(list(range(n))))
    return dict(books=books, how=how, names=names, meta=meta, before=before, loading=loading, order=list(order), below=draw(st.sampled_from(['', 'below', 'My Bible'])), twice=draw(st.integers(0, 3)) == 0, export=draw(st.sampled_from(EXPORTS)))


def entry(e):
    return [e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), [[x.getType(), x.getIndex(), x.getText(), x.getCleanText()] for x in e.getExtras() or []], e.getOriginalText()]


def snapshot(bible, BBB, want_sections):
    b = bible[BBB]
    d = {'entries': [entry(e) for e in b]}
    d['verses'] = {}
    for C, V in list(b._CVIndex):
        lines, context = bible.getContextVerseData((BBB, C, V.split('-')[0]))
        d['verses'][f'{C}:{V}'] = [[entry(e) for e in lines], list(context)]
    d['list'] = [entry(e) for e in bible.getVerseDataList((BBB, '1', '1')) or []]
    d['index'] = [list(k) for k in b._CVIndex]
    d['chapters'] = [bible.getNumChapters(BBB), bible.getNumVerses(BBB, '1')]
    d['names'] = [bible.getAssumedBookName(BBB), bible.getLongTOCName(BBB), bible.getShortTOCName(BBB), bible.getBooknameAbbreviation(BBB)]
    d['versification'] = b.getVersification()
    if want_sections:
        b._makeBookSectionIndex()
        d['sections'] = [[list(k), str(v)] for k, v in b._SectionIndex.items()]
    return d


def files(folder):
    out = {}
    for dp, _, fs in os.walk(folder):
        for f in fs:
            if f.endswith(('.zip', '.bz2', '.gzip')): continue  # the same files again, with times
            with open(os.path.join(dp, f), 'rb') as h: out[os.path.relpath(os.path.join(dp, f), folder)] = h.read().decode('utf-8', 'replace')
    return out


def export(bible, name):
    with TempDir() as d:
        getattr(bible, name)(d)
        return files(d)


def run(c, rec):
    n = len(c['books'])
    rec.interesting(n > 1 or len(c['books'][0]['lines']) > 8)
    rec.label(c['how'], c['loading'])
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', c['books'])
        bible = ld.load_usfm(d + '/src')
        for k, v in c['names'].items(): setattr(bible, k, v)
        for w in c['before']:
            if w == 'discover': bible.discover()
            elif w == 'sections': bible.discover(); bible.makeSectionIndex()
            elif w == 'versification': bible.getVersification()
            else: bible.findText({'findText': 'a'})
        B = bible.getBookList()
        source = bible
        for turn in range(2 if c['twice'] else 1):
            out = f'{d}/out{turn}'; os.makedirs(out)
            if c['how'] == 'object':
                check(source.toPickleObject(out), 'toPickleObject succeeds')
                fs = sorted(os.listdir(out))
                name = [f for f in fs if f.endswith('.pickle')]
                equal(len(name), 1, 'pickle file')
                again = G.unpickleObject(name[0], out)
                equal(type(again), type(source), 'type')
                for k in ('settingsDict', 'suppliedMetadata', 'objectNameString', 'objectTypeString', 'loadedAllBooks', 'availableBBBs', 'sourceFolder'): equal(getattr(again, k, None), getattr(source, k, None), k)
                if 'discover' in c['before'] or 'sections' in c['before']: equal(again.discoveryResults, source.discoveryResults, 'discovery results')
            else:
                check(source.toPickledBible(out, dict(c['meta']), 1, c['how'] == 'zip only'), 'toPickledBible succeeds')
                fs = sorted(os.listdir(out))
                zips = [f for f in fs if f.endswith(P.ZIPPED_PICKLE_FILENAME_END)]
                equal(len(zips), 1, 'zipped pickled Bibles', fs)
                if c['how'] == 'zip only': equal(len(fs), 1, 'only the zipped pickled Bible remains', fs)
                else: equal(sorted(set(fs) - set(zips)), sorted([b + '.pickle' for b in B] + [P.INFO_FILENAME, P.VERSION_FILENAME]), 'pickle files')
                where = out if c['how'] == 'folder' else os.path.join(out, zips[0])
                if c['how'] != 'folder':
                    details = P.getZippedPickledBibleDetails(where, extended=True)
                    equal(details['bookList'], B, 'book list in the details')
                    for k, v in list(c['meta'].items()) + list(c['names'].items()): equal(details[k], v, k)
                if c['loading'] == 'check':
                    if c['how'] == 'folder' and c['below']:  # the folder is found below the given one
                        where = f'{d}/above{turn}'; os.makedirs(where)
                        os.rename(out, where + '/' + c['below'])
                        equal(P.PickledBibleFileCheck(where), 1, 'number of pickled Bibles found below')
                    again = P.PickledBibleFileCheck(where, autoLoad=True, autoLoadBooks=True)
                    check(isinstance(again, P.PickledBible), 'the pickled Bible is recognised', again)
                else:
                    again = P.PickledBible(where)
                    if c['loading'] == 'all': again.loadBooks()
                    else:
                        again.preload()
                        for i in c['order'][:n if c['loading'] == 'one by one' else max(1, n - 1)]: again.loadBook(B[i])
                equal(again.pickleVersionData['bookList'], B, 'book list in the version data')
                for k, v in c['meta'].items(): equal(again.pickleVersionData[k], v, k)
            loaded = [b for b in B if b in again.books]
            if c['how'] == 'object' or c['loading'] in ('all', 'check'): equal(again.getBookList(), B, 'books')
            else: equal(len(loaded), n if c['loading'] == 'one by one' else max(1, n - 1), 'number of books loaded')
            for k in ('abbreviation', 'name', 'description', 'version', 'shortName', 'givenName'): equal(getattr(again, k, None), getattr(source, k, None), k)
            equal(again.getAName(), source.getAName(), 'name')
            sections = 'sections' in c['before'] and len(loaded) == n
            if sections and 'discoveryResults' not in again.__dict__:
                again.discover()
                if again.getBookList() == B: equal(again.discoveryResults, bible.discoveryResults, 'discovery results')
            for b in loaded:
                equal(snapshot(again, b, sections), snapshot(bible, b, sections), 'book', b)
                equal(again.guessXRefBBB(g.NAMES[b]), bible.guessXRefBBB(g.NAMES[b]) if len(loaded) == n else again.guessXRefBBB(g.NAMES[b]), 'book guessed from', g.NAMES[b])
            if len(loaded) == n:
                find = lambda x: [[str(r[0])] + list(r[1:]) for r in sorted(x.findText({'findText': 'o', 'caselessFlag': True})[2], key=lambda r: B.index(r[0].getBBB()))]
                equal(find(again), find(bible), 'search results')
                if again.getBookList() == B:
                    x = export(again, c['export'])
                    equal(x, export(bible, c['export']), 'exported files of', c['export'])
                    check(len(x) >= 1, 'nothing exported')
            source = again
            if len(loaded) < n or again.getBookList() != B: break


SUBS = [Sub('pickles', case, run, 1200, rule='several books or one of more than eight lines', shards=6)]



def known_levels():
    """A packaged pickle of data level 2 or 3 is saved without complaint and can be loaded again."""
    bk = dict(BBB='MAT', lines=[g.L('id', 'MAT'), g.L('h', 'Matthew'), g.L('c', '', '1'), g.L('p', ''), g.L('v', 'Text', '1')])
    with TempDir() as d, quiet():
        ld.write_usfm(d + '/src', [bk])
        bible = ld.load_usfm(d + '/src')
        for level in (2, 3):
            out = f'{d}/{level}'; os.makedirs(out)
            check(bible.toPickledBible(out, {}, level), 'toPickledBible succeeds', level)
            again = P.PickledBible(out)
            again.loadBooks()
            equal(again.getBookList(), bible.getBookList(), 'books at data level', level)


PROBES = [Probe('packaged-data-levels', 'pickled Bibles saved with data level 2 or 3 are saved but cannot be loaded', known_levels)]
