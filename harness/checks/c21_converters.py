"""C21: the reference-data converters turn XML tables into the same data everywhere.

Generated tables of every kind are written as XML (with any layout, comments, special characters), loaded with the
converter, and the Python data compared with what was written; the pickle, JSON and Python exports (where the
repository has one) must hold the same data.  Then one fault is put into a table: in strict mode it must be
refused or reported, while the fault-free table is not.  The shipped tables are read with ElementTree and compared as well.
"""
import os, json, pickle, importlib, logging, types, glob
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from core import *
import refdata

PROPERTY = 'C21'
R = 'BibleOrgSys.Reference.Converters.'


def setup():
    global G, CODES, CLS, SVK
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    CODES = sorted(G.loadedBibleBooksCodes.getAllReferenceAbbreviations())
    CLS = {}
    for n in KINDS:
        f = getattr(importlib.import_module(R + n + 'Converter'), n + 'Converter')
        CLS[n] = type(f())           # the class behind the singleton function
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
    SVK = SimpleVerseKey


# ------------------------------------------------------------------ writing XML

def E(tag, text=None, *children, **attributes):
    e = ET.Element(tag, {k: v for k, v in attributes.items() if v is not None})
    if text is not None: e.text = text
    e.extend(children)
    return e


HEADER = ('version', '0.90'), ('date', '2020-02-02'), ('title', 'A table & its title')


def tree(tag, rows, header=True):
    t = E(tag)
    if header: t.append(E('header', None, E('work', None, *[E(k, v) for k, v in HEADER])))
    t.extend(rows)
    return t


def write(path, t, layout):
    if layout != 'flat': ET.indent(t, {'tabs': '\t', 'spaces': '    ', 'comments': '  '}[layout])
    s = ET.tostring(t, encoding='unicode')
    if layout == 'comments': s = s.replace('<header>', '<!-- a comment with <tags> & more -->\n<header>', 1)
    with open(path, 'w', encoding='utf-8') as f: f.write('<?xml version="1.0" encoding="UTF-8"?>\n' + s)


LAYOUT = st.sampled_from(['flat', 'tabs', 'spaces', 'comments'])
TEXT = st.text(st.sampled_from('abcdeXYZéñäשж漢"\'&<>,.;: 12-'), min_size=1, max_size=12).map(str.strip).filter(bool)
SYMBOL = st.text(st.sampled_from('.,;:!?-–—“”‘’"\'&<>()[] *abcdef¿¡'), max_size=3)
NAME = st.sampled_from(['Test', 'KJV', 'Some_System', 'x1', 'English_brief', 'Änd', 'eng', 'fra_modern'])


def bookset(draw, n=8, unknown=False):
    return draw(st.lists(st.sampled_from(CODES), min_size=1, max_size=n, unique=True))


# ------------------------------------------------------------------ the kinds of tables
# Each kind: case strategy (a JSON list/dict), rows(system) → elements, model(case) → the expected Python data, faults(rows) → changed rows

class Orders:
    folder, prefix, root = True, 'BibleBookOrder_', 'BibleBookOrderSystem'

    @staticmethod
    def case(draw): return {n: bookset(draw, 10) for n in draw(st.lists(NAME, min_size=1, max_size=3, unique=True))}

    @staticmethod
    def rows(books): return [E('book', b, id=str(i)) for i, b in enumerate(books, 1)]

    @staticmethod
    def model(c): return {n: ({b: i for i, b in enumerate(l, 1)}, dict(enumerate(l, 1))) for n, l in c.items()}, c

    jsonof = staticmethod(lambda m: m[0])
    pickled = staticmethod(lambda m: list(m))

    @staticmethod
    def python(ns, m):
        equal(ns['bookDataDict'], {n: x[0] for n, x in m[0].items()}, 'Python export, positions of books')
        equal(ns['idDataDict'], {n: x[1] for n, x in m[0].items()}, 'Python export, books by position')

    @staticmethod
    def faults(draw, rows):
        k, i = draw(st.integers(0, 5)), draw(st.integers(0, len(rows) - 1))
        if k == 0: rows.append(E('book', rows[i].text, id=str(len(rows) + 1)))
        if k == 1: rows[i].text = 'QQ9'
        if k == 2: rows.append(E('book', next(b for b in CODES if all(r.text != b for r in rows)), id=str(i + 1)))
        if k == 3: rows[-1].set('id', str(len(rows) + 5))
        if k == 4: rows[i].set('other', 'x')
        if k == 5: del rows[i].attrib['id']
        return ['book twice', 'unknown book', 'number twice', 'number left out', 'unknown attribute', 'no number'][k]


class Punctuation:
    folder, prefix, root = True, 'BiblePunctuationSystem_', 'BiblePunctuationSystem'
    TAGS = ('sentenceCapitalisation properNounCapitalisation statementTerminator questionTerminator exclamationTerminator commaPauseCharacter startQuoteLevel1 endQuoteLevel1 startQuoteLevel2 '
            'endQuoteLevel2 startQuoteLevel3 endQuoteLevel3 startQuoteLevel4 endQuoteLevel4 booknameCase booknameLength punctuationAfterBookAbbreviation bookChapterSeparator spaceAllowedAfterBCS '
            'chapterVerseSeparator verseSeparator bookBridgeCharacter chapterBridgeCharacter verseBridgeCharacter chapterSeparator bookSeparator allowedVerseSuffixes').split()

    @classmethod
    def case(cls, draw):
        return {n: {t: draw(SYMBOL) for t in draw(st.permutations(cls.TAGS))[:draw(st.integers(1, len(cls.TAGS)))]} for n in draw(st.lists(NAME, min_size=1, max_size=3, unique=True))}

    @staticmethod
    def rows(d): return [E(t, s or None) for t, s in d.items()]

    model = staticmethod(lambda c: c)
    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])

    @staticmethod
    def python(ns, m): equal(ns['bookDataDict'], m, 'Python export')

    @staticmethod
    def faults(draw, rows):
        k, i = draw(st.integers(0, 2)), draw(st.integers(0, len(rows) - 1))
        if k == 0: rows.append(E(rows[i].tag, '!'))
        if k == 1: rows.insert(i, E('someOtherThing', 'x'))
        if k == 2: rows[i].set('other', 'x')
        return ['entry twice', 'unknown entry', 'attribute'][k]


class Versifications:
    folder, prefix, root = True, 'BibleVersificationSystem_', 'BibleVersificationSystem'

    @staticmethod
    def case(draw):
        c = {}
        for n in draw(st.lists(NAME, min_size=1, max_size=3, unique=True)):
            c[n] = []
            for b in bookset(draw, 4):
                chapters = []
                for i in range(1, draw(st.integers(1, 4)) + 1):
                    v = draw(st.integers(1, 60))
                    om = sorted(draw(st.sets(st.integers(1, v), max_size=3))) if draw(st.integers(0, 3)) == 0 else []
                    chapters.append([str(i), str(v), ','.join(map(str, om)) or None, draw(st.sampled_from([None, None, None, '3-4', '12-14'])), draw(st.sampled_from([None, None, None, '5-4']))])
                c[n].append([b, draw(TEXT), chapters])
        return c

    @staticmethod
    def rows(books):
        return [E('BibleBookVersification', None, E('nameEnglish', name), E('referenceAbbreviation', b), E('numChapters', str(len(ch))),
                  *[E('numVerses', v, chapter=c, omittedVerses=om, combinedVerses=co, reorderedVerses=ro) for c, v, om, co, ro in ch]) for b, name, ch in books]

    @staticmethod
    def model(c):
        m = {}
        for n, books in c.items():
            m[n] = {'CV': {}, 'omitted': {}, 'combined': {}, 'reordered': {}}
            for b, _, ch in books:
                m[n]['CV'][b] = {'numChapters': str(len(ch)), **{x[0]: x[1] for x in ch}}
                for k, i in ('omitted', 2), ('combined', 3), ('reordered', 4):
                    l = [(x[0], y) for x in ch if x[i] for y in (x[i].split(',') if i == 2 else [x[i]])]
                    if l: m[n][k][b] = l
        return m

    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])

    @staticmethod
    def python(ns, m):
        for k, t in ('chapterVerseDict', 'CV'), ('omittedVersesDict', 'omitted'), ('combinedVersesDict', 'combined'), ('reorderedVersesDict', 'reordered'):
            equal(ns[k], {n: x[t] for n, x in m.items()}, 'Python export,', k)

    @staticmethod
    def extra(case): return {'BibMaxRef': [['GEN', 'Genesis', [['1', '31', None, None, None]]]]}     # strict mode wants this system

    @staticmethod
    def faults(draw, rows):
        k, r = draw(st.integers(0, 5)), rows[draw(st.integers(0, len(rows) - 1))]
        if k == 0: rows.append(E(r.tag, None, E('nameEnglish', 'Another'), E('referenceAbbreviation', r.find('referenceAbbreviation').text), E('numChapters', '1'), E('numVerses', '3', chapter='1')))
        if k == 1: r.find('referenceAbbreviation').text = 'QQ9'
        if k == 2: r.append(E('numVerses', '7', chapter=r.findall('numVerses')[0].get('chapter')))
        if k == 3: r.set('other', 'x')
        if k == 4: r.append(E('someOtherThing', 'x'))
        if k == 5: r.remove(r.find(draw(st.sampled_from(['referenceAbbreviation', 'numChapters', 'nameEnglish']))))
        return ['book twice', 'unknown book', 'chapter twice', 'unknown attribute', 'unknown element', 'element missing'][k]


class Names:
    folder, prefix, root = True, 'BibleBooksNames_', 'BibleBooksNames'

    @staticmethod
    def case(draw):
        c = {}
        for n in draw(st.lists(st.sampled_from(['eng', 'fra_modern', 'mbt', 'eng_traditional']), min_size=1, max_size=2, unique=True)):
            names = draw(st.lists(TEXT, min_size=40, max_size=40, unique=True))
            take = names.pop
            inputs = lambda: [take() for _ in range(draw(st.integers(0, 2)))]
            D = [[a, take(), take(), inputs(), bookset(draw, 4)] for a in draw(st.lists(st.sampled_from(['OT', 'NT', 'DC', 'D1']), max_size=2, unique=True))]
            L = [[a, [take() for _ in range(draw(st.integers(1, 3)))]] for a in draw(st.lists(st.sampled_from('123'), max_size=2, unique=True))]
            B = []
            for b in bookset(draw, 4):
                name = take()
                B.append([b, name, name if draw(st.integers(0, 4)) == 0 else take(), inputs()])
            c[n] = [D, L, B]
        return c

    @staticmethod
    def rows(t):
        D, L, B = t
        return ([E('BibleDivisionNames', None, E('defaultName', n), E('defaultAbbreviation', s), *[E('inputAbbreviation', x) for x in i], *[E('includesBook', b) for b in bs], standardAbbreviation=a) for a, n, s, i, bs in D]
                + [E('BibleBooknameLeaders', None, *[E('inputAbbreviation', x) for x in i], standardLeader=a) for a, i in L]
                + [E('BibleBookNames', None, E('defaultName', n), E('defaultAbbreviation', s), *[E('inputAbbreviation', x) for x in i], referenceAbbreviation=b) for b, n, s, i in B])

    @staticmethod
    def model(c):
        m = {}
        for k, (D, L, B) in c.items():
            m[k] = ({a: {'includedBooks': bs, 'defaultName': n, 'defaultAbbreviation': s, 'inputFields': [n] + ([] if n.startswith(s) else [s]) + [x for x in i if x != n]} for a, n, s, i, bs in D},
                    {a + ' ': [x + ' ' for x in i] for a, i in L},
                    {b: {'defaultName': n, 'defaultAbbreviation': s, 'inputFields': [n] + ([s] if s != n else []) + i} for b, n, s, i in B})
        return m, {}

    jsonof = staticmethod(lambda m: m[0])
    pickled = staticmethod(lambda m: [m[0]])
    python = None

    @staticmethod
    def faults(draw, rows):
        books = [r for r in rows if r.tag == 'BibleBookNames']
        k, r = draw(st.integers(0, 5)), draw(st.sampled_from(books))
        if k == 0: rows.append(E(r.tag, None, E('defaultName', 'Yet another'), E('defaultAbbreviation', 'Yet'), referenceAbbreviation=r.get('referenceAbbreviation')))
        if k == 1: r.set('referenceAbbreviation', 'QQ9')
        if k == 2: rows.append(E(r.tag, None, E('defaultName', r.find('defaultName').text), E('defaultAbbreviation', 'Yet'), referenceAbbreviation=next(b for b in CODES if all(x.get('referenceAbbreviation') != b for x in books))))
        if k == 3: r.remove(r.find(draw(st.sampled_from(['defaultName', 'defaultAbbreviation']))))
        if k == 4: r.append(E('someOtherThing', 'x'))
        if k == 5: r.set('other', 'x')
        return ['book twice', 'unknown book', 'name twice', 'name missing', 'unknown element', 'unknown attribute'][k]


class Organisations:
    folder, root = False, 'BibleOrganisationalSystems'
    MANY = ('name', 'derivedFrom', 'usesText')
    UNUSED = ('translator', 'publisher', 'copyright', 'url', 'comment')

    @classmethod
    def case(cls, draw):
        c = []
        for a in draw(st.lists(st.sampled_from(['AAA', 'KJV', 'GNT', 'XX1', 'Long-Name']), min_size=1, max_size=4, unique=True)):
            for t in draw(st.lists(st.sampled_from(refdata.TYPES), min_size=1, max_size=2, unique=True)):
                d = [['referenceAbbreviation', a + ('_' + t if draw(st.integers(0, 4)) == 0 else '')], ['languageCode', draw(st.sampled_from(['eng', 'mbt', 'grc']))]]
                for k in ('name', 'name', 'publicationDate', 'versificationSystem', 'punctuationSystem', 'bookOrderSystem', 'booksNamesSystem', 'derivedFrom', 'usesText', 'usesText') + cls.UNUSED:
                    if draw(st.integers(0, 2)) == 0: d.append([k, draw(st.sampled_from(['None', 'Unknown'])) if k in ('versificationSystem', 'punctuationSystem') else draw(TEXT)])
                if draw(st.booleans()): d.append(['includesBooks', ' '.join(bookset(draw, 6))])
                c.append([t, draw(st.permutations(d))])
        return c

    @staticmethod
    def rows(l): return [E('BibleOrganisationalSystem', None, *[E(k, v) for k, v in d], type=t) for t, d in l]

    @classmethod
    def model(cls, c):
        data, index, both = {}, {}, {}
        for t, d in c:
            x = {'type': t}
            for k, v in d:
                if k in cls.MANY: x.setdefault(k, []).append(v)
                elif k == 'includesBooks': x[k] = v.split()
                elif k not in cls.UNUSED: x[k] = v
            a = x['referenceAbbreviation']
            full = a if a.endswith('_' + t) else a + '_' + t
            data[full] = x
            index.setdefault(a, []).append(full)
            both.setdefault(a, []).append(full)
            if full != a: both[full] = [full]
        return data, index, both

    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])

    @staticmethod
    def python(ns, m):
        for k, d in zip(('dataDict', 'indexDict', 'combinedIndexDict'), m): equal(ns[k], d, 'Python export,', k)

    @staticmethod
    def usual(c):      # in strict mode the types have rules about the texts they use
        for x in c: x[1] = [[k, v] for k, v in x[1] if k not in ('derivedFrom', 'usesText')]
        c[:] = [x for x in c if x[0] == 'original'] or [['original', c[0][1]]]
        seen = []
        for x in c:
            x[1] = [[k, v.split('_')[0] if k == 'referenceAbbreviation' else v] for k, v in x[1]]
            seen += [v for k, v in x[1] if k == 'referenceAbbreviation']
        c[:] = [x for i, x in enumerate(c) if seen.index(seen[i]) == i]

    @staticmethod
    def faults(draw, rows):
        k, r = draw(st.integers(0, 6)), rows[draw(st.integers(0, len(rows) - 1))]
        if k == 0: r.set('type', 'novel')
        if k == 1: r.find('languageCode').text = 'q9x'
        if k == 2: r.append(E('includesBooks', 'GEN QQ9'))
        if k == 3: r.append(E('someOtherThing', 'x'))
        if k == 4: r.remove(r.find(draw(st.sampled_from(['referenceAbbreviation', 'languageCode']))))
        if k == 5:
            for t in ('versificationSystem', 'punctuationSystem'):
                for e in r.findall(t): r.remove(e)
            r.append(E(draw(st.sampled_from(['versificationSystem', 'punctuationSystem'])), 'NoSuchSystem'))
        if k == 6: r.append(E('publicationDate', '1')); r.append(E('publicationDate', '2'))
        return ['unknown type', 'unknown language', 'unknown book', 'unknown element', 'element missing', 'unknown system', 'element twice'][k]


class Markers3:
    folder, root = False, 'USFM3Markers'
    WHERE = ('Header', 'Introduction', 'Numbering', 'Text', 'Canonical Text', 'Poetry', 'Text, Poetry', 'Acrostic verse', 'Table row', 'Footnote', 'Cross-reference', 'Front and back matter')
    HIGH, CLOSED = ('None', 'None', '2', '3', '4', '9'), ('No', 'Always', 'Self', 'Optional')
    FIELDS = 'nameEnglish marker compulsory level highestNumberSuffix nests hasContent printed closed occursIn deprecated description'.split()

    @classmethod
    def case(cls, draw):
        c = []
        names = draw(st.lists(st.text(st.sampled_from('abcdefqz'), min_size=1, max_size=3), min_size=1, max_size=8, unique=True))
        if cls.root == 'USFM3Markers' and draw(st.integers(0, 3)) == 0: names += ['qt-s', 'qt-e', 'k-s']
        for i, m in enumerate(names):
            yes = lambda: draw(st.sampled_from(['Yes', 'No']))
            c.append([draw(TEXT) + f' {i}', m, yes(), draw(st.sampled_from(['Newline', 'Newline', 'Internal', 'Internal', 'Note'])), 'None' if m == 'k-s' else draw(st.sampled_from(cls.HIGH)), yes(),
                      draw(st.sampled_from(['Always', 'Never', 'Sometimes'])), yes(), draw(st.sampled_from(cls.CLOSED)), draw(st.sampled_from(cls.WHERE)), yes(), draw(st.one_of(st.none(), TEXT))])
        return c

    @classmethod
    def rows(cls, l): return [E('USFMMarker', None, *[E(k, v) for k, v in zip(cls.FIELDS, x) if v is not None]) for x in l]

    @classmethod
    def model(cls, c):
        m = {k: {} if k.endswith('Dict') else [] for k in ('rawMarkerDict numberedMarkerList combinedMarkerDict conversionDict backConversionDict newlineMarkersList numberedNewlineMarkersList combinedNewlineMarkersList '
             'internalMarkersList numberedInternalMarkersList combinedInternalMarkersList noteMarkersList deprecatedMarkersList').split()}
        for name, k, comp, level, high, nests, has, printed, closed, where, dep, desc in c:
            m['rawMarkerDict'][k] = {'compulsoryFlag': comp == 'Yes', 'level': level, 'highestNumberSuffix': high, 'nestsFlag': nests == 'Yes', 'hasContent': has, 'occursIn': where,
                                     'printedFlag': printed == 'Yes', 'closed': closed, 'deprecatedFlag': dep == 'Yes', 'description': desc, 'nameEnglish': name}
            numbered = [k] if high == 'None' else [(k[:-2] + str(i) + k[-2:] if k[-2:] in ('-s', '-e') else k + str(i)) for i in range(1, int(high) + 1)]
            new = level == 'Newline'
            m['numberedMarkerList'] += numbered
            m['combinedMarkerDict'][k] = k
            if high != 'None': m['conversionDict'][k] = numbered[0]
            m['newlineMarkersList' if new else 'internalMarkersList' if level == 'Internal' else 'noteMarkersList'].append(k)
            m['numberedNewlineMarkersList' if new else 'numberedInternalMarkersList'] += numbered
            if new: m['combinedNewlineMarkersList'].append(k)
            for x in numbered if high != 'None' else []:
                m['combinedMarkerDict'][x] = k
                m['backConversionDict'][x] = k
                m['combinedNewlineMarkersList' if new else 'combinedInternalMarkersList'].append(x)
            if dep == 'Yes': m['deprecatedMarkersList'] += numbered
        return m

    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])

    @staticmethod
    def python(ns, m):
        for k, d in m.items(): equal(ns[k], d, 'Python export,', k)

    @staticmethod
    def faults(draw, rows):
        k, r = draw(st.integers(0, 4)), rows[draw(st.integers(0, len(rows) - 1))]
        if k == 0: rows.append(E(r.tag, None, *[E(e.tag, e.text) for e in r]))
        if k == 1: r.find(draw(st.sampled_from('compulsory level highestNumberSuffix nests hasContent printed closed occursIn deprecated'.split()))).text = 'Perhaps'
        if k == 2: r.remove(draw(st.sampled_from([e for e in r if e.tag != 'description'])))
        if k == 3: r.append(E('someOtherThing', 'x'))
        if k == 4: r.find('marker').text = 'ABC'
        return ['marker twice', 'unknown value', 'element missing', 'unknown element', 'upper case marker'][k]


class Markers2(Markers3):
    root = 'USFM2Markers'
    HIGH, CLOSED = ('None', 'None', '3', '4', '9'), ('No', 'Always', 'Optional')


class Languages:
    folder, root, header = False, 'iso_639_3_entries', False

    @staticmethod
    def case(draw):
        ids = draw(st.lists(st.text(st.sampled_from('abcdxyz'), min_size=3, max_size=3), min_size=1, max_size=6, unique=True))
        names = draw(st.lists(TEXT, min_size=len(ids), max_size=len(ids), unique_by=str.upper))
        return [[i, n, draw(st.sampled_from('IMS')), draw(st.sampled_from('LAEHCS')), draw(st.sampled_from([None, i[:2]])), draw(st.sampled_from([None, i])), draw(st.one_of(st.none(), TEXT))]
                for k, (i, n) in enumerate(zip(ids, names))]

    @staticmethod
    def rows(l): return [E('iso_639_3_entry', None, id=i, status='Active', scope=s, type=t, part1_code=p1, part2_code=p2, inverted_name=inv, reference_name=n, name=n) for i, n, s, t, p1, p2, inv in l]

    @staticmethod
    def model(c): return {x[0]: (x[1], x[2], x[3], x[4], x[5]) for x in c}, {x[1].upper(): x[0] for x in c}

    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])

    @staticmethod
    def python(ns, m):
        for k, d in zip(('IDDict', 'NameDict'), m): equal(ns['ISO639_3_Languages_' + k], d, 'Python export,', k)

    @staticmethod
    def usual(c):
        seen = []
        for x in c:
            if x[4] in seen: x[4] = None
            seen.append(x[4])

    @staticmethod
    def faults(draw, rows):
        k, r = draw(st.integers(0, 4)), rows[draw(st.integers(0, len(rows) - 1))]
        if k == 0: rows.append(E(r.tag, None, **{**r.attrib, 'name': 'Yet another', 'reference_name': 'Yet another'}))
        if k == 1: del r.attrib[draw(st.sampled_from(['id', 'scope', 'type', 'name', 'status', 'reference_name']))]
        if k == 2: r.set('other', 'x')
        if k == 3: rows.append(E('someOtherThing', None, **r.attrib))
        if k == 4: r.append(E('someOtherThing', 'x'))
        return ['code twice', 'attribute missing', 'unknown attribute', 'unknown element', 'unknown subelement'][k]


class Codes:
    folder, root = False, 'BibleBooksCodes'
    # element, name in the Python data, dictionary by this field (None: no dictionary)
    OPTIONAL = [('shortAbbreviation', 'shortAbbreviation', 'shortAbbreviationDict'), ('SBLAbbreviation', 'SBLAbbreviation', 'SBLAbbreviationDict'), ('OSISAbbreviation', 'OSISAbbreviation', 'OSISAbbreviationDict'),
                ('SwordAbbreviation', 'SwordAbbreviation', 'SwordAbbreviationDict'), ('CCELNumber', 'CCELNumberString', 'CCELDict'), ('USFMAbbreviation', 'USFMAbbreviation', 'USFMAbbreviationDict'),
                ('USFMNumber', 'USFMNumberString', 'USFMNumberDict'), ('USXNumber', 'USXNumberString', 'USXNumberDict'), ('UnboundCode', 'UnboundCodeString', 'UnboundCodeDict'),
                ('BibleditNumber', 'BibleditNumberString', 'BibleditNumberDict'), ('LogosNumber', 'LogosNumberString', 'LogosNumberDict'), ('LogosAbbreviation', 'LogosAbbreviation', 'LogosAbbreviationDict'),
                ('NETBibleAbbreviation', 'NETBibleAbbreviation', 'NETBibleAbbreviationDict'), ('DrupalBibleAbbreviation', 'DrupalBibleAbbreviation', 'DrupalBibleAbbreviationDict'),
                ('BibleWorksAbbreviation', None, 'BibleWorksAbbreviationDict'), ('ByzantineAbbreviation', 'ByzantineAbbreviation', 'ByzantineAbbreviationDict')]
    SHARED = ('OSISAbbreviation', 'SwordAbbreviation', 'USFMAbbreviation', 'DrupalBibleAbbreviation')      # (several books may share one of these)

    @classmethod
    def case(cls, draw):
        books = draw(st.lists(st.text(st.sampled_from('ABCDEFG123'), min_size=3, max_size=3), min_size=1, max_size=6, unique=True))
        numbers = draw(st.lists(st.integers(1, 999), min_size=len(books), max_size=len(books), unique=True))
        sequence = draw(st.lists(st.integers(1, 999), min_size=len(books), max_size=len(books), unique=True))
        c = []
        for k, (b, n, s) in enumerate(zip(books, numbers, sequence)):
            d = dict(originalLanguageCode=draw(st.sampled_from(['hbo', 'grc', 'arc'])), bookName=f'{draw(TEXT)} {k}', bookNameEnglishGuide=f'{draw(TEXT)} {k}', referenceAbbreviation=b, referenceNumber=str(n),
                     sequenceNumber=str(s), typicalSection=draw(st.sampled_from(['OT', 'NT', 'DC', 'PS', 'FRT', 'BAK', '???'])))
            if draw(st.booleans()): d['expectedChapters'] = draw(st.sampled_from(['1', '50', '9,10']))
            for e, _, _ in cls.OPTIONAL:
                if draw(st.integers(0, 3)) == 0: continue
                if e == 'UnboundCode': d[e] = f'{k:02}' + draw(st.sampled_from('NOA'))
                elif e.endswith('Number'): d[e] = f'{k + 1:0{draw(st.integers(1, 3))}}'
                else: d[e] = draw(st.sampled_from('ghijk')) + (draw(st.sampled_from('lmnLMN')) + str(k) if draw(st.integers(0, 2)) else 'op' + e[:2].lower() + str(k))
            if draw(st.integers(0, 2)) == 0: d['possibleAlternativeAbbreviations'] = ','.join(f'W{k}{x}' for x in draw(st.lists(st.sampled_from('XYZ'), min_size=1, max_size=2, unique=True)))
            if draw(st.integers(0, 2)) == 0: d['possibleAlternativeBooks'] = ','.join(draw(st.lists(st.sampled_from(books), min_size=1, max_size=2, unique=True)))
            c.append(d)
        return c

    @staticmethod
    def rows(l): return [E('BibleBookCodes', None, *[E(k, v) for k, v in d.items()]) for d in l]

    @classmethod
    def model(cls, c):
        m = {'referenceNumberDict': {}, 'referenceAbbreviationDict': {}, 'sequenceList': [d['referenceAbbreviation'] for d in sorted(c, key=lambda d: int(d['sequenceNumber']))], 'EnglishNameDict': {}}
        for _, _, k in cls.OPTIONAL: m[k] = {}
        every, alternatives = {}, {}
        for d in c:
            b, n = d['referenceAbbreviation'], int(d['referenceNumber'])
            x = {p: d.get(e) for e, p, _ in cls.OPTIONAL if p}
            x.update({k: d[k] for k in ('originalLanguageCode', 'bookName', 'bookNameEnglishGuide', 'typicalSection')})
            x['numExpectedChapters'] = d.get('expectedChapters')
            x['possibleAlternativeBooks'] = d['possibleAlternativeBooks'].split(',') if 'possibleAlternativeBooks' in d else None
            m['referenceAbbreviationDict'][b] = {**x, 'referenceNumber': n}
            m['referenceNumberDict'][n] = {**x, 'referenceAbbreviation': b}
            m['EnglishNameDict'][d['bookNameEnglishGuide'].upper()] = (n, b)
            for e, p, k in cls.OPTIONAL:
                if e not in d: continue
                key = d[e].upper()
                other = {'USFMAbbreviation': [d.get('USFMNumber')], 'USFMNumber': [d.get('USFMAbbreviation')], 'USXNumber': [d.get('USFMAbbreviation')], 'UnboundCode': [d.get('USFMAbbreviation')],
                         'BibleditNumber': [d.get('USFMAbbreviation')], 'LogosNumber': [d.get('USFMAbbreviation')]}.get(e, [])
                m[k][key] = (n, b, *other)
                if e.endswith('Abbreviation'): every.setdefault(key, set()).add(b)
            for a in d.get('possibleAlternativeAbbreviations', '').split(','):
                if a: alternatives[a] = b
        m['allAbbreviationsDict'] = {**{k: next(iter(v)) for k, v in every.items() if len(v) == 1}, **alternatives}
        return m

    jsonof = staticmethod(lambda m: m)
    pickled = staticmethod(lambda m: [m])
    python = None

    @staticmethod
    def faults(draw, rows):
        k, r = draw(st.integers(0, 4)), rows[draw(st.integers(0, len(rows) - 1))]
        if k == 0:
            o = E(r.tag, None, E('originalLanguageCode', 'grc'), E('bookName', 'Yet another'), E('bookNameEnglishGuide', 'Yet another'), E('referenceAbbreviation', 'ZZZ'), E('referenceNumber', '1000'), E('sequenceNumber', '1000'), E('typicalSection', 'NT'))
            e = draw(st.sampled_from([x for x in r if x.tag not in ('originalLanguageCode', 'typicalSection', 'expectedChapters', 'possibleAlternativeBooks')]))
            if o.find(e.tag) is None: o.append(E(e.tag, e.text))
            else: o.find(e.tag).text = e.text
            rows.append(o)
            return e.tag + ' twice'
        if k == 1: r.remove(r.find(draw(st.sampled_from('originalLanguageCode bookName bookNameEnglishGuide referenceAbbreviation referenceNumber sequenceNumber typicalSection'.split()))))
        if k == 2: r.append(E('someOtherThing', 'x'))
        if k == 3: r.find('referenceAbbreviation').text = 'abc'
        if k == 4:
            for e in r.findall('possibleAlternativeBooks'): r.remove(e)
            r.append(E('possibleAlternativeBooks', 'QQ9'))
        return ['', 'element missing', 'unknown element', 'lower-case code', 'unknown alternative book'][k]


KINDS = {'BibleBookOrders': Orders, 'BiblePunctuationSystems': Punctuation, 'BibleVersificationSystems': Versifications, 'BibleBooksNames': Names, 'BibleOrganisationalSystems': Organisations,
         'USFM2Markers': Markers2, 'USFM3Markers': Markers3, 'ISO_639_3_Languages': Languages, 'BibleBooksCodes': Codes}


# ------------------------------------------------------------------ running

def jsonish(x): return json.loads(json.dumps(x))


def write_tables(K, tables, folder, layout):
    """tables: {system: rows} (folder kinds) or rows; returns what the converter's loader wants"""
    if K.folder:
        for n, rows in tables.items(): write(f'{folder}/{K.prefix}{n}.xml', tree(K.root, rows), layout)
        open(folder + '/ReadMe.txt', 'w').write('Not a table\n')
        open(folder + '/Other_Thing.xml', 'w').write('<other/>')
        return folder
    write(folder + '/table.xml', tree(K.root, tables, getattr(K, 'header', True)), layout)
    return folder + '/table.xml'


def load(name, K, where):
    c = CLS[name]()
    (c.loadSystems if K.folder else c.loadAndValidate)(where)
    return c


def compare(name, K, c, m, folder, *what):
    data = c.importDataToPython()
    equal(data, m, *what, 'Python data')
    equal(len(c), len(m) if name == 'BiblePunctuationSystems' else len(m[0]) if name in ('BibleBookOrders', 'BibleBooksNames', 'BibleOrganisationalSystems', 'ISO_639_3_Languages') else
          len(m['rawMarkerDict']) if 'Markers' in name else len(m['referenceAbbreviationDict']) if name == 'BibleBooksCodes' else len(m), *what, 'number of entries')
    str(c)
    c.pickle(folder + '/t.pickle')
    with open(folder + '/t.pickle', 'rb') as f:
        got = []
        while f.peek(1): got.append(pickle.load(f))
    equal(got, K.pickled(m), *what, 'pickle')
    c.exportDataToJSON(folder + '/t.json')
    equal(json.load(open(folder + '/t.json', encoding='utf-8')), jsonish(K.jsonof(m)), *what, 'JSON')
    if K.python:
        c.exportDataToPython(folder + '/t.py')
        ns = {}
        text = open(folder + '/t.py', encoding='utf-8').read()
        try: code = compile(text, 't.py', 'exec')
        except SyntaxError as e: check(False, *what, 'the Python export is not Python:', e)
        exec(code, ns)
        K.python(ns, m)
    equal(c.importDataToPython(), m, *what, 'Python data after the exports')


@st.composite
def good(draw, name): return dict(table=KINDS[name].case(draw), layout=draw(LAYOUT))


def run_good(name):
    K = KINDS[name]

    def go(c, rec):
        t = c['table']
        rec.interesting(len(t) > 1)
        if name == 'BibleBooksCodes':         # abbreviations which several books share are not kept as a plain pair
            for e, _, _ in Codes.OPTIONAL:
                l = [d[e].upper() for d in t if e in d]
                if len(set(l)) != len(l): raise Discard('shared abbreviation')
        if 'Markers' in name:                 # (numbers must not make two markers the same)
            l = K.model(t)['numberedMarkerList']
            if len(set(l)) != len(l): raise Discard('marker twice')
        with TempDir() as d, quiet():
            os.makedirs(d + '/in')
            where = write_tables(K, {n: K.rows(x) for n, x in t.items()} if K.folder else K.rows(t), d + '/in', c['layout'])
            compare(name, K, load(name, K, where), K.model(t), d)
    return go


class Reports(logging.Handler):
    def __init__(self): super().__init__(logging.WARNING); self.texts = []
    def emit(self, r): self.texts.append(r.getMessage())


def strictly(name, K, tables, layout):
    """Load and import in strict mode → warnings and errors reported, or the exception that refused it."""
    h, root = Reports(), logging.getLogger()
    others, level, off = root.handlers[:], root.level, logging.root.manager.disable
    root.handlers[:] = [h]; root.setLevel(logging.WARNING); logging.disable(logging.NOTSET)
    G.strictCheckingFlag = True
    try:
        with TempDir() as d, quiet():
            os.makedirs(d + '/in')
            try: load(name, K, write_tables(K, tables, d + '/in', layout)).importDataToPython()
            except Exception as e: h.texts.append(f'refused: {type(e).__name__} {e}')
    finally:
        G.strictCheckingFlag = False
        root.handlers[:] = others; root.setLevel(level); logging.disable(off)
    return h.texts


@st.composite
def fault(draw, name):
    K = KINDS[name]
    t = K.case(draw)
    if K.folder: t = dict([next(iter(t.items()))])
    if hasattr(K, 'usual'): K.usual(t)
    bad = K.rows(next(iter(t.values())) if K.folder else t)
    what = K.faults(draw, bad)
    return dict(table=t, bad=[ET.tostring(r, encoding='unicode') for r in bad], what=what, layout=draw(LAYOUT))


def run_fault(name):
    K = KINDS[name]

    def go(c, rec):
        t = c['table']
        rec.label(c['what'])
        rec.interesting(len(c['bad']) > 1)
        if 'Markers' in name or name == 'BibleBooksCodes':
            l = K.model(t)['numberedMarkerList'] if 'Markers' in name else [x for e, _, _ in Codes.OPTIONAL for x in [(e, d[e].upper()) for d in t if e in d]]
            if len(set(l)) != len(l): raise Discard('entry twice')
            if name == 'BibleBooksCodes' and len(K.model(t)['allAbbreviationsDict']) != len({d[e].upper() for d in t for e, _, _ in Codes.OPTIONAL if e in d and e.endswith('Abbreviation')}
                    | {a for d in t for a in d.get('possibleAlternativeAbbreviations', '').split(',') if a}): raise Discard('ambiguous abbreviation')
        extra = {n: K.rows(x) for n, x in K.extra(t).items()} if hasattr(K, 'extra') else {}
        bad = [ET.fromstring(x) for x in c['bad']]
        ok = strictly(name, K, {**{n: K.rows(x) for n, x in t.items()}, **extra} if K.folder else K.rows(t), c['layout'])
        if name == 'BibleVersificationSystems': ok = [x for x in ok if 'not in BibMaxRef' not in x and 'BibMaxRef' not in x and 'identical' not in x and 'refused' in x]
        equal(ok, [], 'reports about a table without faults')
        reports = strictly(name, K, {**{n: bad for n in t}, **extra} if K.folder else bad, c['layout'])
        if name == 'BibleVersificationSystems': reports = [x for x in reports if 'BibMaxRef' not in x and 'identical' not in x]
        check(reports, 'a table with a fault is neither refused nor reported:', c['what'])
    return go


# ------------------------------------------------------------------ the shipped tables

def shipped(case, rec):
    name = case['kind']
    K = KINDS[name]
    D = refdata.DATA
    text = lambda e, k: e.findtext(k)
    rec.interesting(True)
    if name == 'BibleBookOrders': t = refdata.book_orders()
    elif name == 'BiblePunctuationSystems':
        t = {os.path.basename(f)[len('BiblePunctuationSystem_'):-4]: {e.tag: e.text or '' for e in ET.parse(f).getroot() if e.tag != 'header'} for f in glob.glob(D + '/PunctuationSystems/*.xml')}
    elif name == 'BibleVersificationSystems':
        t = {os.path.basename(f)[len('BibleVersificationSystem_'):-4]: [[text(b, 'referenceAbbreviation'), text(b, 'nameEnglish'), [[e.get('chapter'), e.text, e.get('omittedVerses'), e.get('combinedVerses'), e.get('reorderedVerses')] for e in b.findall('numVerses')]]
             for b in ET.parse(f).getroot().findall('BibleBookVersification')] for f in glob.glob(D + '/VersificationSystems/*.xml')}
    elif name == 'BibleOrganisationalSystems':
        t = [[e.get('type'), [[x.tag, x.text] for x in e if x.tag not in ('completionDate',)]] for e in ET.parse(D + '/BibleOrganisationalSystems.xml').getroot().findall('BibleOrganisationalSystem')]
    elif 'Markers' in name: t = [[text(e, k) for k in K.FIELDS] for e in ET.parse(f'{D}/{name}.xml').getroot().findall('USFMMarker')]
    elif name == 'ISO_639_3_Languages': t = [[e.get(k) for k in ('id', 'name', 'scope', 'type', 'part1_code', 'part2_code')] for e in ET.parse(D + '/iso_639_3.xml').getroot()]
    with TempDir() as d, quiet():
        c = load(name, K, None)
        m = K.model(t)
        if name == 'BibleVersificationSystems':        # a few tables state another number of chapters than they list
            for f in glob.glob(D + '/VersificationSystems/*.xml'):
                for b in ET.parse(f).getroot().findall('BibleBookVersification'):
                    m[os.path.basename(f)[len('BibleVersificationSystem_'):-4]]['CV'][text(b, 'referenceAbbreviation')]['numChapters'] = text(b, 'numChapters')
        compare(name, K, c, m, d)


# ------------------------------------------------------------------ tables of links between references

REF = st.tuples(st.sampled_from(['MAT', 'GEN', 'PSA', 'CO1']), st.integers(1, 3), st.integers(1, 4), st.integers(0, 3), st.booleans())
BACK = dict(TSK='TSKQuoted', QuotedOTReference='OTReferenceQuoted', AlludedOTReference='OTReferenceAlluded', PossibleOTReference='OTReferencePossible')


@st.composite
def links(draw):
    def ref():
        b, c, v, n, dash = draw(REF)
        vs = list(range(v, v + n + 1))
        if n == 0: text = f'{v}'
        elif dash: text = f'{v}-{v + n}'
        else: text = ','.join(map(str, vs))
        return [f'{b}_{c}:{text}', 'Verse' if n == 0 else draw(st.sampled_from(['Verses', 'Section'])), [[b, str(c), str(x)] for x in vs]]
    return dict(links=[[ref(), [ref() + [draw(st.sampled_from(list(BACK)))] for _ in range(draw(st.integers(1, 3)))]] for _ in range(draw(st.integers(1, 5)))], layout=draw(LAYOUT))


def run_links(case, rec):
    L = case['links']
    rec.interesting(len(L) > 1)
    rows = [E('BibleReferenceLinks', None, E('sourceReference', s[0]), E('sourceComponent', s[1]), *[E('BibleReferenceLink', None, E('targetReference', t[0]), E('targetComponent', t[1]), E('linkType', t[3])) for t in ts]) for s, ts in L]
    want = {}
    for s, ts in L:
        for v in s[2]: want.setdefault(tuple(v), []).append([s[0], s[1], [[t[0], t[1], t[3]] for t in ts]])
    for s, ts in L:
        for t in ts:
            for v in t[2]: want.setdefault(tuple(v), []).append([t[0], t[1], [[s[0], s[1], BACK[t[3]]]]])
    plain = lambda x: [x[0], x[1], [[t[0], t[1], t[3]] for t in x[3]]]

    def included(k): return [[v.getBBB(), v.getChapterNumber(), v.getVerseNumber()] for v in k.getIncludedVerses()]
    verses = {r[0]: r[2] for s, ts in L for r in [s, *ts]}
    from BibleOrgSys.Reference.BibleReferencesLinks import BibleReferencesLinks
    with TempDir() as d, quiet():
        write(d + '/t.xml', tree('BibleReferencesLinks', rows), case['layout'])
        m = importlib.import_module(R + 'BibleReferencesLinksConverter')
        c = type(m.BibleReferencesLinksConverter())()
        c.loadAndValidate(d + '/t.xml')
        data, index = c.importDataToPython()
        equal([plain(x) for x in data], [[s[0], s[1], [[t[0], t[1], t[3]] for t in ts]] for s, ts in L], 'list of links')
        for x in data:
            for ref, key in [(x[0], x[2])] + [(t[0], t[2]) for t in x[3]]: equal(included(key), verses[ref], 'verses of', ref)
        got = {(k.getBBB(), k.getChapterNumber(), k.getVerseNumber()): [plain(x) for x in l] for k, l in index.items()}
        equal(got, want, 'links by verse')
        c.pickle(d + '/t.pickle')
        with open(d + '/t.pickle', 'rb') as f: data2, index2 = pickle.load(f), pickle.load(f)
        equal([plain(x) for x in data2], [plain(x) for x in data], 'pickled links')
        equal({(k.getBBB(), k.getChapterNumber(), k.getVerseNumber()): [plain(x) for x in l] for k, l in index2.items()}, want, 'pickled links by verse')
        # the index and data files, read with the class that looks links up
        old = G.DEFAULT_WRITEABLE_DERIVED_DATAFILES_FOLDERPATH, G.BOS_DERIVED_DATAFILES_FOLDERPATH
        import pathlib
        G.DEFAULT_WRITEABLE_DERIVED_DATAFILES_FOLDERPATH = G.BOS_DERIVED_DATAFILES_FOLDERPATH = pathlib.Path(d)
        try:
            c.exportDataWithIndex()
            r = type(BibleReferencesLinks())()
            r.loadData()
            for b in ('MAT', 'GEN', 'PSA', 'CO1'):
                for ch in range(1, 4):
                    for v in range(1, 9):
                        w = want.get((b, str(ch), str(v)))
                        k = SVK(b, str(ch), str(v))
                        got = r.getRelatedPassagesList(k)
                        if w is None: check(not got, 'links of a verse without links', b, ch, v, got)
                        else:
                            equal([plain(x) for x in r.getFullRelatedPassagesList(k)], w, 'full links of', b, ch, v)
                            equal([[t, included(key)] for t, key in got], [[t[2], verses[t[0]]] for x in w for t in x[2]], 'links of', b, ch, v)
        finally: G.DEFAULT_WRITEABLE_DERIVED_DATAFILES_FOLDERPATH, G.BOS_DERIVED_DATAFILES_FOLDERPATH = old


SUBS = [Sub('shipped tables', None, shipped, quick=8, rule='every shipped table', exhaustive=lambda: [dict(kind=k) for k in KINDS if k not in ('BibleBooksNames', 'BibleBooksCodes')])]
for _n in KINDS:
    SUBS.append(Sub(_n, (lambda n: lambda: good(n))(_n), run_good(_n), quick=120, rule='more than one entry or system'))
    SUBS.append(Sub('faults in ' + _n, (lambda n: lambda: fault(n))(_n), run_fault(_n), quick=100, rule='more than one row'))
SUBS.append(Sub('links', links, run_links, quick=100, rule='more than one source'))
