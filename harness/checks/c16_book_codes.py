"""C16: book-code tables, lookups and reference sorting, against an independent reading of the data file."""
import os, xml.etree.ElementTree as ET
from functools import cmp_to_key
from hypothesis import strategies as st
from core import *

PROPERTY = 'C16'
# accessor -> data-file element
FIELDS = dict(getCCELNumber='CCELNumber', getShortAbbreviation='shortAbbreviation', getSBLAbbreviation='SBLAbbreviation',
              getOSISAbbreviation='OSISAbbreviation', getSwordAbbreviation='SwordAbbreviation', getUSFMAbbreviation='USFMAbbreviation',
              getUSFMNumStr='USFMNumber', getUSXNumStr='USXNumber', getUnboundBibleCode='UnboundCode',
              getBibleditNumStr='BibleditNumber', getLogosNumStr='LogosNumber', getNETBibleAbbreviation='NETBibleAbbreviation',
              getDrupalBibleAbbreviation='DrupalBibleAbbreviation', getByzantineAbbreviation='ByzantineAbbreviation',
              getBookName='bookName', getTypicalSection='typicalSection')
ABBREVS = ('shortAbbreviation', 'SBLAbbreviation', 'OSISAbbreviation', 'SwordAbbreviation', 'USFMAbbreviation', 'LogosAbbreviation',
           'NETBibleAbbreviation', 'DrupalBibleAbbreviation', 'BibleWorksAbbreviation', 'ByzantineAbbreviation')


def setup():
    global BBC, ROWS, BY, ORDER, ALL, MULTI, TABLE
    BBC = sut().loadedBibleBooksCodes
    root = ET.parse(os.path.join(REPO, 'BibleOrgSys/DataFiles/BibleBooksCodes.xml')).getroot()
    ROWS = []
    for el in root.findall('BibleBookCodes'):
        row = {}
        for sub in el: row[sub.tag] = sub.text
        ROWS.append(row)
    BY = {r['referenceAbbreviation']: r for r in ROWS}
    ORDER = [r['referenceAbbreviation'] for r in sorted(ROWS, key=lambda r: int(r['sequenceNumber']))]
    # abbreviation (upper case) -> the set of books which use it, per system and over all systems
    TABLE = {f: {} for f in ABBREVS + ('UnboundCode',)}
    ALL = {}
    for r in ROWS:
        for f in TABLE:
            a = r.get(f)
            if a:
                TABLE[f].setdefault(a.upper(), []).append(r['referenceAbbreviation'])
                if f != 'UnboundCode': ALL.setdefault(a.upper(), set()).add(r['referenceAbbreviation'])
        for a in (r.get('possibleAlternativeAbbreviations') or '').split(','):
            if a: ALL.setdefault(a, set()).add(r['referenceAbbreviation'])
    assert len(ROWS) > 200
    from BibleOrgSys.Reference.BibleBooksCodes import BOOKLIST_66
    M_ENGLISH[:] = list(zip(english(), BOOKLIST_66))


def all_books(): return [dict(B=b) for b in BY]


def run_book(case, rec):
    B = case['B']; r = BY[B]
    rec.interesting()
    check(B in BBC and BBC.isValidBBB(B), B, 'not known')
    equal(BBC.getReferenceNumber(B), int(r['referenceNumber']), B, 'number')
    equal(BBC.getBBBFromReferenceNumber(int(r['referenceNumber'])), B, 'book from number')
    equal(BBC.getBBBFromReferenceNumber(r['referenceNumber']), B, 'book from number string')
    for fn, f in FIELDS.items():
        equal(getattr(BBC, fn)(B), r.get(f), B, fn)
    exp = r.get('expectedChapters')
    equal(BBC.getExpectedChaptersList(B), exp.split(',') if exp else [], B, 'expected chapters')
    nums = [int(x) for x in (exp or '').split(',') if x.isdigit()]
    equal(BBC.getMaxChapters(B), max(nums, default=-1), B, 'max chapters')
    equal(BBC.isSingleChapterBook(B), exp == '1', B, 'single chapter'); equal(B in BBC.getSingleChapterBooksList(), exp == '1', B)
    equal(BBC.isChapterVerseBook(B), exp is not None, B, 'chapter/verse book')
    alt = r.get('possibleAlternativeBooks')
    equal(BBC.getPossibleAlternativeBooksCodes(B), alt.split(',') if alt else None, B, 'alternatives')
    names = [n.strip() for n in r['bookNameEnglishGuide'].split('/')]
    equal(BBC.getEnglishNameList_NR(B), names, B); equal(BBC.getEnglishName_NR(B), names[0], B)
    n = int(r['referenceNumber'])
    equal((BBC.isOldTestament_NR(B), BBC.isNewTestament_NR(B)), (1 <= n <= 39, 40 <= n <= 66), B, 'testament')
    # every code of every system leads back to a book which has that code (the very same book when it is unique)
    for f, back in (('shortAbbreviation', BBC.getBBBFromShortAbbreviation), ('OSISAbbreviation', BBC.getBBBFromOSISAbbreviation),
                    ('USFMAbbreviation', BBC.getBBBFromUSFMAbbreviation), ('UnboundCode', BBC.getBBBFromUnboundBibleCode),
                    ('DrupalBibleAbbreviation', BBC.getBBBFromDrupalBibleCode)):
        a = r.get(f)
        if not a: continue
        users = TABLE[f][a.upper()]
        for x in (a, a.upper(), a.lower()):
            got = back(x)
            if len(users) == 1: equal(got, B, f, x)
            elif f == 'USFMAbbreviation': equal(got, users[0], f, x)
            else: check(got == users or got in users, f, x, 'gives', got)
            if f in ('shortAbbreviation', 'OSISAbbreviation', 'USFMAbbreviation'): equal(back(x, strict=True), got, f, x, 'strict')
    a = r.get('SwordAbbreviation')
    if a and a.upper() not in TABLE['OSISAbbreviation'] and len(TABLE['SwordAbbreviation'][a.upper()]) == 1:
        equal(BBC.getBBBFromOSISAbbreviation(a), B, 'Sword abbreviation', a)
    equal(BBC.getBBBFromText(B.lower()), B, 'book code as text'); equal(BBC.getBBBFromText(B), B, 'book code as text')
    for c in (1, 2, 3, 150): equal(BBC.continuesThroughChapters(B), B not in ('PSA', 'PS2', 'LAM'))
    tidy = BBC.tidyBBB(B, titleCase=False, allowFourChars=False)
    equal(tidy, B[2] + B[:2] if B[2].isdigit() else B, 'tidyBBB')
    t2 = BBC.tidyBBB(B, titleCase=True, allowFourChars=False)
    equal(t2.upper(), tidy, 'tidyBBB title case'); check(t2.lstrip('0123456789')[:1].isupper() and not t2.lstrip('0123456789')[1:2].isupper(), t2)
    f1, f2 = BBC.tidyBBB(B), BBC.tidyBBB(B, titleCase=True)
    equal(f2.upper(), f1, 'tidyBBB four characters'); check(len(f1) in (3, 4) and (len(f1) == 4 or f1 == tidy), f1)
    check(f1[0].isdigit() == B[2].isdigit(), f1)
    equal(BBC.tidyBBBs([B, 'SA1', B], titleCase=True), [f2, '1Sa', f2], 'tidyBBBs')


def run_tables(case, rec):
    rec.interesting()
    equal(len(BBC), len(ROWS), 'number of books'); equal(list(BBC), list(BY), 'iteration'); equal(BBC.getAllReferenceAbbreviations(), list(BY))
    equal(BBC.getSequenceList(), ORDER, 'sequence')
    equal(sorted(BBC.getAllOSISBooksCodes()), sorted(TABLE['OSISAbbreviation']), 'OSIS codes')
    usfm = []
    for r in ROWS:
        a = r.get('USFMAbbreviation')
        if a and a not in usfm: usfm.append(a)
    equal(BBC.getAllUSFMBooksCodes(), usfm, 'USFM codes'); equal(BBC.getAllUSFMBooksCodes(toUpper=True), list(dict.fromkeys(a.upper() for a in usfm)))
    for fn, f in (('getAllUSFMBooksCodeNumberTriples', 'USFMNumber'), ('getAllUSXBooksCodeNumberTriples', 'USXNumber'), ('getAllBibleditBooksCodeNumberTriples', 'BibleditNumber')):
        want, seen = [], set()
        for r in ROWS:
            a, n = r.get('USFMAbbreviation'), r.get(f)
            if a and n and a not in seen: seen.add(a); want.append((a, n, r['referenceAbbreviation']))
        equal(getattr(BBC, fn)(), want, fn)
    equal(BBC.getOSISSingleChapterBooksList(), [r['OSISAbbreviation'] for r in ROWS if r.get('expectedChapters') == '1' and r.get('OSISAbbreviation')])
    equal(sum(BBC.hasPsalmTitle('PSA', str(c)) for c in range(1, 151)), 116, 'psalm titles')
    from BibleOrgSys.Reference import BibleBooksCodes as M
    equal([BBC.getBBBFromReferenceNumber(i) for i in range(1, 67)], M.BOOKLIST_66, 'first 66 books')


def text_case():
    abbr = st.sampled_from(sorted(ALL)).map(lambda a: [a, a.lower(), a.title()])
    eng = st.sampled_from(M_ENGLISH)
    return st.one_of(st.tuples(abbr, st.integers(0, 2)).map(lambda t: dict(t=t[0][t[1]], kind='abbrev')),
                     eng.map(lambda t: dict(t=t[0], want=t[1], kind='English')),
                     st.tuples(eng, st.sampled_from(['lower', 'upper'])).map(lambda t: dict(t=getattr(t[0][0], t[1])(), want=t[0][1], kind='English')),
                     st.text(st.sampled_from('QX79-/'), min_size=1, max_size=6).map(lambda t: dict(t=t, kind='junk')))


NAMES = ('Genesis Exodus Leviticus Numbers Deuteronomy Joshua Judges Ruth|1 Samuel|2 Samuel|1 Kings|2 Kings|1 Chronicles|2 Chronicles Ezra '
         'Nehemiah Esther Job Psalms Proverbs Ecclesiastes|Song of Solomon Isaiah Jeremiah Lamentations Ezekiel Daniel Hosea Joel Amos Obadiah '
         'Jonah Micah Nahum Habakkuk Zephaniah Haggai Zechariah Malachi Matthew Mark Luke John Acts Romans|1 Corinthians|2 Corinthians '
         'Galatians Ephesians Philippians Colossians|1 Thessalonians|2 Thessalonians|1 Timothy|2 Timothy Titus Philemon Hebrews James|1 Peter'
         '|2 Peter|1 John|2 John|3 John Jude Revelation')
M_ENGLISH = []


def english():
    out = []
    for part in NAMES.split('|'):
        if part[0].isdigit() or part.startswith('Song of'):
            w = part.split(' ')
            n = 3 if part.startswith('Song') else 2
            out.append(' '.join(w[:n])); out += w[n:]
        else: out += part.split(' ')
    assert len(out) == 66, len(out)
    return out


def run_text(case, rec):
    t, u = case['t'], case['t'].upper()
    rec.label(case['kind']); got = BBC.getBBBFromText(t)
    if case['kind'] == 'English':
        rec.interesting(); equal(got, case['want'], 'getBBBFromText', t); return
    if u in BY: equal(got, u, 'getBBBFromText', t); return
    if u in ALL:
        rec.interesting()
        if len(ALL[u]) == 1: equal(got, list(ALL[u])[0], 'getBBBFromText', t)
        else: check(got is None or got in BY, t, got)
    elif case['kind'] == 'junk': equal(got, None, 'getBBBFromText', t)


def seq_case():
    return st.fixed_dictionaries(dict(books=st.lists(st.sampled_from(sorted(BY)), unique=True, max_size=40), form=st.sampled_from(['list', 'tuple', 'pairs', 'set'])))


def run_seq(case, rec):
    bl, form = case['books'], case['form']
    rec.interesting(len(bl) > 3)
    want = sorted(bl, key=ORDER.index)
    if form == 'pairs':
        arg = [(b, i) for i, b in enumerate(bl)]
        equal(BBC.getSequenceList(arg), sorted(arg, key=lambda x: ORDER.index(x[0])), 'getSequenceList')
    else: equal(BBC.getSequenceList({'list': list, 'tuple': tuple, 'set': set}[form](bl)), want, 'getSequenceList')


def ref():
    n = st.integers(1, 150) | st.sampled_from([1, 2, 9, 10, 99, 100, 101, 119, 149, 150, 151, 176])
    return st.tuples(st.sampled_from(['GEN', 'EXO', 'PSA', 'PRO', 'ECC', 'MAT', 'REV', 'PS2', 'TOB', 'LAO', 'GLS']) | st.sampled_from(sorted(BY)),
                     n | st.sampled_from([-1, 0]), n | st.just(0), st.integers(0, 6), st.sampled_from(['', '', '', 'a', 'b', 'c']))


def sort_case():
    return st.fixed_dictionaries(dict(refs=st.lists(ref(), min_size=2, max_size=14).map(lambda l: [list(x) for x in l]), four=st.booleans()))


def run_sort(case, rec):
    refs = []
    for B, C, V, span, S in case['refs']:
        v = '%d-%d' % (V, V + span) if span == 5 else str(V)
        refs.append((B, str(C), v, S) if case['four'] else (B, str(C), v))
    def k(r): return (int(BY[r[0]]['referenceNumber']), int(r[1]), int(r[2].split('-')[0]), r[3] if len(r) > 3 else '')
    got = BBC.sortBCVReferences(refs)
    equal(sorted(got), sorted(refs), 'sorted references are a permutation')
    ks = [k(r) for r in got]
    rec.interesting(len(set(ks)) > 2 and ks != [k(r) for r in refs])
    for a, b in zip(got, got[1:]):
        ka, kb = k(a), k(b)
        if case['four'] and ka[:3] == kb[:3] and {ka[3], kb[3]} == {'', 'a'}: continue    # no suffix and a: same place
        check(ka <= kb, 'wrong order:', a, 'before', b)
    for a, b in zip(refs, refs[1:]):
        ka, kb, ia, ib = k(a)[:3], k(b)[:3], BBC.BCVReferenceToInt(a), BBC.BCVReferenceToInt(b)
        if ka != kb: check((ia < ib) == (ka < kb) and ia != ib, 'BCVReferenceToInt', a, ia, b, ib)


SUBS = [
    Sub('books', None, run_book, 1, exhaustive=all_books, rule='every book of the table (exhaustive)'),
    Sub('tables', None, run_tables, 1, exhaustive=lambda: [{}], rule='the whole-table lists'),
    Sub('text', text_case, run_text, 3000, rule='non-trivial: an abbreviation of the table or an English book name, in any letter case'),
    Sub('sequence', seq_case, run_seq, 1500, rule='non-trivial: more than three books'),
    Sub('sorting', sort_case, run_sort, 4000, rule='non-trivial: the list was not in order and has more than two distinct references'),
]
