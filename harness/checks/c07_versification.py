"""C07: the reported versification of a book matches its chapters and verses."""
import re
from collections import Counter, defaultdict
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C07'


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


def digits(v): return re.sub('[^0-9,–-]', '', v)


def expected(bk, intro_lines):
    """The four lists, from the chapter and verse lines of the file."""
    versif, omitted, combined, reordered = [('-1', str(intro_lines - 1))], [], [], []
    C, last = None, 0
    for m, n, ps in bk['lines']:
        if m == 'c':
            if C is not None: versif.append((C, str(last)))
            C, last = n, 0
        elif m == 'v':
            t = digits(n)
            ends = [int(x) for x in re.split('[,–-]', t)]
            first, end = ends[0], ends[-1]
            if len(ends) > 1: combined.append((C, t))
            if first <= last: reordered.append((C, str(last), t))
            omitted += [(C, str(x)) for x in range(last + 1, first)]
            last = end
    versif.append((C, str(last)))
    return versif, omitted, combined, reordered


def run(case, rec):
    with TempDir() as d, quiet():
        ld.write_usfm(d, case)
        bible = ld.load_usfm(d)
    totals = [{}, {}, {}, {}]
    for bk in case:
        B = bk['BBB']
        book = bible[B]
        n = next(i for i, e in enumerate(book) if e.getMarker() == 'c')
        # the introduction is numbered by line: every line before the first chapter
        equal([B_ for B_ in ('-1', str(n - 1)) ], list(book.getVersification()[0][0]), 'introduction of', B)
        want = expected(bk, n)
        for name, a, b, t in zip(('verses per chapter', 'omitted', 'combined', 'reordered'), book.getVersification(), want, totals):
            equal([tuple(x) for x in a], b, name, 'of', B)
            if b: t[B] = b
        cs = [l[1] for l in bk['lines'] if l[0] == 'c']
        last = {}
        for C, v in want[0]: last[C] = int(v)
        equal((book.getNumChapters(), bible.getNumChapters(B)), (int(cs[-1]),) * 2, 'number of chapters')
        for C in set(cs) | {'-1', '0', '99', str(int(cs[-1]) + 1)}:
            for arg in (C, int(C)):
                equal((book.getNumVerses(arg), bible.getNumVerses(B, arg)), (last.get(C),) * 2, 'number of verses of', B, C)
        if want[1]: rec.label('omitted')
        if want[2]: rec.label('combined')
        if want[3]: rec.label('reordered')
        rec.interesting(want[1] or want[2] or want[3])
    for name, a, t in zip(('verses per chapter', 'omitted', 'combined', 'reordered'), bible.getVersification(), totals):
        equal({B: [tuple(x) for x in l] for B, l in a.items()}, t, name, 'of the Bible')
    missing = next(B for B in ('ZEC', 'AMO', 'HEB') if B not in bible)
    equal((bible.getNumChapters(missing), bible.getNumVerses(missing, '1')), (None, None), 'a missing book')
    try: r = bible.getNumChapters('XYZ')
    except KeyError: pass
    else: raise Violation('number of chapters of a book that does not exist: %r' % (r,))


def renumber(draw, bk):
    """Some chapter numbers left out, some verse numbers in other well-formed shapes."""
    n = 0
    for l in bk['lines']:
        if l[0] == 'c':
            n += 1 if bk['BBB'] in g.SINGLE else draw(st.sampled_from([1, 1, 1, 2, 9]))
            l[1] = str(n)
        elif l[0] == 'v':
            k = draw(st.integers(0, 11))
            if k == 0 and '-' in l[1]: l[1] = l[1].replace('-', '-' if 'a' in l[1] else draw(st.sampled_from(['-', ','])))
            elif k == 1 and l[1].isdigit(): l[1] = str(int(l[1]) + draw(st.integers(1, 150)))
    return bk


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=3, unique=True))
    return [renumber(draw, draw(g.book(BBB=B, words=False, figs=False, notes=False, chars=False, rich_heads=False, max_chapters=4, max_verses=8, swaps=True, repeats=True))) for B in names]


zq = st.text('abcdefgh', min_size=1, max_size=4).map(lambda t: 'ŵq' + t)


@st.composite
def counted(draw):
    words = st.lists(st.one_of(zq, zq, zq.map(str.capitalize), zq.map(lambda w: w + draw(st.sampled_from([',', '.', '?', '”']))), st.sampled_from(['and', '12', 'Ŵqa-ŵqb'])), min_size=1, max_size=5)
    names = draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=3, unique=True))

    @st.composite
    def text(dr):
        out = []
        for _ in range(dr(st.integers(1, 3))):
            if out: out.append(['t', ' '])
            out.append(['t', ' '.join(dr(words))])
            k = dr(st.integers(0, 7))
            if k == 0: out += [['n', 'f', '+', [['fr', '1:1'], ['ft', ' '.join(dr(words))]]]]
            elif k == 1: out += [['n', 'x', '-', [['xo', '1:1'], ['xt', 'ŵqx ' + ' '.join(dr(words))]]]]
            elif k == 2: out += [['n', 'fe', '+', [['ft', ' '.join(dr(words))]]]]
            elif k == 3: out += [['t', ' '], ['g', 'zqf|a.jpg|col|||cap|3:4']]
        return g.merge(out)
    return [draw(g.book(BBB=B, plain_text=text(), notes=False, chars=False, words=False, figs=False, rich_heads=False, suffixes=False)) for B in names]


def run_discovery(case, rec):
    with TempDir() as d, quiet():
        ld.write_usfm(d, case)
        bible = ld.load_usfm(d)
        bible.discover()
    total, by, halfsum = Counter(), defaultdict(list), Counter()
    order = lambda l: [B for B in bible.getBookList() if B in l]
    for bk in case:
        B = bk['BBB']
        r = bible.discoveryResults[B]
        rows = g.model(bk)
        count = lambda *ms: sum(1 for x in rows if x[0] in ms)
        extras = [x[0] for row in rows for x in row[4]]
        texts = sum(1 for x in rows if x[0] == 'v~' and x[2])
        verses = count('v')
        want = dict(chapterCount=count('c'), verseCount=verses, completedVerseCount=texts, percentageProgress=min(100, round(texts * 100 / verses)),
                    mainHeadingsCount=count('mt1', 'mt2', 'mt3', 'mt4'), sectionHeadingsCount=count('s1', 's2', 's3', 's4', 'qa'), sectionReferencesCount=count('r'),
                    footnotesCount=extras.count('fn'), crossReferencesCount=extras.count('xr'), figuresCount=extras.count('fig'),
                    haveFootnotes='fn' in extras, haveCrossReferences='xr' in extras, haveSectionHeadings=count('s1', 's2', 's3', 's4', 'qa') > 0,
                    havePopulatedCVmarkers=True, haveLists=count('li1') > 0, haveVerseText=texts > 0, seemsFinished=texts == verses,
                    notStarted=texts == 0, partlyDone=0 < texts < verses)
        equal({k: r[k] for k in want}, want, 'discovered for', B)
        total.update({k: v for k, v in want.items() if k.endswith('Count')})
        main, notes = Counter(), Counter()
        for x in rows:
            if x[0] in ('v~', 'p~'): main.update(re.findall('[ŵŴ]q[ŵŴA-Za-z-]*', x[3]))
            for e in x[4]:
                if e[0] != 'fig': notes.update(re.findall('[ŵŴ]q[ŵŴA-Za-z-]*', e[3]))
        mine = lambda c: {k: v for k, v in c.items() if k.lower().startswith('ŵq')}
        lower = lambda c: dict(sum((Counter({k.lower(): v}) for k, v in c.items()), Counter()))
        extra_main = Counter()
        for x in rows:  # (introductions use the same words)
            if x[0] not in ('v~', 'p~'): extra_main.update(re.findall('[ŵŴ]q[ŵŴA-Za-z-]*', x[3]))
        main = main + extra_main
        equal(mine(r['mainTextWordCounts']), dict(main), 'words of the text of', B)
        equal(mine(r['allWordCounts']), dict(main + notes), 'words of', B)
        equal(mine(r['mainTextCaseInsensitiveWordCounts']), lower(main), 'words of the text (any case) of', B)
        equal(mine(r['allCaseInsensitiveWordCounts']), lower(main + notes), 'words (any case) of', B)
        equal((r['wordCount'], r['uniqueWordCount']), (sum(r['allWordCounts'].values()), len(r['allWordCounts'])), 'number of words of', B)
        rec.interesting(len(main) > 3 and extras)
    all_ = bible.discoveryResults['ALL']
    equal({k: all_[k] for k in total}, dict(total), 'discovered for the Bible')
    halves = {'OT': 'GEN EXO PSA PRO SNG LAM OBA JNA'.split(), 'DC': ['TOB']}
    for bk in case:
        B = bk['BBB']
        half = next((h for h in halves if B in halves[h]), 'NT')
        by[half].append(B)
        r = bible.discoveryResults[B]
        for k, flag in (('NotStarted', 'notStarted'), ('SeemsFinished', 'seemsFinished'), ('PartlyDone', 'partlyDone')):
            if r[flag]: by[k].append(B); by[half + k].append(B)
        for k, v in r.items():
            if k.endswith('Count') and k != 'uniqueWordCount': halfsum[half + k] += v
    for k in ('OT', 'NT', 'DC'): equal((all_.get(k + 'BookCodes', []), all_.get(k + 'BookCount', 0)), (order(by[k]), len(by[k])), k, 'books')
    for k in ('NotStarted', 'SeemsFinished', 'PartlyDone'):
        for h in ('', 'OT', 'NT', 'DC'): equal(all_.get(h + k + 'BookCodes', []), order(by[h + k]), h, k)
    equal({k: all_.get(k) for k in halfsum}, dict(halfsum), 'discovered for each testament')
    equal(all_['percentageProgressByVerse'], '%d%%' % round(total['completedVerseCount'] * 100 / total['verseCount']), 'progress')
    for h in ('OT', 'NT', 'DC'):
        if by[h]: equal(all_[h + 'percentageProgressByVerse'], '%d%%' % round(halfsum[h + 'completedVerseCount'] * 100 / halfsum[h + 'verseCount']), 'progress of', h)
    rec.label(*(h for h in ('OT', 'NT', 'DC') if by[h]))
    equal(all_['wordCount'], sum(bible.discoveryResults[bk['BBB']]['wordCount'] for bk in case), 'number of words')
    sums = Counter()
    for bk in case: sums.update(bible.discoveryResults[bk['BBB']]['allWordCounts'])
    equal(all_['allWordCounts'], dict(sums), 'words of the Bible')


SUBS = [
    Sub('versification', cases, run, 700, rule='verses left out, combined or reordered', shards=4),
    Sub('discovery', counted, run_discovery, 350, rule='more than 3 different words, and notes or figures', shards=3),
]
