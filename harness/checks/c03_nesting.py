"""C03: every loaded book has properly opened and closed structure markers."""
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C03'


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


PARA = {'p', 'pc', 'pr', 'm', 'mi', 'pm', 'pmo', 'pmc', 'pmr', 'cls', 'nb'} | {a + b for a in ('pi', 'ph', 'q', 'qm', 'li') for b in ('', '1', '2', '3', '4')} | {'qr', 'qc', 'qd', 'qa'}


HEADINGS = {'s1', 's2', 's3', 's4'}


def load(bk):
    with TempDir() as d, quiet():
        ld.write_usfm(d, [bk])
        return ld.load_usfm(d)[bk['BBB']]


def check_structure(entries, paragraphs):
    """paragraphs: the paragraph-level markers that get an end marker (others have none)."""
    open_, order = {}, []
    cur_c = cur_v = None
    for i, e in enumerate(entries):
        m, t = e.getMarker(), e.getCleanText()
        if m[0] == '¬':
            k = m[1:]
            check(k in open_, 'closing marker without its opening one', m, 'at line', i)
            if k == 'c': equal(t, open_['c'], 'chapter number of ¬c')
            elif k == 'v': equal(t, open_['v'], 'verse number of ¬v')
            if k == 'c': check('v' not in open_, 'a verse is open at the end of its chapter', i)
            if k == 'chapters': check('c' not in open_, 'a chapter is open at the end of the chapters', i)
            if k == 'chapters': check(not (set(open_) & paragraphs), 'a paragraph is open at', m, sorted(open_)) # (a paragraph may go on in the next chapter)
            if k == 'headers': check(not any(x in open_ for x in ('intro', 'chapters', 'c', 'v')), 'order of sections', i)
            if k == 'intro': check(not any(x in open_ for x in ('iot', 'ilist', 'chapters', 'c', 'v')), 'order of sections', i)
            del open_[k]
            continue
        if m in ('c', 'v', 'headers', 'intro', 'ilist', 'chapters', 'list', 'iot', 'ms1', 'ms2', 'ms3') or m in paragraphs:
            check(m not in open_, 'opened again before it was closed:', m, 'at line', i)
            if m == 'chapters': check(not set(open_) - {'chapters'}, 'open at the first chapter:', sorted(open_))
            if m == 'intro': check('headers' not in open_, 'headers open in the introduction')
            if m == 'c': check('chapters' in open_, 'chapter outside the chapters'); check('v' not in open_, 'verse open at a new chapter', sorted(open_))
            if m == 'v': check('c' in open_, 'verse outside a chapter')
            if m[:2] == 'ms': check(not (set(open_) & paragraphs), 'heading', m, 'inside', sorted(set(open_) & paragraphs), 'at line', i)
            if m in paragraphs:
                other = set(open_) & paragraphs
                check(not other, 'paragraph', m, 'opened inside', sorted(other), 'at line', i)
            open_[m] = t
        elif m in HEADINGS: check(not (set(open_) & paragraphs), 'section heading', m, 'inside', sorted(set(open_) & paragraphs), 'at line', i)
        elif m in ('v~',): check('v' in open_, 'verse text outside a verse', i)
    check(not open_, 'still open at the end of the book', sorted(open_))


def run(bk, rec):
    book = load(bk)
    from BibleOrgSys.Internals.InternalBibleInternals import BOS_END_MARKERS
    es = list(book)
    n = sum(1 for e in es if e.getMarker()[0] == '¬')
    rec.interesting(n > 10)
    for k in ('intro', 'ilist', 'iot', 'list', 'ms1', 'headers', 'v='):
        if any(e.getMarker() == k for e in es): rec.label(k)
    check_structure(es, PARA & {x[1:] for x in BOS_END_MARKERS})
    # the text and its order is that of the lines
    want = [(r[0], r[2], r[3]) for r in g.model(bk)]
    equal([(e.getMarker(), e.getAdjustedText(), e.getCleanText()) for e in g.content(es)], want, 'content')
    # every chapter, verse and paragraph of the file is there as an opening and a closing marker
    for k in ('c', 'v') + tuple(sorted(PARA & {x[1:] for x in BOS_END_MARKERS})):
        a = sum(1 for r in want if r[0] == k)
        equal((sum(1 for e in es if e.getMarker() == k), sum(1 for e in es if e.getMarker() == '¬' + k)), (a, a), 'opening and closing markers of', k)
    for k in ('headers', 'intro', 'chapters'):
        check(sum(1 for e in es if e.getMarker() == k) <= 1, k, 'more than once')
    check(any(e.getMarker() == 'chapters' for e in es), 'no chapters section')
    if any(r[0].startswith(('ip', 'is', 'im', 'io', 'ili')) for r in want): check(any(e.getMarker() == 'intro' for e in es), 'no introduction section')
    # chapter number lines: one c# per chapter with verses, before its first verse (or d)
    cs = [r[1] for r in want if r[0] == 'c']
    hashes = [e.getCleanText() for e in es if e.getMarker() == 'c#']
    equal(len(hashes), len(cs), 'printable chapter numbers')
    # v= always names the next verse
    for i, e in enumerate(es):
        if e.getMarker() == 'v=':
            nxt = next((x.getCleanText() for x in es[i:] if x.getMarker() == 'v'), None)
            equal(e.getCleanText(), nxt, 'v= before a heading')
            check(es[i + 1].getMarker() in ('s1', 's2', 's3', 's4', 'sp', 'd', 'ms1', 'ms2', 'sr', 'r', 'mr', 'qa', 's', 'rem'), 'line after v=', es[i + 1].getMarker())


SUBS = [
    Sub('structure', lambda: g.book(notes=False, words=False, figs=False), run, 1500, rule='more than 10 closing markers', shards=4),
    Sub('repeats', lambda: g.book(notes=False, words=False, figs=False, repeats=True, swaps=True), run, 200, rule='more than 10 closing markers', shards=2),
    Sub('headings in verses', lambda: g.book(notes=False, words=False, figs=False, verse_heads=True, head_rate=2, max_chapters=2), run, 400, rule='more than 10 closing markers', shards=2),
]
