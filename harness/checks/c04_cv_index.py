"""C04: the chapter/verse index finds every line of a book exactly once."""
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld
from cvmodel import leading, reference_index, reference_contexts, find

PROPERTY = 'C04'


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


def load(bk):
    with TempDir() as d, quiet():
        ld.write_usfm(d, [bk])
        return ld.load_usfm(d)[bk['BBB']]


def ident(entries, ids):
    return [ids[id(e)] for e in entries]


def check_index(book, rec, chapters_only=True):
    es = list(book)
    ids = {id(e): i for i, e in enumerate(es)}
    rows = [(e.getMarker(), e.getCleanText()) for e in es]
    want, owner = reference_index(rows)
    ix = book._CVIndex
    equal(list(ix), list(want), 'index keys')
    equal(len(ix), len(want), 'len')
    seen = []
    ctx = reference_contexts(rows, want)
    for key, entry in ix.items():
        check(key in ix, 'contains', key)
        got = ident(ix.getVerseEntries(key), ids)
        equal(got, want[key], 'lines of', key)
        equal(list(range(entry.getEntryIndex(), entry.getNextEntryIndex())), want[key], 'index entry of', key)
        equal((entry.getEntryCount(), entry[0], entry[1], entry[2], ix[key]), (len(want[key]), want[key][0], len(want[key]), ctx[key], entry), 'index entry', key)
        equal(entry.getContextList(), ctx[key], 'context of', key)
        seen += got
        for strict in (True, False):
            a, b = ix.getVerseEntriesWithContext(key, strict=strict)
            equal((ident(a, ids), b), (want[key], ctx[key]), 'lines with context of', key)
    equal(seen, list(range(len(es))), 'every line once, in order')
    # the index does what it says after being asked many times: the book is as before
    return es, ids, rows, want, ctx, ix


def missing(f, *a, **k):
    try: r = f(*a, **k)
    except KeyError: return
    raise Violation('%r is not in the book but was answered with %s' % (a, short(r)))


def run_verses(bk, rec):
    book = load(bk)
    es, ids, rows, want, ctx, ix = check_index(book, rec)
    cs = [t for m, t in rows if m == 'c']
    rec.interesting(len(want) > 8)
    if any('-' in v for c, v in want if c != '-1'): rec.label('bridge')
    # any verse number: with and without looking inside bridges
    for C in cs + ['0', '99', str(int(cs[-1]) + 1)]:
        top = max([leading(v.split('-')[-1]) for c, v in want if c == C] or [0])
        for V in [str(n) for n in range(0, top + 3)] + [str(n) + s for n in range(1, top + 1) for s in 'ac']:
            key = (C, V)
            n = leading(V)
            equal(key in ix, key in want, 'contains', key)
            if key not in want:
                missing(ix.getVerseEntries, key)
                missing(ix.getVerseEntriesWithContext, key, strict=True)
            same = [k for k in want if k[0] == C]
            # without strictness: the verse, else without its suffix, else the first bridge or part that holds it
            exp = find(want, C, V)
            if not exp: missing(ix.getVerseEntriesWithContext, key)
            else:
                a, b = ix.getVerseEntriesWithContext(key)
                equal((ident(a, ids), b), ([i for k in exp for i in want[k]], ctx[exp[0]]), 'lines with context of', key)
                if key not in want: rec.label('fallback')
            # complete: everything that holds the verse, once
            exp = find(want, C, V, complete=True)
            if not exp: missing(ix.getVerseEntriesWithContext, key, complete=True)
            else:
                a, b = ix.getVerseEntriesWithContext(key, complete=True)
                equal((ident(a, ids), b), ([i for k in exp for i in want[k]], ctx[exp[0]]), 'complete lines with context of', key)
            if V.isdigit() and key not in want:
                start = [k for k in same if k[1].startswith(V + '-')]
                if not start: missing(ix.getVerseEntries, key, strict=False)
                else: equal(ident(ix.getVerseEntries(key, strict=False), ids), want[start[0]], 'bridge that starts with', key)
    intro = sum(1 for k in want if k[0] == '-1')
    for V in range(intro): equal(ident(ix.getVerseEntries(('-1', str(V))), ids), [V], 'introduction line', V)
    missing(ix.getVerseEntries, ('-1', str(intro)))
    missing(ix.getVerseEntriesWithContext, ('-1', str(intro)))
    # the text found for a verse is the verse's text in the file
    texts, order = g.verse_text(bk)
    for key in order:
        equal([e.getCleanText() for e in ix.getVerseEntries(key) if e.getMarker() in ('v~', 'p~')], texts[key], 'text of', key)


@st.composite
def gappy(draw):
    bk = draw(g.book(BBB=draw(st.sampled_from([b for b in g.BOOKS if b not in g.SINGLE])), notes=False, words=False, figs=False, max_chapters=4, max_verses=4))
    n = sum(1 for l in bk['lines'] if l[0] == 'c')
    nums = draw(st.lists(st.integers(1, 12), min_size=n, max_size=n, unique=True))
    if draw(st.integers(0, 3)): nums.sort()
    it = iter(nums)
    for l in bk['lines']:
        if l[0] == 'c': l[1] = str(next(it))
    return bk


def run_chapters(bk, rec):
    book = load(bk)
    es, ids, rows, want, ctx, ix = check_index(book, rec)
    cs = [t for m, t in rows if m == 'c']
    nums = [int(c) for c in cs]
    rec.interesting(len(cs) > 1)
    if nums != list(range(1, len(nums) + 1)): rec.label('not consecutive')
    owner = {}
    for (C, V), lines in want.items(): owner.setdefault(C, []).extend(lines)
    for C in sorted(set(cs) | {str(n) for n in range(0, 14)} | {'-1'}):
        if C not in owner:
            missing(ix.getChapterEntries, C)
            missing(ix.getChapterEntriesWithContext, C)
            continue
        equal(ident(ix.getChapterEntries(C), ids), owner[C], 'lines of chapter', C)
        a, b = ix.getChapterEntriesWithContext(C)
        equal((ident(a, ids), b), (owner[C], ctx[(C, '0')]), 'lines with context of chapter', C)


@st.composite
def frontback(draw):
    B = draw(st.sampled_from(['FRT', 'GLS', 'INT', 'BAK', 'XXA']))
    lines = [g.L('id', B + ' - Test'), g.L('h', 'Front')]
    for _ in range(draw(st.integers(1, 8))):
        m = draw(st.sampled_from(['ip', 'mt1', 'is1', 'p', 'm', 's1', 'q1', 'li1', 'k', 'pc', 'ili1', 'toc1']))
        lines.append(g.L(m, draw(g.parts(words=False, figs=False, hi=2))))
    return {'BBB': B, 'lines': lines}


def run_front(bk, rec):
    lines = [(l[0], g.render_text(l[2])) for l in bk['lines']]
    bible, book = ld.book_from_lines(lines, bk['BBB'])
    book.makeBookCVIndex()
    es = list(book)
    ids = {id(e): i for i, e in enumerate(es)}
    ix = book._CVIndex
    equal(list(ix), [('-1', str(i)) for i in range(len(es))], 'keys of a book without chapters')
    for i in range(len(es)): equal(ident(ix.getVerseEntries(('-1', str(i))), ids), [i], 'line', i)
    missing(ix.getVerseEntries, ('-1', str(len(es))))
    missing(ix.getVerseEntries, ('1', '1'))
    equal(ident(ix.getChapterEntries('-1'), ids), list(range(len(es))), 'the whole book')
    missing(ix.getChapterEntries, '1')
    rec.interesting(len(es) > 4)


def probe_noncontiguous():
    lines = [('id', 'MAT'), ('c', '1'), ('p', ''), ('v', '1 One'), ('v', '2 Two'), ('v', '3 Three'), ('v', '2 Two again')]
    bible, book = ld.book_from_lines(lines, 'MAT')
    book.makeBookCVIndex()
    equal([e.getCleanText() for e in book._CVIndex.getVerseEntries(('1', '2')) if e.getMarker() == 'v~'], ['Two', 'Two again'], 'verse 2')


SUBS = [
    Sub('verses', lambda: g.book(notes=False, words=False, figs=False, swaps=True), run_verses, 700, rule='more than 8 index entries', shards=4),
    Sub('adjacent repeats', lambda: g.book(notes=False, words=False, figs=False, repeats=True, intro=False), run_repeats if False else run_verses, 0),
    Sub('chapters', gappy, run_chapters, 300, rule='more than one chapter', shards=2),
    Sub('front', frontback, run_front, 250, rule='more than 4 lines', shards=1),
]
SUBS = [s for s in SUBS if s.quick]
PROBES = [Probe('noncontiguous-duplicate', 'verse 2 written twice with verse 3 between (MAT 1: v1 v2 v3 v2): looking up 1:2 gives v2 and v3, not the second v2', probe_noncontiguous)]
