"""C05: the section index divides a book into consecutive, complete sections."""
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C05'


def setup():
    global G
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


def load(bk):
    with TempDir() as d, quiet():
        ld.write_usfm(d, [bk])
        b = ld.load_usfm(d)
        b.discover()
        b.makeSectionIndex()
        return b, b[bk['BBB']]


HEADINGS = ('s1', 'ms1', 'is1')


def run(bk, rec):
    bible, book = load(bk)
    es = list(book)
    rows = [(e.getMarker(), e.getCleanText()) for e in es]
    if any(m in HEADINGS and not t for m, t in rows): raise Discard()  # a heading of nothing but notes names no section
    ids = {id(e): i for i, e in enumerate(es)}
    ix = book._SectionIndex
    items = list(ix.items())
    equal(len(ix), len(items), 'len')
    equal(list(ix), [k for k, _ in items], 'keys')
    heads = [i for i, r in enumerate(rows) if r[0] in HEADINGS]
    rec.interesting(len(items) > 3)
    equal(items[0][0], ('-1', '0'), 'first section')
    equal((items[0][1].getStartIndex(), items[0][1].getSectionNameReason()), (0, (bk['BBB'], 'Headers')), 'first section')
    # where each line is
    C, where = '-1', []
    V = None
    for i, (m, t) in enumerate(rows):
        if m == 'c': C, V = t, None
        elif m == 'v': V = t
        where.append((C, V))
    pos, parts = 0, {}
    for n, (key, e) in enumerate(items):
        a, b = e.getStartIndex(), e.getEndIndex()
        check(pos <= a <= b, 'sections in order, without overlap', key, a, b, 'after', pos)
        lost = [rows[i] for i in range(pos, a) if rows[i][0] in HEADINGS + ('v', 'v~', 'p~', 'ip', 'd')]
        check(not lost, 'not in any section', lost, 'before', key)
        pos = b + 1
        equal(e.getEntryCount(), b + 1 - a, 'count')
        got = [ids[id(x)] for x in ix.getSectionEntries(key)]
        equal(got, list(range(a, b + 1)), 'lines of section', key)
        x, c = ix.getSectionEntriesWithContext(key)
        equal([ids[id(y)] for y in x], got, 'lines of section with context', key)
        equal((e[0], e[1], e[2], e[3], e[5], e[4], len(e)), e.getEndCV() + (a, b) + e.getSectionNameReason() + (7,), 'fields')
        check(key in ix and ix[key] is e, 'contains', key)
        name, reason = e.getSectionNameReason()
        # named after its heading(s)
        mine = [i for i in heads if a <= i <= b]
        for i in mine:
            check(rows[i][1] in name.split('/') or rows[i][1] in name, 'heading', rows[i], 'is in section', key, repr(name))
        if reason in HEADINGS: equal(([rows[a]], mine), ([(reason, name)], [a]), 'a section starts at its heading', key)
        if '/' not in reason: check(len(mine) <= 1, 'one heading in a section', [rows[i] for i in mine], key)
        # from its first verse to its last
        if key[0] == '-1': equal((key, e.getEndCV()), (('-1', str(a)), ('-1', str(b))), 'introduction section', name)
        C = where[b][0]
        if key[0] != '-1' and n:
            first = next((i for i in range(a, b + 1) if rows[i][0] in ('v', 'v~', 'p~')), None)
            if first is not None:
                prev = items[n - 1][1]
                empty = not any(rows[i][0] in ('v', 'v~', 'p~') for i in range(prev.getStartIndex(), prev.getEndIndex() + 1))
                if rows[first][0] == 'v':
                    V = rows[first][1].split('-')[0]
                    # (a heading without any verses, such as a major heading, takes the number of the verse after it)
                    check(key == (where[first][0], V) or empty and key == (where[first][0], V + 'a'), 'first verse of section', name, 'is', V, 'but its key is', key)
                else:
                    rec.label('mid-verse')
                    parts[where[first]] = letter = chr(ord(parts.get(where[first], 'a')) + 1)
                    if letter > 'b': rec.label('two headings in a verse')
                    check(key in [(where[first][0], x + letter) for x in where[first][1].split('-')], 'first (part) verse of section', name, where[first], letter, key)
                last = max(i for i in range(a, b + 1) if rows[i][0] in ('v', 'v~', 'p~'))
                end = where[last][1].split('-')[-1]
                nxt = next((i for i in range(b + 1, len(rows)) if rows[i][0] in ('v', 'v~', 'p~')), None)
                if nxt is not None and rows[nxt][0] != 'v': end += parts.get(where[nxt], 'a')
                equal(e.getEndCV(), (where[last][0], end), 'last verse of section', key, name)
    lost = [r for r in rows[pos:] if r[0] in HEADINGS + ('v', 'v~', 'p~')]
    check(not lost, 'not in any section', lost)
    equal(pos, len(rows), 'the last section ends with the book')
    if not bk.get('plain'): return
    # without headings, the sections are the chapters
    chapters = [r[1] for r in rows if r[0] == 'c']
    mains = [(k, e) for k, e in items if k[0] != '-1']
    equal([k[0] for k, e in mains], chapters, 'a section for each chapter')
    starts = [i for i, r in enumerate(rows) if r[0] == 'c']
    equal([(e.getStartIndex(), e.getEndIndex()) for k, e in mains], list(zip(starts, [x - 1 for x in starts[1:]] + [len(rows) - 1])), 'lines of the chapters')
    for k, e in mains:
        name, reason = e.getSectionNameReason()
        equal((reason, name.split(' ')[-1]), ('c', k[0]), 'name of a chapter section')


STRATEGY = lambda **k: g.book(words=False, figs=False, empty_verses=False, **k)

SUBS = [
    Sub('dense', lambda: STRATEGY(heads=['s1', 's1', 's', 's2'], head_rate=1, verse_heads=True, intro=False), run, 300, rule='more than three sections', shards=2),
    Sub('chapters', lambda: STRATEGY(headings=False).map(lambda b: dict(b, plain=True)), run, 200, rule='more than three sections', shards=1),
    Sub('sections', lambda: STRATEGY(), run, 400, rule='more than three sections', shards=4),
]
