"""C06: verse text, context and range queries return exactly the requested verses."""
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld
from cvmodel import leading, reference_index, reference_contexts, find

PROPERTY = 'C06'


def setup():
    global G, SimpleVerseKey
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey


# what a line contributes to the text of a verse: (before, after), or None for nothing
SYMBOLS = {'id': ('ID: ', ''), 'd': ('⌂', '⌂'), 'p': ('¶', ''), 'm': ('§', ''), 'mi': ('◊', ''), 'li1': ('•', ''), 'li2': ('◦', ''),
           'q1': ('₁', ''), 'q2': ('₂', ''), 'q3': ('₃', ''), 'q4': ('₄', ''), 'v~': ('', ''), 'p~': ('', '')}
HEADS = {'s1': '¹', 's2': '²', 's3': '³', 's4': '⁴'}


class Model:
    def __init__(self, book):
        self.es = list(book)
        self.ids = {id(e): i for i, e in enumerate(self.es)}
        self.rows = [(e.getMarker(), e.getCleanText()) for e in self.es]
        self.want, self.owner = reference_index(self.rows)
        self.ctx = reference_contexts(self.rows, self.want)
        self.chapters = {}
        for (C, V), ls in self.want.items(): self.chapters.setdefault(C, []).extend(ls)
        self.keys = list(self.want)
        # verse numbers per chapter
        self.top = {C: max([leading(v.split('-')[-1]) for c, v in self.keys if c == C] or [0]) for C in self.chapters if C != '-1'}

    def lines(self, keys): return [i for k in keys for i in self.want[k]]

    def snapshot(self): return [(e.getMarker(), e.getOriginalMarker(), e.getOriginalText(), e.getAdjustedText(), e.getCleanText()) for e in self.es]

    def range(self, start, end, strict):
        """Line numbers of an inclusive range, or None where it is to be reported."""
        if start not in self.want: return None
        keys, (C, V) = [start], start
        n = leading(V) + 1
        c, endC, endV = int(C), int(end[0]), leading(end[1])
        if C == '-1': return self.lines([start] + [('-1', str(i)) for i in range(n, endV + 1) if ('-1', str(i)) in self.want])
        while (c, n) <= (endC, endV):
            got = find(self.want, str(c), str(n), complete=True)
            if got: keys += [k for k in got if k not in keys]
            elif c < endC and n > self.top.get(str(c), 0):
                c, n = c + 1, 0
                if (str(c), '0') in self.want: keys.append((str(c), '0'))
                elif strict: return None
            elif strict: return None
            n += 1
            if n > 400: break
        return self.lines(keys)

    def text(self, keys, full, noncanonical):
        t = ''
        for i in self.lines(keys):
            e, m = self.es[i], self.rows[i][0]
            body = e.getOriginalText() if full else self.rows[i][1]
            if m in HEADS:
                if noncanonical: t += HEADS[m] + body + HEADS[m]
            elif m in SYMBOLS: t += SYMBOLS[m][0] + body + SYMBOLS[m][1]
        return t


def ident(entries, ids):
    """Which lines these are (by what they say: a pickled or copied entry would do as well)."""
    return [ids.get(id(e), ('not a line of the book', e.getMarker(), e.getCleanText())) for e in entries]


def reported(what, f, *a, **k):
    try: r = f(*a, **k)
    except KeyError: return
    raise Violation('%s: %r is not there but was answered with %s' % (what, a, short(r)))


def load(books):
    with TempDir() as d, quiet():
        ld.write_usfm(d, books)
        b = ld.load_usfm(d)
        for x in b: check(x._CVIndex is not None, 'indexed', x.BBB)
        return b


def as_ref(BBB, key, kind):
    if kind == 1: return SimpleVerseKey(BBB, key[0], key[1]) if key[1].isdigit() and key[0] != '-1' else (BBB,) + key
    if kind == 2: return (BBB,) + key + ('',)
    return (BBB,) + key


def run(case, rec):
    bible = load(case['books'])
    order = bible.getBookList()
    equal(sorted(order), sorted(bk['BBB'] for bk in case['books']), 'books')
    equal((len(bible), [b.BBB for b in bible], [bible[i].BBB for i in range(len(order))]), (len(order), order, order), 'iteration')
    for B in order: check(B in bible and bible[B].BBB == B, 'contains', B)
    M = {B: Model(bible[B]) for B in order}
    before = {B: m.snapshot() for B, m in M.items()}
    texts = {bk['BBB']: g.verse_text(bk)[0] for bk in case['books']}
    asked = 0
    for kind, i, j, k, flag, ref in case['queries']:
        B = order[i % len(order)]
        m = M[B]
        key = m.keys[j % len(m.keys)]
        if kind == 'verse':
            strict, complete = flag % 2 == 1, flag // 2 % 2 == 1
            if k % 3 == 1 and key[0] != '-1': key = (key[0], str(k % 9))
            elif k % 3 == 2 and key[0] != '-1': key = (key[0], str(leading(key[1]) or 1) + 'ab'[k % 2])
            exp = find(m.want, key[0], key[1], strict, complete)
            if strict and complete: continue
            r = as_ref(B, key, ref)
            if not exp: reported('verse', bible.getContextVerseData, r, strict, complete); rec.label('missing verse')
            else:
                got = bible.getContextVerseData(r, strict, complete)
                equal((ident(got[0], m.ids), got[1]), (m.lines(exp), m.ctx[exp[0]]), 'lines and context of', r, strict, complete)
                if not strict and not complete: equal(ident(bible.getVerseDataList(r), m.ids), m.lines(exp), 'data list of', r)
            asked += 1
        elif kind == 'chapter':
            C = key[0] if k % 3 else str(k % 14)
            if C not in m.chapters: reported('chapter', bible.getContextVerseData, (B, C)); rec.label('missing chapter')
            else:
                got = bible.getContextVerseData((B, C))
                first = ('-1', '0') if C == '-1' else (C, '0')
                equal((ident(got[0], m.ids), got[1]), (m.chapters[C], m.ctx[first]), 'lines and context of chapter', B, C)
            asked += 1
        elif kind == 'book':
            got = bible.getContextVerseData((B,))
            equal((ident(got[0], m.ids), got[1]), (list(range(len(m.es))), []), 'lines of book', B)
        elif kind == 'text':
            full, non = flag % 2 == 1, flag // 2 % 2 == 0
            if key[0] != '-1' and k % 3 == 1: key = (key[0], str(k % 9))
            exp = find(m.want, key[0], key[1])
            r = as_ref(B, key, ref)
            if not exp: reported('text', bible.getVerseText, r, full)
            else:
                got = bible.getVerseText(r, full, non)
                equal(got, m.text(exp, full, non), 'text of', r, full, non)
                if not full and exp[0] in texts[B]:  # the words of the file
                    at, rest = 0, got
                    for t in texts[B][exp[0]]:
                        at = rest.find(t)
                        check(at >= 0, 'words of', r, t, 'in', got)
                        rest = rest[at + len(t):]
                    rec.label('words')
            asked += 1
        elif kind == 'range':
            strict = flag % 3 != 0
            if key[0] != '-1' and not key[1].isdigit() and '-' not in key[1]: continue  # (a range from a part verse isn't claimed)
            if key[0] == '-1': end = ('-1', str(int(key[1]) + k))
            else:
                C = str(int(key[0]) + flag // 3 % 3)
                end = (C, str((leading(key[1]) if C == key[0] else 0) + k % 9))
            a, b = as_ref(B, key, ref), as_ref(B, end, ref)
            exp = m.range(key, end, strict)
            if exp is None: reported('range', bible.getContextVerseDataRange, a, b, strict=strict); rec.label('incomplete range')
            else:
                got = bible.getContextVerseDataRange(a, b, strict=strict)
                equal((ident(got[0], m.ids), got[1]), (exp, m.ctx[key]), 'lines and context of range', a, b, strict)
                if end[0] != key[0]: rec.label('range over chapters')
                if exp != m.lines([key]): asked += 1
        elif kind == 'missing book':
            B = next(x for x in ('ZEC', 'REV', 'TOB') if x not in M)
            for f in (lambda: bible.getContextVerseData((B, '1', '1')), lambda: bible.getVerseText((B, '1', '1')), lambda: bible.getVerseDataList((B, '1', '1')),
                      lambda: bible.getContextVerseDataRange((B, '1', '1'), (B, '1', '2')), lambda: bible.getContextVerseData((B,)), lambda: bible.getContextVerseData((B, '1'))):
                check(f() is None, 'a missing book', B)
            check(B not in bible, 'a missing book', B)
        elif kind == 'books' and len(order) > 1:
            i1, i2 = sorted((i % len(order), k % len(order)))
            if i1 == i2: continue
            B, B2 = order[i1], order[i2]
            m, m2 = M[B], M[B2]
            key = m.keys[j % len(m.keys)]
            if key[0] == '-1' or (not key[1].isdigit() and '-' not in key[1]): continue
            key2 = [x for x in m2.keys if x[0] != '-1'][k % (len(m2.keys) - len(m2.chapters['-1']))]
            end2 = (key2[0], str(leading(key2[1])))
            strict = flag % 3 != 0
            lastC = m.keys[-1][0]
            p1 = m.range(key, (lastC, str(m.top[lastC])), strict)
            p2 = m2.range(('1', '0'), end2, strict)
            a, b = as_ref(B, key, ref), as_ref(B2, end2, ref)
            if p1 is None or p2 is None: reported('range', bible.getContextVerseDataRange, a, b, strict=strict)
            else:
                got = bible.getContextVerseDataRange(a, b, strict=strict)
                ids, exp = dict(m.ids), list(p1)
                for X in order[i1 + 1:i2]: exp += [(X, n) for C, ls in M[X].chapters.items() if C != '-1' for n in ls]
                exp += [(B2, n) for n in p2]
                for X in order[i1 + 1:i2 + 1]: ids.update({e: (X, n) for e, n in M[X].ids.items()})
                have = ident(got[0], ids)
                # (whether the line that starts the first chapter of the last book belongs to the range is open)
                start = (B2, m2.want[('1', '0')][0])
                strip = lambda ls: [x for x in ls if x not in [(B2, n) for n in m2.want[('1', '0')]]]
                equal((strip(have), got[1]), (strip(exp), m.ctx[key]), 'lines and context of range', a, b, strict)
                rec.label('range over books')
                asked += 1
    rec.interesting(asked > 3)
    for B in order: equal(M[B].snapshot(), before[B], 'the book after the queries', B)
    for B in order: equal([M[B].ids.get(id(e)) for e in bible[B]], list(range(len(M[B].es))), 'the lines of the book after the queries', B)


@st.composite
def cases(draw, n=1):
    names = draw(st.lists(st.sampled_from([b for b in g.BOOKS if b not in g.SINGLE] if n > 1 else g.BOOKS), min_size=1 if n == 1 else 2, max_size=n, unique=True))
    swaps = draw(st.booleans())
    books = [draw(g.book(BBB=B, max_chapters=3, words=False, figs=False, max_verses=5, swaps=swaps, gaps=not swaps)) for B in names]
    kinds = ['verse', 'verse', 'chapter', 'book', 'text', 'text', 'range', 'range', 'range', 'missing book'] + (['books'] * 4 if n > 1 else [])
    big = st.integers(0, 200)
    q = st.tuples(st.sampled_from(kinds), st.integers(0, 3), big, st.integers(0, 40), st.integers(0, 11), st.integers(0, 2)).map(list)
    return {'books': books, 'queries': draw(st.lists(q, min_size=4, max_size=25))}


SUBS = [
    Sub('one book', cases, run, 700, rule='more than 3 queries that name lines', shards=4),
    Sub('several books', lambda: cases(n=4), run, 350, rule='more than 3 queries that name lines', shards=3),
]
