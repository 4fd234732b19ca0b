"""C18: versification systems against the XML tables; range expansion against a reference model."""
import types
from hypothesis import strategies as st
from core import *
import refdata

PROPERTY = 'C18'


def setup():
    global VS, BO, V, ORDERS, CODES, SYS, ORD
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference import BibleVersificationSystems as VS, BibleBookOrders as BO
    V, ORDERS = refdata.versifications(), refdata.book_orders()
    import xml.etree.ElementTree as ET
    CODES = [e.text for e in ET.parse(refdata.DATA + '/BibleBooksCodes.xml').getroot().iter('referenceAbbreviation')]
    SYS = {n: VS.BibleVersificationSystem(n) for n in V}
    ORD = {n: BO.BibleBookOrderSystem(n) for n in ORDERS}


def run_table(name, rec):
    rec.interesting()
    cv, om = V[name]
    S = VS.BibleVersificationSystems().loadData()
    equal(sorted(S.getAvailableVersificationSystemNames()), sorted(V), 'names')
    equal(len(S), len(V), 'number of systems')
    check(name in S and S.isValidVersificationSystemName(name), 'valid name', name)
    check((name + 'x') not in S and not S.isValidVersificationSystemName(name + 'x') and S.getVersificationSystem(name + 'x') is None, 'invalid name')
    s = VS.BibleVersificationSystem(name)
    equal(s.getVersificationSystemName(), name, 'name')
    equal((len(s), s.numAvailableBooks()), (len(cv), len(cv)), 'books')
    equal(list(s), list(cv), 'iteration order')
    for B in CODES:
        equal(B in s, B in cv, 'contains', B)
        if B not in cv:
            equal((s.getNumChapters(B), s.isSingleChapterBook(B), s.getNumVerses(B, '1')), (None, None, 0), B)
            continue
        b = cv[B]
        equal((s.getNumChapters(B), bool(s.isSingleChapterBook(B))), (b.n, b.n == 1), B, 'chapters')
        equal(s.getNumVersesList(B), b.list(), B, 'verses list')
        equal(s.getTotalNumVerses(B), sum(b.list()), B, 'total verses')
        for c in list(b.verses) + [0, b.n + 1, 200]:
            equal(s.getNumVerses(B, str(c)), b.get(c), B, c)
            equal(s.getNumVerses(B, c), b.get(c), B, c, 'int')
        want = [(str(c), str(v)) for c, v in om.get(B, [])]
        equal([tuple(x) for x in (s.getOmittedVerseList(B) or [])], want, B, 'omitted')
        if want: equal([tuple(x) for x in s.getOmittedVerseList(B, fullRefs=True)], [(B,) + x for x in want], B, 'omitted, full')
        for c, v in om.get(B, []):
            for d in (-1, 0, 1):
                o = (c, v + d) in om[B]
                equal(s.isOmittedVerse((B, str(c), str(v + d), '')), o, B, c, v + d, 'omitted')
                equal(s.isOmittedVerse((B, c, v + d, '')), o, B, c, v + d, 'omitted (int)')
                equal(s.isValidBCVRef((B, str(c), str(v + d), '')), not o and 1 <= v + d <= b.get(c), B, c, v + d, 'valid')
    for B in CODES:
        if B in cv:
            b = cv[B]
            for c in list(b.verses) + [0, b.n + 1]:
                for v in (0, 1, b.get(c), b.get(c) + 1):
                    equal(s.isValidBCVRef((B, str(c), str(v), '')), 1 <= v <= b.get(c) and (c, v) not in om.get(B, []), name, B, c, v, 'valid')


def pick(L, i): return L[i % len(L)]


def valid_case():
    return st.tuples(st.sampled_from(sorted(V)), st.integers(0, 199), st.integers(-2, 160), st.integers(-1, 220), st.sampled_from(['', 'a', 'b']), st.booleans(), st.booleans()).map(list)


def run_valid(case, rec):
    name, bi, c, v, s, ext, near = case
    cv, om = V[name]
    B = pick(list(cv), bi) if near or bi < 120 else pick(CODES, bi)
    b = cv.get(B)
    if near and b:
        c = sorted(b.verses)[c % len(b.verses)] if c >= 0 else c
        if b.get(c): v = v % (b.get(c) + 3)
        if (B in om) and v % 3 == 0: c, v = pick(om[B], v)
    C = '-1' if c == -1 else '' if c == -2 else str(c)
    W = '' if v == -1 else str(v)
    if ext and C == '-1' and W == '': W = '0'
    if b is None: want = False
    elif ext and C == '-1': want = v <= 199
    elif C in ('', '-1') or c not in b.verses: want = False
    elif W == '': want = True
    elif ext and W == '0': want = True
    else: want = 1 <= v <= b.get(c) and (c, v) not in om.get(B, [])
    rec.label('valid' if want else 'invalid', 'extended' if ext else 'normal')
    if b is not None and (c, v) in om.get(B, []): rec.label('omitted')
    rec.interesting(b is not None and c in b.verses)
    equal(bool(SYS[name].isValidBCVRef((B, C, W, s), extended=ext)), want, 'validity of', name, (B, C, W, s), 'extended' if ext else '')


def range_case():
    return st.tuples(st.sampled_from(sorted(V)), st.sampled_from(sorted(ORDERS) + [None] * 4), st.integers(0, 200), st.sampled_from([0, 0, 0, 1, 1, 2, 3, -1, 5]),
                     st.integers(0, 199), st.sampled_from([0, 0, 1, 2, -1, 10, 1000]), st.integers(0, 199), st.integers(0, 199),
                     st.sampled_from(['', '', 'a', 'b']), st.sampled_from(['', '', 'a', 'c']), st.sampled_from([0, 0, 0, 0, 1, 2, 3])).map(list)


def run_range(case, rec):
    name, oname, bi, db, c1, dc, v1, v2, s1, s2, blank = case
    cv, om = V[name]
    order = ORDERS[oname] if oname else list(cv)
    books = [B for B in order if B in cv]
    if not books: raise Discard()
    i = bi % len(books)
    B1, B2 = books[i], books[max(0, min(len(books) - 1, i + db))]
    if not (cv[B1].regular and cv[B2].regular): rec.label('irregular table'); raise Discard()
    C1 = c1 % cv[B1].n + 1
    C2 = (max(1, min(cv[B2].n, C1 + dc))) if B1 == B2 else (dc * 7 + v2) % cv[B2].n + 1
    V1 = v1 % (cv[B1].get(C1) + 2)
    V2 = v2 % (cv[B2].get(C2) + 2)
    if dc == 0 and B1 == B2 and v2 % 5: V1, V2 = min(V1, V2), max(V1, V2)
    if blank & 1: V1 = s1 = ''
    if blank & 2: V2 = s2 = ''
    a, z = (B1, str(C1), str(V1), s1), (B2, str(C2), str(V2), s2)
    def ok(B, C, Ve): return Ve == '' or (1 <= Ve <= cv[B].get(C) and (C, Ve) not in om.get(B, []))
    want = None
    f = (C1, V1 if V1 != '' else 1)
    l = (C2, V2 if V2 != '' else cv[B2].get(C2))
    if ok(B1, C1, V1) and ok(B2, C2, V2):
        between = [B1]
        if B1 != B2:
            if oname is None: between = None
            else:
                p, q = order.index(B1), order.index(B2)
                between = order[p:q + 1] if p < q else None
        elif f >= l: between = None
        if between is not None:
            if not all(B in cv and cv[B].regular for B in between): rec.label('a book between has no table'); raise Discard()
            want = []
            for B in between:
                for c in cv[B].verses:
                    for v in range(1, cv[B].get(c) + 1):
                        if B == B1 and (c, v) < f or B == B2 and (c, v) > l: continue
                        want.append((B, str(c), str(v), s1 if (B, c, v) == (B1,) + f else s2 if (B, c, v) == (B2,) + l else ''))
    rec.label('refused' if want is None else '%d book(s)' % min(len(between), 4) if B1 != B2 else 'one chapter' if C1 == C2 else 'chapters')
    rec.interesting(want is not None and len(want) > 1)
    got = SYS[name].expandCVRange(a, z, 'x', ORD[oname] if oname else None)
    if want is None: check(got is None, 'range', a, z, 'should be refused but gave', short(got))
    else: equal(got, want, 'expansion of', name, oname, a, z)


def match_case():
    return st.tuples(st.sampled_from(sorted(V)), st.integers(0, 1 << 30), st.booleans(), st.sampled_from(['same', 'same', 'change', 'shorter', 'longer']), st.integers(0, 3)).map(list)


def run_match(case, rec):
    import random
    name, seed, aslist, kind, omit = case
    r = random.Random(seed)
    cv, om = V[name]
    books = [B for B in cv if r.random() < r.choice((.05, .3, 1))] or list(cv)[:1]
    scheme = {B: [[str(c), str(v)] for c, v in cv[B].verses.items()] for B in books}
    if kind != 'same':
        B = r.choice(books)
        L = scheme[B]
        if kind == 'change': k = r.randrange(len(L)); L[k][1] = str(max(1, int(L[k][1]) + r.choice((-1, 1))))
        elif kind == 'shorter' and len(L) > 1: L.pop()
        else: L.append([str(max(cv[B].verses) + 1), '10'])
    extra = None
    want_om = {}
    if omit and om:
        want_om = {B: list(om[B]) for B in om if r.random() < .5}
        if omit == 2 and want_om:
            B = r.choice(sorted(want_om)); want_om[B] = want_om[B][:-1] or want_om[B] + [(1, 1)]
        if omit == 3: want_om.setdefault(r.choice(list(cv)), []).append((1, 2))
        if want_om: extra = {'omitted': {B: [(str(c), str(v)) for c, v in L] for B, L in want_om.items()}}
    want = 0
    for n, (cv2, om2) in V.items():
        good = all(B in cv2 and all(int(c) in cv2[B].verses and cv2[B].get(int(c)) == int(v) for c, v in L) for B, L in scheme.items())
        good = good and all(B in om2 and set(om2[B]) == set(L) for B, L in want_om.items())
        want += good
    rec.label('matches %s' % min(want, 3), kind)
    rec.interesting(len(books) > 1)
    s = {B: ([tuple(x) for x in L] if aslist else dict(L)) for B, L in scheme.items()}
    equal(VS.BibleVersificationSystems().loadData().checkVersificationSystem('test', s, extra), want, 'number of matching systems for', sorted(s), kind, extra)


SUBS = [
    Sub('tables', None, run_table, 0, exhaustive=lambda: sorted(V), shards=6, rule='every versification system: all books, chapters, omitted verses'),
    Sub('validity', valid_case, run_valid, 8000, rule='non-trivial: book and chapter exist'),
    Sub('ranges', range_case, run_range, 6000, shards=3, rule='non-trivial: a range that is accepted'),
    Sub('matching', match_case, run_match, 500, shards=2, rule='non-trivial: two or more books'),
]
