"""C17: book orders and organisational systems against the XML tables."""
import types
from hypothesis import strategies as st
from core import *
import refdata

PROPERTY = 'C17'
KEYS = ('versificationSystem', 'bookOrderSystem', 'punctuationSystem', 'booksNamesSystem', 'includesBooks', 'languageCode',
        'usesText', 'derivedFrom', 'name', 'publicationDate', 'type', 'referenceAbbreviation')
ORDERS = ORGS = CODES = None
FULL = []          # organisational systems whose tables are all published


def setup():
    global BOS, BO, ORDERS, ORGS, CODES, G, CACHE
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference import BibleOrganisationalSystems as BOS, BibleBookOrders as BO
    ORDERS, ORGS = refdata.book_orders(), refdata.org_systems()
    import xml.etree.ElementTree as ET
    CODES = [e.text for e in ET.parse(refdata.DATA + '/BibleBooksCodes.xml').getroot().iter('referenceAbbreviation')]
    V = refdata.versifications()
    del FULL[:]
    for k in ORGS:
        if refdata.org_value(k, 'bookOrderSystem') in ORDERS and refdata.org_value(k, 'versificationSystem') in V \
                and refdata.org_value(k, 'includesBooks'):
            FULL.append(k)
    CACHE = {k: BOS.BibleOrganisationalSystem(k) for k in FULL}


# ------------------------------------------------------------------ book orders (every system, every book)
def order_cases():
    return sorted(ORDERS)


def run_order(name, rec):
    want = ORDERS[name]
    rec.interesting()
    systems = BO.BibleBookOrderSystems().loadData()
    equal(sorted(systems.getAvailableBookOrderSystemNames()), sorted(ORDERS), 'available book order systems')
    equal(len(systems), len(ORDERS), 'number of book order systems')
    equal(systems.getBookOrderList(name), want, 'getBookOrderList')
    equal(systems.numBooks(name), len(want), 'numBooks')
    check(name in systems, 'system is contained')
    check(name + 'x' not in systems and systems.getBookOrderSystem(name + 'x') is None, 'unknown system is found')
    o = BO.BibleBookOrderSystem(name)
    equal(o.getBookOrderSystemName(), name, 'name')
    equal(list(o.getBookOrderList()), want, 'order list')
    equal((len(o), o.numBooks()), (len(want), len(want)), 'numbers of books')
    for i, B in enumerate(want):
        equal(o.getBookOrderPosition(B), i + 1, 'position of', B)
        equal(o.getBookAtOrderPosition(i + 1), B, 'book at', i + 1)
        equal(o.getPreviousBookCode(B), want[i - 1] if i else None, 'previous of', B)
        equal(o.getNextBookCode(B), want[i + 1] if i + 1 < len(want) else None, 'next of', B)
        for j in sorted({0, i - 1, i, i + 1, len(want) // 2, len(want) - 1}):
            if 0 <= j < len(want): equal(o.correctlyOrdered(B, want[j]), i < j, 'correctlyOrdered', B, want[j])
    for B in CODES:
        equal((o.containsBook(B), B in o, systems.containsBook(name, B)), (B in want,) * 3, 'contains', B)


# ------------------------------------------------------------------ matching a list of books with the systems
def match_case():
    return st.one_of(*[st.tuples(st.sampled_from(sorted(ORDERS)), st.sampled_from(('whole', 'subset', 'prefix', 'swap', 'shuffle', 'extra')),
                                 st.randoms(use_true_random=False).map(lambda r: r.randrange(1 << 30))).map(list)])


def make_list(case):
    import random
    name, kind, seed = case
    r = random.Random(seed)
    L = list(ORDERS[name])
    if kind == 'prefix': L = L[:r.randint(1, len(L))]
    elif kind == 'whole': pass
    else:
        if kind != 'swap' or r.random() < .7: L = [b for b in L if r.random() < r.choice((.2, .5, .9))] or L[:1]
        if kind == 'swap' and len(L) > 1:
            i = r.randrange(len(L) - 1); L[i], L[i + 1] = L[i + 1], L[i]
        if kind == 'shuffle': r.shuffle(L)
        if kind == 'extra':
            B = r.choice(CODES)
            if B not in L: L.insert(r.randrange(len(L) + 1), B)
    return L


def run_match(case, rec):
    L = make_list(case)
    def sub(small, big):
        it = iter(big)
        return all(b in it for b in small)
    want = sum(sub(L, o) for o in ORDERS.values())
    rec.label('matches %s' % (want if want < 3 else '3+'), case[1])
    rec.interesting(len(L) > 1)
    equal(BO.BibleBookOrderSystems().loadData().checkBookOrderSystem('test', L), want, 'number of systems matching', L)


# ------------------------------------------------------------------ inherited settings (every organisational system)
def value_cases():
    return sorted(ORGS)


def run_values(k, rec):
    x = ORGS[k]
    rec.interesting('usesText' in x or 'derivedFrom' in x)
    b = BOS.BibleOrganisationalSystem(k)
    equal(b.getOrganisationalSystemName(), k, 'name')
    equal(b.getOrganisationalSystemType(), x['type'], 'type')
    equal(list(b.getMoreBasicTypes()), list(refdata.TYPES[refdata.TYPES.index(x['type']) + 1:]), 'more basic types')
    for v in KEYS:
        equal(b.getOrganisationalSystemValue(v), refdata.org_value(k, v), k, v)
    books = refdata.org_value(k, 'includesBooks') or []
    equal(b.getBookList(), books, k, 'book list')
    for B in CODES: equal(b.containsBook(B), B in books, k, 'contains', B)
    S = BOS.BibleOrganisationalSystems().loadData()
    equal(len(S), len(ORGS), 'number of systems')
    equal(sorted(S.getAvailableOrganisationalSystemNames()), sorted({y['referenceAbbreviation'] for y in ORGS.values()}), 'names')
    for name in (k, x['referenceAbbreviation'], k + 'x', x['referenceAbbreviation'].lower() + '?'):
        f = refdata.find_org(name)
        d = S.getOrganisationalSystem(name)
        if f is None: check(d is None, 'unknown system', name, 'gave', d)
        else:
            equal((d['referenceAbbreviation'], d['type'], d.get('name')), (ORGS[f]['referenceAbbreviation'], ORGS[f]['type'], ORGS[f].get('name')), 'system', name)
            for v in KEYS: equal(S.getOrganisationalSystemValue(name, v), refdata.base_value(name, v), name, v)


# ------------------------------------------------------------------ histories of queries on several systems
def history_case():
    op = st.tuples(st.sampled_from(('next', 'prev', 'pos', 'first', 'contains', 'verses', 'chapters', 'abs', 'abs', 'conv', 'conv', 'valid', 'order', 'list', 'alt')),
                   st.integers(0, 3), st.integers(0, 1 << 16), st.integers(0, 1 << 16), st.integers(0, 400)).map(list)
    return st.tuples(st.lists(st.integers(0, len(FULL) - 1), min_size=1, max_size=4), st.lists(op, min_size=1, max_size=40), st.booleans()).map(list)


def run_history(case, rec):
    which, ops, fresh = case
    names = [FULL[i] for i in which]
    rec.interesting(len({refdata.org_value(n, 'versificationSystem') for n in names}) > 1 and len(ops) > 3)
    systems = [BOS.BibleOrganisationalSystem(n) if fresh and j == 0 else CACHE[n] for j, n in enumerate(names)]
    V, abslists = refdata.versifications(), {}
    for op, s, a, b, c in ops:
        s %= len(names)
        n, bos = names[s], systems[s]
        order = ORDERS[refdata.org_value(n, 'bookOrderSystem')]
        cv, om = V[refdata.org_value(n, 'versificationSystem')]
        books = refdata.org_value(n, 'includesBooks')
        B = order[a % len(order)]
        what = '%s of %s %s' % (op, n, B)
        rec.label(op)
        if op == 'next':
            i = order.index(B)
            equal(bos.getNextBookCode(B), next((x for x in order[i + 1:] if x in books), None), what)
        elif op == 'prev':
            i = order.index(B)
            equal(bos.getPreviousBookCode(B), next((x for x in reversed(order[:i]) if x in books), None), what)
        elif op == 'pos':
            equal((bos.getBookOrderPosition(B), bos.getBookAtOrderPosition(a % len(order) + 1)), (order.index(B) + 1, B), what)
        elif op == 'first': equal(bos.getFirstBookCode(), order[0], what)
        elif op == 'contains':
            B = CODES[a % len(CODES)]
            equal(bos.containsBook(B), B in books, what, B)
        elif op == 'list': equal((bos.getBookList(), list(bos.getBookOrderList())), (books, order), what)
        elif op == 'order':
            B2 = order[b % len(order)]
            equal(bos.correctlyOrdered(B, B2), order.index(B) < order.index(B2), what, B2)
        elif op == 'chapters':
            equal((bos.getNumChapters(B), bos.isSingleChapterBook(B)), (cv[B].n, cv[B].n == 1) if B in cv else (None, None), what)
        elif op == 'verses':
            C = b % 160
            equal(bos.getNumVerses(B, str(C)), cv[B].get(C) if B in cv else 0, what, C)
            if B in cv:
                equal(bos.getNumVersesList(B), cv[B].list(), what, 'verses list')
                equal(bos.getTotalNumVerses(B), sum(cv[B].list()), what, 'total')
        elif op == 'alt':
            if B in cv: equal(bos.getNumVersesList(B, allowAlternatives=True), cv[B].list(), what)
        elif op == 'valid':
            if B not in cv: continue
            C = b % (cv[B].n + 2)
            v = c % ((cv[B].get(C) or 10) + 3)
            want = 1 <= v <= cv[B].get(C) and (C, v) not in om.get(B, ())
            equal(bos.isValidBCVRef((B, str(C), str(v), ''), 'x'), want, what, C, v)
            equal([bos.isValidBCVRef((x, str(C), str(v), ''), 'x') for x in (None, '')], [False, False], what, 'no book')
        else:
            if not all(x in cv and cv[x].regular for x in books): rec.label('no absolute numbers: book without versification'); continue
            if n not in abslists:
                L = []
                for x in books:
                    for ci, nv in cv[x].verses.items(): L.append((x, ci, nv))
                abslists[n] = L
            L = abslists[n]
            total = sum(nv for _, _, nv in L)
            if op == 'abs':
                x, ci, nv = L[(a * 7 + b) % len(L)]
                v = c % (nv + 3)
                start, seen = 0, None
                for y in L:
                    if y[:2] == (x, ci): seen = start
                    start += y[2]
                want = seen + v if 1 <= v <= nv else None
                if len(set(books)) < len(books): continue
                equal(bos.getAbsoluteVerseNumber(x, str(ci), str(v)), want, what, x, ci, v)
                if want is not None: equal(bos.convertAbsoluteVerseNumber(want), (x, str(ci), str(v)), what, 'inverse of', want)
                equal(bos.getAbsoluteVerseNumber(x, str(cv[x].n + 1), '1'), None, what, 'chapter too big')
            else:
                av = (a * 65536 + b) % (total + 5)
                if c % 5 == 0: av = total - c % 7
                want, k = None, 0
                for x, ci, nv in L:
                    if k < av <= k + nv: want = (x, str(ci), str(av - k)); break
                    k += nv
                if len(set(books)) < len(books): continue
                equal(bos.convertAbsoluteVerseNumber(av), want, what, av)


SUBS = [
    Sub('orders', None, run_order, 0, exhaustive=order_cases, rule='every book order system, all its books, all book codes'),
    Sub('matching', match_case, run_match, 1500, rule='non-trivial: a list of two or more books'),
    Sub('values', None, run_values, 0, exhaustive=value_cases, shards=2, rule='every organisational system; non-trivial: it inherits settings from another one'),
    Sub('histories', history_case, run_history, 2400, shards=4, rule='non-trivial: four or more queries interleaved over systems with different versifications'),
]
