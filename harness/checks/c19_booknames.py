"""C19: book names.  What each typed text may mean is worked out from the packaged name tables, independently."""
import pathlib, pickle, types
from collections import defaultdict
from hypothesis import strategies as st
from core import *
import refdata

PROPERTY = 'C19'
R = 'BibleOrgSys/Reference/'


def setup():
    global N, BOSM, G, CODES, TABLES, SYSTEMS, FIELDS, ORGS, XML
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference import BibleBooksNames as N, BibleOrganisationalSystems as BOSM
    CODES = G.loadedBibleBooksCodes
    with open(REPO + '/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle', 'rb') as f: TABLES = pickle.load(f)
    SYSTEMS = sorted(TABLES)
    N.BibleBooksNamesSystems().loadData()
    BOSM.BibleOrganisationalSystems().loadData()
    FIELDS = defaultdict(set)
    for n in SYSTEMS:
        for B, d in TABLES[n][2].items():
            for f in d['inputFields']: FIELDS[f.upper()].add(B)
    ORGS = [n for n in sorted(refdata.org_systems()) if (refdata.org_value(n, 'booksNamesSystem') or '') in TABLES]
    XML = published()


def published():
    """{system: ({BBB: (name, abbreviation)}, {division: (name, abbreviation, books)})} from the XML files."""
    import xml.etree.ElementTree as ET
    out = {}
    for f in sorted(pathlib.Path(REPO, 'BibleOrgSys/DataFiles/BookNames').glob('*.xml')):
        books, divs = {}, {}
        for t in ET.parse(f).getroot():
            if t.tag == 'BibleBookNames': books[t.get('referenceAbbreviation')] = (t.find('defaultName').text, t.find('defaultAbbreviation').text)
            elif t.tag == 'BibleDivisionNames': divs[t.get('standardAbbreviation')] = (t.find('defaultName').text, t.find('defaultAbbreviation').text, [x.text for x in t.findall('includesBook')])
        out[f.stem[len('BibleBooksNames_'):]] = books, divs
    return out


# ---------------------------------------------------------------- model
def shortenings(fields, leaders):
    """{text: set of what it could stand for} for all shortened forms of the given {FIELD: set of owners}."""
    out = defaultdict(set)
    for f, owners in fields.items():
        forms = [f]
        for leader, others in leaders.items():
            if f.startswith(leader.upper()): forms += [o.upper() + f[len(leader):] for o in others]
        for form in forms:
            for n in range(1, len(form) + 1):
                p = form[:n]
                if p.isdigit() or p[-1] == ' ': continue
                out[p] |= owners
                while ' ' in p:
                    p = p.replace(' ', '', 1)
                    out[p] |= owners
    return out


class Names:
    def __init__(self, name, books):
        divs, leaders, names = TABLES[name]
        self.name, self.list, self.divs = name, books, {d: x for d, x in divs.items() if set(x['includedBooks']) & set(books)}
        self.direct, self.ddirect = defaultdict(set), defaultdict(set)
        for B in books:
            for f in names.get(B, {'inputFields': []})['inputFields']: self.direct[f.upper()].add(B)
        for d, x in self.divs.items():
            for f in x['inputFields']: self.ddirect[f.upper()].add(d)
        self.short, self.dshort = shortenings(self.direct, leaders), shortenings(self.ddirect, leaders)

    @staticmethod
    def find(T, direct, short, other, otherdirect):
        """(the possible answers, whether it may also be unknown)"""
        T = T.upper()
        if T in direct: return set(direct[T]), False
        s = short.get(T, set())
        if len(s) != 1: # names which the data give to two books can stand for either
            return (set(s) if any(len(o) > 1 and s <= o for o in direct.values()) else set()), True
        # book and division names share their ambiguous shortenings
        return set(s), len(other.get(T, ())) > 1 or T in otherdirect

    def book(self, T): return self.find(T, self.direct, self.short, self.dshort, self.ddirect)

    def division(self, T): return self.find(T, self.ddirect, self.dshort, self.short, self.direct)


CACHE = {}
def names_of(name, books):
    k = (name, tuple(books))
    if k not in CACHE:
        if len(CACHE) > 12: CACHE.clear()
        CACHE[k] = Names(name, books)
    return CACHE[k]


def check_book(get, M, T, rec, what):
    want, unknown = M.book(T)
    got = get(T)
    if unknown: want = want | {CODES.getBBBFromText(T)}
    check(got in want, what, 'finds', repr(got), 'but expected', sorted(map(str, want)), 'for', repr(T), 'in', M.name)
    rec.label('unique' if not unknown else 'ambiguous or unknown')
    return not unknown


# ---------------------------------------------------------------- cases
def vary(T, how):
    """The same text typed differently."""
    for U in ([T.lower(), T.title(), T.swapcase(), T][how % 4], T):
        if U.upper() == T.upper(): return U
    return T


N_ = st.integers(0, 99999)


def names_case():
    q = st.tuples(st.sampled_from(['field', 'short', 'short', 'short', 'division', 'division field', 'near', 'near', 'text']), N_, N_, st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({'sys': N_, 'all': st.booleans(), 'picks': st.lists(N_, min_size=1, max_size=40), 'cut': N_, 'queries': st.lists(q, min_size=15, max_size=40),
                                  'text': st.text('abcdeEXOsS12I. éЕ', min_size=1, max_size=8)})


def booklist(name, case):
    books = list(TABLES[name][2])
    if case['all']: # a run of the Bible
        a = case['cut'] % len(books)
        z = min(len(books), a + len(case['picks']) * 2)
        return books[a:z]
    some = sorted({books[p % len(books)] for p in case['picks']}, key=books.index)
    if case['cut'] % 4 == 0: # a book that has no name here
        others = [B for B in CODES.getAllReferenceAbbreviations() if B not in TABLES[name][2]]
        some.insert(case['cut'] % (len(some) + 1), others[case['cut'] // 4 % len(others)])
    return some


def run_names(case, rec):
    name = SYSTEMS[case['sys'] % len(SYSTEMS)]
    books = booklist(name, case)
    M = names_of(name, books)
    if not M.divs: rec.label('no divisions')
    rec.label(name)
    S = N.BibleBooksNamesSystem(name, books)
    shorts, dshorts = sorted(M.short), sorted(M.dshort)
    direct, ddirect = sorted(M.direct), sorted(M.ddirect)
    hits = 0
    for kind, a, b, how in case['queries']:
        if kind == 'field': T = direct[a % len(direct)]
        elif kind == 'short': T = shorts[a % len(shorts)]
        elif kind == 'text': T = case['text']
        elif kind == 'near': # a letter more, less or different
            T = shorts[a % len(shorts)]
            i = b % len(T)
            T = [T[:i] + T[i + 1:], T[:i] + 'E' + T[i:], T[:i] + 'A' + T[i + 1:], T + ' '][b % 4] or T
        elif not M.divs: T = case['text']
        elif kind == 'division': T = dshorts[a % len(dshorts)]
        else: T = ddirect[a % len(ddirect)]
        T = vary(T, how)
        hits += check_book(S.getBBBFromText, M, T, rec, 'book lookup')
        want, unknown = M.division(T)
        got = S.getDivisionAbbreviation(T)
        check(got in want or unknown and got is None, 'division lookup finds', repr(got), 'but expected', sorted(want), 'for', repr(T), 'in', name)
        if want and not unknown: rec.label('division')
        if T not in M.divs:
            got = S.getDivisionBooklist(T)
            check(any(got == TABLES[name][0][d]['includedBooks'] for d in want) or unknown and got is None, 'books of division', repr(T), 'in', name, 'are', short(got))
    for B in books:
        n, ab = XML[name][0].get(B, (B, B))
        if B not in XML[name][0]: rec.label('book without a name')
        equal((S.getBookName(B), S.getBookAbbreviation(B)), (n, ab), 'published names of', B, 'in', name)
    for d in M.divs: equal(S.getDivisionBooklist(d), XML[name][1][d][2], 'books of division', d, 'in', name)
    equal(S.getBooksNamesSystemName(), name, 'name')
    rec.interesting(hits > 5)


def field_cases():
    out = []
    for name in SYSTEMS:
        books = list(TABLES[name][2])
        out += [[name, i, min(len(books), i + 12)] for i in range(0, len(books), 12)]
    return out


def run_fields(case, rec):
    """Every name, abbreviation and alternative, in the whole system and in a small book list."""
    name, a, z = case
    books = list(TABLES[name][2])
    leaders = TABLES[name][1]
    for some in (books, books[a:z]):
        M = names_of(name, some)
        S = N.BibleBooksNamesSystem(name, some)
        for B in books[a:z]:
            for f in TABLES[name][2][B]['inputFields']:
                for how in range(3):
                    T = vary(f, how)
                    got = S.getBBBFromText(T)
                    check(got in M.direct[T.upper()], repr(T), 'of', B, 'in', name, 'finds', repr(got))
                for L, others in leaders.items():
                    if not f.startswith(L): continue
                    for o in others:
                        T = o + f[len(L):]
                        for U in (T, T.replace(' ', '', 1), T.replace(' ', '')): check_book(S.getBBBFromText, M, U, rec, 'book lookup')
                        rec.label('alternative leader')
    rec.interesting(True)


def every_case():
    return st.lists(st.tuples(st.sampled_from(['field', 'short', 'near']), N_, N_, st.integers(0, 3)).map(list), min_size=1, max_size=10)


def run_every(case, rec):
    S = N.BibleBooksNamesSystems()
    fields = sorted(FIELDS)
    for kind, a, b, how in case:
        T = fields[a % len(fields)]
        if kind == 'short': T = T[:b % len(T) + 1]
        elif kind == 'near':
            i = b % len(T)
            T = T[:i] + 'Q' + T[i:]
        T = vary(T, how)
        U = T.upper()
        got = S.getBBBFromText(T)
        if U in FIELDS:
            rec.label('whole name'); rec.interesting(True)
            check(got in FIELDS[U], 'all systems:', repr(T), 'finds', repr(got), 'but is a name of', sorted(FIELDS[U]))
        else:
            could = {B for f, Bs in FIELDS.items() if f.startswith(U) for B in Bs}
            if could: rec.label('shortened name'); check(got in could, 'all systems:', repr(T), 'finds', repr(got), 'but no name of it starts so')
            else: rec.label('unknown'); check(got is None, 'all systems:', repr(T), 'finds', repr(got), 'but no name starts so')
    codes = {n[:3] for n in SYSTEMS}
    equal(set(S.getAvailableLanguageCodes()), codes, 'languages')
    equal(sorted(S.getAvailableBooksNamesSystemNames()), SYSTEMS, 'systems')
    for c in codes: equal(sorted(S.getAvailableBooksNamesSystemNames(c)), sorted('' if n == c else n[4:] for n in SYSTEMS if n == c or n.startswith(c + '_')), 'systems of', c)


def org_cases(): return list(ORGS)


def run_org(name, rec):
    """Book names through the organisational systems that use them."""
    b = BOSM.BibleOrganisationalSystem(name)
    system = refdata.org_value(name, 'booksNamesSystem')
    books = b.getBookList()
    table = TABLES[system][2]
    M = names_of(system, books)
    rec.label(system)
    for B in books:
        if B in table:
            equal((b.getBookName(B), b.getBookAbbreviation(B)), XML[system][0][B], 'published names of', B, 'in', name)
            for f in table[B]['inputFields']:
                got = b.getBBBFromText(f)
                check(got in M.direct[f.upper()], repr(f), 'of', B, 'in', name, 'finds', repr(got))
            rec.interesting(True)
        else:
            rec.label('book without a name')
            equal((b.getBookName(B), b.getBookAbbreviation(B)), (B, B), 'names of', B, 'which has none in', name)
    for i, T in enumerate(sorted(M.short)):
        if i % 17 == len(name) % 17: check_book(b.getBBBFromText, M, vary(T, i), rec, 'book lookup')


SUBS = [
    Sub('names', names_case, run_names, 4000, shards=3, rule='non-trivial: more than five texts with one meaning looked up'),
    Sub('every field', None, run_fields, 1, exhaustive=field_cases, shards=2, rule='every name, abbreviation and alternative of every book of every system'),
    Sub('all systems', every_case, run_every, 2000, shards=1, rule='non-trivial: a whole name looked up'),
    Sub('organisational systems', None, run_org, 1, exhaustive=org_cases, shards=2, rule='every organisational system that has book names'),
]
