"""C15: typed Bible references.  Strings are written from a list of known verses; parsing must give that list back."""
import types
from hypothesis import strategies as st
from core import *
import refdata

PROPERTY = 'C15'
SYSTEMS = ('RSV', 'GENERIC-KJV-80-ENG', 'MBT', 'RSV52')


def setup():
    global BR, BOS, INFO, CODES, G
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference import BibleReferences as BR, BibleOrganisationalSystems as BO
    CODES = G.loadedBibleBooksCodes
    BO.BibleOrganisationalSystems().loadData()
    BOS, INFO = {}, {}
    for n in SYSTEMS:
        b = BOS[n] = BO.BibleOrganisationalSystem(n)
        INFO[n] = Info(n, b)


class Info:
    """What the data files say about one organisational system."""
    def __init__(self, name, b):
        cv, om = refdata.versifications()[refdata.org_value(name, 'versificationSystem')]
        included = refdata.org_value(name, 'includesBooks')
        self.cv, self.om = cv, om
        self.order = [B for B in refdata.book_orders()[refdata.org_value(name, 'bookOrderSystem')] if B in included]
        self.books = [B for B in self.order if B in cv and cv[B].regular]
        self.p = b.getPunctuationDict()
        self.suffixes = self.p['allowedVerseSuffixes']
        self.names, self.abbrevs = {}, {}
        for B in self.books:
            full, short = b.getBookName(B), b.getBookAbbreviation(B)
            forms = [x for x in dict.fromkeys((full, full and full.lower(), full and full.upper())) if x and usable(b, x, B)]
            self.names[B] = forms
            forms = [x for x in dict.fromkeys((short, short and short.upper(), short and short.lower(), B, spaced(short))) if x and x != full and usable(b, x, B)]
            self.abbrevs[B] = forms
        self.books = [B for B in self.books if self.abbrevs[B] or self.names[B]]
        self.full = {B: b.getBookName(B) for B in self.books}
        self.single = [B for B in self.books if cv[B].n == 1]

    def verses(self, B, c): return self.cv[B].get(c)
    def valid(self, B, c, v): return B in self.cv and B in self.order and 1 <= c <= self.cv[B].n and (v is None or 1 <= v <= self.cv[B].get(c) and (c, v) not in self.om.get(B, []))

    def near(self, B, c, v):
        """A valid verse at or before (c, v)."""
        while (c, v) in self.om.get(B, []): v = v - 1 if v > 1 else v + 1
        return v

    def expand(self, a, z):
        (B1, C1, V1, S1), (B2, C2, V2, S2) = a, z
        f = (int(C1), int(V1) if V1 else 1)
        l = (int(C2), int(V2) if V2 else self.verses(B2, int(C2)))
        out = []
        between = self.order[self.order.index(B1):self.order.index(B2) + 1]
        for B in between:
            for c in self.cv[B].verses:
                for v in range(1, self.cv[B].get(c) + 1):
                    if B == B1 and (c, v) < f or B == B2 and (c, v) > l: continue
                    out.append((B, str(c), str(v), S1 if (B, c, v) == (B1,) + f else S2 if (B, c, v) == (B2,) + l else ''))
        return out


def spaced(x):
    return x[0] + ' ' + x[1:] if x and x[0].isdigit() and x[1:2].isalpha() else None


def usable(b, x, B):
    if b.getBBBFromText(x) != B: return False
    w = x.split(' ')
    if len(w) > 2 or not all(p.isalnum() for p in w): return False
    if len(w) == 2 and not (w[0].isdigit() or set(w[0]) <= {'I'}): return False
    if len(w) == 2 and (b.getBBBFromText(w[0]) is not None or b.getBBBFromText(w[0] + w[1]) != B): return False
    return not any(c.isdigit() for c in x[1:])


# ---------------------------------------------------------------- cases
N = st.integers(0, 199)
SUF = st.integers(0, 23)


def vitem():
    return st.one_of(st.tuples(st.just('v'), N, SUF), st.tuples(st.just('v'), N, SUF),
                     st.tuples(st.just('r'), N, SUF, st.integers(1, 20), SUF),
                     st.tuples(st.just('x'), N, SUF, st.integers(1, 2), N, SUF),
                     st.tuples(st.just('b'), N, SUF, st.integers(1, 3), st.integers(0, 9), N, N, SUF)).map(list)


def a_chap(single):
    v = st.tuples(st.just('v'), N, SUF).map(list)
    verses = st.fixed_dictionaries({'c': N, 'items': st.lists(v if single else vitem(), min_size=1, max_size=4)})
    if single: return verses
    return st.one_of(verses, verses, verses, verses, st.fixed_dictionaries({'c': N, 'to': st.integers(1, 5)}), st.fixed_dictionaries({'c': N, 'to': st.integers(1, 5), 'book': st.integers(0, 2), 'form': st.integers(0, 9)}))


def a_case(single=False, maxg=3):
    group = st.fixed_dictionaries({'B': st.integers(0, 999), 'form': st.integers(0, 9), 'sep': st.integers(0, 7), 'elide': st.booleans(), 'chaps': st.lists(a_chap(single), min_size=1, max_size=3), 'whole': st.integers(0, 7)})
    return st.fixed_dictionaries({'sys': st.sampled_from(SYSTEMS), 'groups': st.lists(group, min_size=1, max_size=maxg), 'spaces': st.integers(0, 9)})


class Writer:
    """Writes a reference string and, alongside, the references it names."""
    def __init__(self, case):
        self.I = INFO[case['sys']]
        self.parts, self.refs, self.kinds, self.canonical, self.long = [], [], set(), True, 0
        self.comma = self.I.p['verseSeparator'] + (' ' if case['spaces'] == 0 else '')
        if case['spaces'] == 0: self.canonical = False

    @property
    def text(self): return '; '.join(self.parts)

    def book(self, B, form, sep, start=True):
        I = self.I
        L = [(x, True) for x in I.names[B]] + [(x, False) for x in I.abbrevs[B]]
        x, full = L[form % len(L)]
        dot = I.p['punctuationAfterBookAbbreviation']
        if full: s = ' '
        else:
            s = [dot + ' ', dot + ' ', dot + ' ', dot, ' '][sep % 5] if start else dot + ' '
            if s != dot + ' ': self.canonical = False
            if not s: s = ' '
        if full and x != I.full[B]: self.canonical = False
        if ' ' in x: self.kinds.add('book name with a space')
        self.kinds.add('full name' if full else 'abbreviation')
        return x + s

    def suffix(self, s):
        S = self.I.suffixes
        if s < len(S): self.kinds.add('suffix')
        return S[s] if s < len(S) else ''

    def verse(self, B, c, v): return self.I.near(B, c, v % self.I.verses(B, c) + 1)

    def later_book(self, B, n):
        I = self.I
        B2 = I.books[min(len(I.books) - 1, I.books.index(B) + n)]
        ok = B2 != B and self.long < 1 and all(X in I.cv and I.cv[X].regular for X in I.order[I.order.index(B):I.order.index(B2) + 1])
        if ok and sum(I.cv[X].n for X in I.order[I.order.index(B):I.order.index(B2) + 1]) > 60: return None
        if ok: self.long += 1 # many long ranges take the code under test a long time
        return B2 if ok else None

    def item(self, B, c, it):
        """Text of one item and where it leaves us."""
        I, p = self.I, self.I.p
        cvs = p['chapterVerseSeparator']
        v = self.verse(B, c, it[1])
        if it[0] == 'b':
            B2 = self.later_book(B, it[3])
            if B2:
                s = self.suffix(it[2])
                c2 = it[5] % I.cv[B2].n + 1
                v2, s2 = self.verse(B2, c2, it[6]), self.suffix(it[7])
                self.refs.append(((B, str(c), str(v), s), (B2, str(c2), str(v2), s2)))
                self.kinds.add('book range')
                return f"{v}{s}{p['bookBridgeCharacter']}{self.book(B2, it[4], 0, False)}{c2}{cvs}{v2}{s2}", B2, c2
        elif it[0] == 'x' and c < I.cv[B].n:
            s = self.suffix(it[2])
            c2 = min(I.cv[B].n, c + it[3])
            v2, s2 = self.verse(B, c2, it[4]), self.suffix(it[5])
            self.refs.append(((B, str(c), str(v), s), (B, str(c2), str(v2), s2)))
            self.kinds.add('chapter range')
            return f"{v}{s}{p['chapterBridgeCharacter']}{c2}{cvs}{v2}{s2}", B, c2
        elif it[0] == 'r':
            v2 = I.near(B, c, min(I.verses(B, c), v + it[3]))
            if v2 > v:
                s, s2 = self.suffix(it[2]), self.suffix(it[4])
                self.refs.append(((B, str(c), str(v), s), (B, str(c), str(v2), s2)))
                self.kinds.add('verse range')
                return f"{v}{s}{p['verseBridgeCharacter']}{v2}{s2}", B, c
        s = self.suffix(it[2])
        self.refs.append((B, str(c), str(v), s))
        return f'{v}{s}', B, c


def write(case):
    W = Writer(case)
    I, p = W.I, W.I.p
    nothing = True
    for gi, g in enumerate(case['groups']):
        lastg = gi == len(case['groups']) - 1
        books = I.single if I.single and g['B'] % 5 == 0 else I.books
        B = books[g['B'] // 5 % len(books)]
        head = W.book(B, g['form'], g['sep'])
        if lastg and g['whole'] == 0 and I.cv[B].n > 1 and g['chaps'][0].get('items'):
            c = g['chaps'][0]['c'] % I.cv[B].n + 1
            W.parts.append(head + str(c)); W.refs.append((B, str(c), '', '')); W.kinds.add('whole chapter')
            break
        for ch in g['chaps']:
            one = I.cv[B].n == 1
            if one and not head: break # no further chapters
            c = ch['c'] % I.cv[B].n + 1
            if 'to' in ch:
                if one or not head: continue
                if 'book' in ch:
                    B2 = W.later_book(B, ch['book'] + 1)
                    if not B2 or I.cv[B2].n == 1: continue
                    c2 = (ch['c'] + ch['to']) % I.cv[B2].n + 1
                    W.refs.append(((B, str(c), '', ''), (B2, str(c2), '', '')))
                    W.parts.append(head + f"{c}{p['bookBridgeCharacter']}{W.book(B2, ch['form'], 0, False)}{c2}")
                    B = B2
                else:
                    c2 = min(I.cv[B].n, c + ch['to'])
                    if c2 == c: continue
                    W.refs.append(((B, str(c), '', ''), (B, str(c2), '', '')))
                    W.parts.append(head + f"{c}{p['chapterBridgeCharacter']}{c2}")
                W.kinds.add('whole chapters')
                W.canonical = False
                head = ''
                continue
            txt = [] if not (one and g['elide']) else None
            if txt is None: W.kinds.add('verse of a single-chapter book')
            first = '' if txt is None else f"{c}{p['chapterVerseSeparator']}"
            items = []
            for it in ch['items']:
                t, B, c = W.item(B, c, it)
                items.append(t)
            W.parts.append(head + first + W.comma.join(items))
            head = ''
        if head: W.parts.append(head + ('1' if I.cv[B].n == 1 else '1' + p['chapterVerseSeparator'] + '1')); W.refs.append((B, '1', '1', ''))
        if lastg and g['whole'] == 1 and I.cv[B].n > 1:
            c = g['chaps'][0]['c'] % I.cv[B].n + 1
            W.parts.append(str(c)); W.refs.append((B, str(c), '', '')); W.kinds.add('whole chapter')
    return W


def expansion(I, refs):
    out = []
    for r in refs: out += I.expand(*r) if len(r) == 2 else [r]
    return out


def osis_of(refs):
    out = []
    f = CODES.getOSISAbbreviation
    for r in refs:
        if len(r) == 2:
            (B1, C1, V1, _), (B2, C2, V2, _) = r
            out.append(f'{f(B1)}.{C1}.{V1}-{f(B2)}.{C2}.{V2}' if V1 else f'{f(B1)}.{C1}-{f(B2)}.{C2}')
        else:
            B, C, V, _ = r
            out.append(f'{f(B)}.{C}' + (f'.{V}' if V else ''))
    return '; '.join(out)


def bare(refs):
    return [tuple((B, C, V, '') for B, C, V, _ in r) if len(r) == 2 else r[:3] + ('',) for r in refs]


def run_list(case, rec):
    W = write(case)
    I, refs, text = W.I, W.refs, W.text
    rec.label(*sorted(W.kinds), case['sys'])
    rec.interesting(len(refs) > 1 or isinstance(refs[0][0], tuple))
    brl = BR.BibleReferenceList(BOS[case['sys']])
    ok, warn, got = brl.parseReferenceString(text)
    equal(got, refs, 'parsed', repr(text))
    check(ok is True, 'a correct reference is reported as wrong:', repr(text))
    verses = expansion(I, refs)
    if W.canonical and len(set(verses)) == len(verses) and not any(v == '' for _, _, v, _ in verses):
        check(not warn, 'warned about', repr(text)); rec.label('no warnings')
    elif len(set(refs)) < len(refs): check(warn, 'repeated reference without a warning', repr(text)); rec.label('repeated')
    equal(brl.getReferenceList(), refs, 'list', repr(text))
    equal(brl.getReferenceList(expanded=True), verses, 'expanded', repr(text))
    equal(brl.getFirstReference(text), verses[0] if len(refs[0]) == 4 else refs[0][0], 'first reference of', repr(text))
    osis = osis_of(refs)
    equal(brl.getOSISRefList(), osis, 'OSIS form of', repr(text))
    equal(brl.parseToOSIS(text), osis, 'parsed to OSIS', repr(text))
    if all(len(r) == 2 or r[2] for r in refs) or len(refs) == 1: # a whole chapter followed by something else is not claimed
        if not any(CODES.getOSISAbbreviation(b)[-1].isdigit() for r in refs for b in ([r[0]] if len(r) == 4 else [r[0][0], r[1][0]])):
            other = BR.BibleReferenceList(BOS[case['sys']])
            ok, warn, got = other.parseOSISReferenceString(osis)
            if not any(len(r) == 2 and r[0][2] == '' and i < len(refs) - 1 for i, r in enumerate(refs)) or True:
                equal(got, bare(refs), 'parsed from OSIS', repr(osis))
                check(ok is True, 'a correct OSIS reference is reported as wrong:', repr(osis))
            rec.label('OSIS round trip')
            ok, warn, got = other.parseReferenceString(text)
            equal((ok, got), (True, refs), 'parsed', repr(text), 'after an OSIS reference')
    # what the list contains
    names = {(b, c, v) for b, c, v, _ in verses}
    picks = [verses[0], verses[-1]] if len(verses) < 300 else [verses[case['groups'][0]['B'] % len(verses)]]
    for b, c, v, s in picks:
        if not v: continue
        check(brl.containsReference(b, c, v), 'not contained in', repr(text), (b, c, v))
        n = int(v)
        for k in (n - 1, n + 1):
            if k < 1: continue
            equal(bool(brl.containsReference(b, c, str(k))), (b, c, str(k)) in names, repr(text), 'contains', (b, c, k))
        lo, hi = max(1, n - 2), min(I.verses(b, int(c)), n + 1)
        if lo < hi and I.valid(b, int(c), lo) and I.valid(b, int(c), hi):
            for t, L in ((f'{lo}-{hi}', range(lo, hi + 1)), (f'{lo},{hi}', (lo, hi))):
                equal(bool(brl.containsReference(b, c, t)), any((b, c, str(k)) in names for k in L), repr(text), 'contains any of', (b, c, t))


def run_single(case, rec):
    W = write(case)
    I, refs, text = W.I, W.refs, W.text
    if refs[-1][2] == '': raise Discard()
    rec.label(*sorted(W.kinds), case['sys'])
    rec.interesting(len(refs) > 1)
    ok, warn, got = BR.BibleSingleReferences(BOS[case['sys']]).parseReferenceString(text)
    equal(got, refs, 'parsed', repr(text))
    check(ok is True, 'a correct reference is reported as wrong:', repr(text))
    one = BR.BibleSingleReference(BOS[case['sys']])
    r = one.parseReferenceString(text)
    if len(refs) == 1:
        equal((r[0],) + r[2:], (True,) + refs[0], 'single', repr(text))
        if W.canonical: check(not r[1], 'warned about', repr(text))
        equal(one.reference, refs[0], 'reference of', repr(text))
        # a reference written out again means the same
        s = BR.BibleReferenceList(BOS[case['sys']]).makeReferenceString(refs[0])
        B, C, V, S = refs[0]
        if I_usable(case['sys'], B):
            r = one.parseReferenceString(s)
            equal((r[0],) + r[2:], (True, B, C, V, S), 'written out as', repr(s)); rec.label('written out')
    else: check(r[0] is False, 'several references accepted as one', repr(text))


def I_usable(sysname, B): return usable(BOS[sysname], B.capitalize(), B)


def bad_case():
    return st.tuples(a_case(maxg=2), st.integers(0, 999), st.sampled_from(['chapter', 'verse', 'book', 'backwards', 'end verse'])).map(list)


def run_bad(args, rec):
    """One number (or name) in an otherwise correct reference is out of range."""
    case, k, kind = args
    W = write(case)
    I = W.I
    import re
    L = [(i, r) for i, r in enumerate(W.refs)]
    p = I.p
    cvs = p['chapterVerseSeparator']
    text = None
    if kind == 'book':
        text = W.text.replace(W.parts[0], 'Q' + W.parts[0], 1)
        m = re.match(r'Q[^ .]*', text)
        if any(BOS[case['sys']].getBBBFromText(m.group(0)[:n]) for n in range(1, len(m.group(0)) + 1)): raise Discard()
    elif kind == 'backwards':
        for i, r in L:
            if len(r) == 2 and r[0][2]:
                (B1, C1, V1, S1), (B2, C2, V2, S2) = r
                if (B1, C1) != (B2, C2): continue
                b = p['verseBridgeCharacter']
                old, new = f'{V1}{S1}{b}{V2}{S2}', f'{V2}{S2}{b}{V1}{S1}'
                if len(re.findall(r'(?<![\d])' + re.escape(old) + r'(?![\da-z:])', W.text)) == 1: text = W.text.replace(old, new); break
    else:
        m = [x for x in re.finditer(r'(\d+)%s(\d+)' % re.escape(cvs), W.text)]
        if m:
            x = m[k % len(m)]
            text = W.text[:x.start()] + ((f'{int(x[1]) + 151}{cvs}{x[2]}') if kind == 'chapter' else f'{x[1]}{cvs}{int(x[2]) + 177}') + W.text[x.end():]
            if kind == 'end verse':
                m = [x for x in re.finditer(r'(?<=[,-])(\d+)(?![\d:])', W.text)]
                if not m: raise Discard()
                x = m[k % len(m)]
                text = W.text[:x.start()] + str(int(x[1]) + 177) + W.text[x.end():]
    if text is None: raise Discard()
    rec.label(kind, case['sys'])
    rec.interesting()
    for c in (BR.BibleReferenceList, BR.BibleSingleReferences):
        ok = c(BOS[case['sys']]).parseReferenceString(text)[0]
        check(ok is False, c.__name__, 'accepted', repr(text))
    check(BR.BibleSingleReference(BOS[case['sys']]).parseReferenceString(text)[0] is False, 'accepted as a single reference', repr(text))
    check(BR.BibleReferenceList(BOS[case['sys']]).parseToOSIS(text) is None, 'converted to OSIS', repr(text))


# ---------------------------------------------------------------- any text
def any_case():
    edit = st.tuples(st.integers(0, 199), st.sampled_from(['del', 'ins', 'rep', 'cut', 'swap']), st.sampled_from(list(' .:;,-–_abfz0137ΩIé()"') + ['Gen', '1 Cor', ' (LXX)', '; ', 'Jude 3'])).map(list)
    return st.tuples(a_case(maxg=2), st.lists(edit, min_size=1, max_size=4)).map(list)


def run_any(args, rec):
    case, edits = args
    text = write(case).text
    for i, how, x in edits:
        i %= len(text) + 1
        text = {'del': text[:i] + text[i + 1:], 'ins': text[:i] + x + text[i:], 'rep': text[:i] + x + text[i + 1:], 'cut': text[:i], 'swap': text[i:] + text[:i]}[how]
        if not text.strip(): raise Discard()
    I = INFO[case['sys']]
    import re
    numbers = re.findall(r'\d+', text)
    for cls in (BR.BibleReferenceList, BR.BibleSingleReferences, BR.BibleSingleReference):
        r = cls(BOS[case['sys']])
        res = r.parseReferenceString(text)
        ok = res[0]
        refs = [tuple(res[2:])] if cls is BR.BibleSingleReference else res[2]
        if not ok: rec.label('refused'); continue
        rec.label('accepted'); rec.interesting()
        check(refs, cls.__name__, 'accepted', repr(text), 'but gave no reference')
        used = set()
        for x in refs:
            for B, C, V, S in ([x] if len(x) == 4 else x):
                check(I.valid(B, int(C), int(V) if V else None), cls.__name__, 'accepted', repr(text), 'but gave', (B, C, V))
                used |= {C, V}
            if len(x) == 2:
                (B1, C1, V1, _), (B2, C2, V2, _) = x
                check((I.order.index(B1), int(C1), int(V1 or 1)) < (I.order.index(B2), int(C2), int(V2 or 999)), cls.__name__, 'accepted', repr(text), 'but gave a range backwards', x)
        lost = [n for n in numbers if n not in used and len(n) > 1 and not re.search(r'(^|[^0-9])%s ?[A-Za-z]' % n, text)]
        check(not lost, cls.__name__, 'accepted', repr(text), 'but lost', lost, 'giving', refs)
        if cls is BR.BibleReferenceList: r.getOSISRefList(); r.getReferenceList(expanded=True)


# ---------------------------------------------------------------- anchors
def anchor_case():
    item = st.one_of(st.tuples(N, st.integers(0, 9)), st.tuples(N, st.integers(0, 9), st.integers(1, 9), st.integers(0, 9))).map(list)
    return st.fixed_dictionaries({'B': st.sampled_from(['GEN', 'PSA', 'MAT', 'JDE', 'OBA', 'PHM', 'REV']), 'chaps': st.lists(st.tuples(N, st.lists(item, min_size=1, max_size=3)).map(list), min_size=1, max_size=2),
                                  'sep': st.integers(0, 1), 'elide': st.booleans(), 'home': st.integers(0, 5), 'hv': st.integers(-2, 2), 'tail': st.integers(0, 5), 'kind': st.integers(0, 4)})


def run_anchor(case, rec):
    B = case['B']
    one = B in ('JDE', 'OBA', 'PHM')
    sep = ':.'[case['sep']]
    refs, parts, places = [], [], []
    for ci, (c, items) in enumerate(case['chaps']):
        if one: c = 0
        c = c % 150 + 1
        if one and ci: break
        L = []
        for it in items:
            v = it[0] % 60 + 1
            s = 'abcde'[it[1]] if it[1] < 5 else ''
            if len(it) == 2:
                L.append(f'{v}{s}'); refs.append((B, str(c), str(v), s)); places.append((c, v))
            else:
                w = v + it[2]
                s2 = 'abcde'[it[3]] if it[3] < 5 else ''
                L.append(f'{v}{s}-{w}{s2}'); refs.append(((B, str(c), str(v), s), (B, str(c), str(w), s2)))
                places += [(c, k) for k in range(v, w + 1)]
        parts.append(('' if one and case['elide'] else f'{c}{sep}') + ','.join(L))
    text = '; '.join(parts)
    rec.label('range' if any(len(r) == 2 for r in refs) else 'verses', 'chapters' if len(parts) > 1 else 'one chapter', 'single-chapter book' if one else 'book')
    rec.interesting(len(places) > 1)
    a = BR.BibleAnchorReference(B, '3' if not one else '1', '7')
    ok, warn, got = a.parseAnchorString(text)
    equal(got, refs, 'parsed anchor', repr(text))
    check(ok is True, 'a correct anchor is reported as wrong:', repr(text))
    c, v = places[case['home'] % len(places)]
    v = max(1, v + case['hv'])
    home, hv = {0: (str(v), [v]), 1: (f'{v}-{v + 2}', [v, v + 1, v + 2]), 2: (f'{v},{v + 1}', [v, v + 1])}.get(case['kind'], (str(v), [v]))
    want = any((c, k) in places for k in hv)
    t = text + [' a', ':', '', '', ' ', ''][case['tail']]
    got = BR.BibleAnchorReference(B, str(c), home).matchesAnchorString(t)
    equal(bool(got), want, 'anchor', repr(t), 'in', B, c, home)
    check(not BR.BibleAnchorReference(B, str(c + 200), home).matchesAnchorString(t), 'anchor', repr(t), 'matched another chapter', c + 200)


SUBS = [
    Sub('lists', a_case, run_list, 1800, shards=3, rule='non-trivial: two or more references or a range'),
    Sub('single verses', lambda: a_case(single=True), run_single, 2500, shards=2, rule='non-trivial: two or more references'),
    Sub('out of range', bad_case, run_bad, 2500, shards=2, rule='non-trivial: every case'),
    Sub('any text', any_case, run_any, 5000, shards=2, rule='non-trivial: a parser accepts the text'),
    Sub('anchors', anchor_case, run_anchor, 3000, rule='non-trivial: more than one verse'),
]
