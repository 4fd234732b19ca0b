"""C27: malformed USFM never crashes loading, checking, searching or the plain-text exports, and does no harm to the rest.

Files are generated books with damage (markers put in, removed, doubled, cut, misspelt, bad numbers), or a soup of markers
and words, or arbitrary text or bytes.  Whatever they hold: the Bible loads, answers queries, can be searched, checked and
exported without an exception and within a time limit; the other books of the Bible and the chapters before the damage are
exactly as they are without the damaged file or the damaged chapter; and the words of a verse with damaged markers stay.
Not covered: unfoldingWord alignment milestones; verses numbered with more than three digits.
"""
import os, signal, types
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C27'
LIMIT = 30      # seconds for one case


def setup():
    global G, USFMBible
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Formats.USFMBible import USFMBible


def timed(f):
    def run(case, rec):
        def late(*_): raise Violation(f'not finished after {LIMIT} s')
        old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
        try: return f(case, rec)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    return run


# ------------------------------------------------------------------ damaged files

LINES = ['\\c 1', '\\c 2', '\\c', '\\c x', '\\c 0', '\\c 1 2', '\\v 1', '\\v', '\\v x', '\\v 1-', '\\v 3-2', '\\v -', '\\v 1,2', '\\v 1a,x', '\\v 0', '\\v 1–2', '\\v 2a-b', '\\v 7Word',
         '\\p', '\\p\\p', '\\q1', '\\q9', '\\s1', '\\s', '\\s5', '\\ms', '\\r', '\\d', '\\b', '\\nb', '\\m', '\\li1', '\\tr', '\\tr \\th1 a \\th2', '\\tc1 x', '\\id MRK', '\\id', '\\ide UTF-8', '\\h', '\\toc1', '\\mt1', '\\mt', '\\rem',
         '\\ip', '\\is', '\\io1 x', '\\cl', '\\cl Psalm 1', '\\cp', '\\cp A', '\\cd', '\\sp', '\\ts\\*', '\\zz', '\\zcustom text', '\\', '\\\\', '\\f', '\\f + \\ft x\\f*', '\\fe', '\\x*', '\\w', '\\P', '\\V 1', '\\qs*', '\\*', '', ' ', 'word', '…', '\\v1', '\\c1']
INSIDE = ['\\f + ', '\\f', '\\f*', '\\f + \\fr 1:1', '\\ft ', '\\fr 1.1: ', '\\fqa ', '\\fqa*', '\\fv 3\\fv*', '\\x - ', '\\x - \\xo 1:1 ', '\\x*', '\\xo ', '\\xt ', '\\fe + ', '\\fe*', '\\add ', '\\add*', '\\nd ', '\\nd*', '\\+nd ', '\\+nd*', '\\wj ', '\\wj*', '\\w ', '\\w*',
          '\\w word|lemma="x" ', '|lemma="x"', '|', '||', '\\fig ', '\\fig*', '\\fig a|src="x" size\\fig*', '\\fig |||||||||\\fig*', '\\fig x|y=\\fig*', '\\va 3\\va*', '\\va ', '\\vp 3b\\vp*', '\\vp ', '\\ca 2\\ca*', '\\qs ', '\\qs*', '\\rq ', '\\rq*', '\\k-s | x="y"\\*', '\\k-e\\*', '\\ts\\*',
          '\\zz ', '\\zz*', '\\', '\\\\', '\\*', '\\+', '\\ ', '*', '~', '//', '<', '>', '&', '"', '<b>', '&lt;', '‘', '”', '»', '«', '<<', '\ufeff', '\u200b', '\u00a0', '\t', '  ', '\u2028', '\x0c', '\n', '\n\n', '\\p ', '\\v 9 ', '\\v ', '\\c 5', '\\s1 ', '\\q1', '\\b', '\\i', '\\NoSuch ', '\\f1 ', '1', '-', '999']
WORDS = ['word', 'God', 'the', 'Noah', 'e', 'ñandú', 'אור', '世界', 'don’t', 'end.', '(x', '7:8', '1,000']


@st.composite
def damage(draw, s, n=4):
    for _ in range(draw(st.integers(1, n))):
        i = draw(st.integers(0, len(s))); j = min(len(s), i + draw(st.integers(1, 25)))
        k = draw(st.sampled_from(['in', 'in', 'line', 'line', 'out', 'twice', 'cut', 'move', 'char', 'joined']))
        if k == 'in': s = s[:i] + draw(st.sampled_from(INSIDE)) + s[i:]
        elif k == 'out': s = s[:i] + s[j:]
        elif k == 'twice': s = s[:j] + s[i:j] + s[j:]
        elif k == 'cut': s = s[:i]
        elif k == 'char': s = s[:i] + draw(st.characters(exclude_categories=['Cs'])) + s[i + 1:]
        elif k == 'joined': s = s[:i] + s[i:].replace('\n', ' ', 1)
        else:
            L = s.split('\n')
            x = L.pop(draw(st.integers(0, len(L) - 1))) if k == 'move' else draw(st.sampled_from(LINES)) + draw(st.sampled_from(['', ' ', ' word', ' word word']))
            L.insert(draw(st.integers(0, len(L))), x); s = '\n'.join(L)
    return s


def book(B, **kw): return g.book(BBB=B, **dict(dict(max_chapters=2, max_verses=4, long=False), **kw))


@st.composite
def soup(draw, B):
    return '\\id ' + g.USFM_ABBREV[B] + '\n' + ''.join(draw(st.lists(st.one_of(st.sampled_from(LINES).map(lambda x: '\n' + x), st.sampled_from(INSIDE), st.sampled_from(WORDS), st.sampled_from([w + ' ' for w in WORDS])), max_size=25)))


ANY = st.text(st.one_of(st.sampled_from('\\\\\\\n\n *+|"=-12cvpfxw'), st.characters(exclude_categories=['Cs'])), max_size=120)


@st.composite
def broken(draw, B):
    k = draw(st.integers(0, 9))
    if k < 6: return draw(damage(g.render(draw(book(B)), '\n')))
    if k < 9: return draw(soup(B))
    return draw(st.sampled_from(['', '\\id ' + g.USFM_ABBREV[B] + '\n', '\\id ' + g.USFM_ABBREV[B] + '\n\\c 1\n'])) + draw(ANY)


def put(folder, B, text):
    data = text.encode('utf-8', 'surrogatepass') if isinstance(text, str) else text
    with open(os.path.join(folder, f'{g.NR[B]}{g.USFM_ABBREV[B]}xyz.usfm'), 'wb') as f: f.write(data)


def load(folder):
    b = USFMBible(folder, 'xyz'); b.preload(); b.loadBooks()
    return b


def entries(bk): return [[e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(), e.getOriginalText(), [list(x) for x in e.getExtras() or []]] for e in bk._processedLines]


def use(bible, words):
    """every reading operation"""
    with quiet():
        bible.discover(); bible.check(); bible.getAddedUnits(); bible.getVersification(); bible.getCheckResults()
    for bk in bible:
        B = bk.BBB
        bk.getAssumedBookNames(); bk.getNumChapters(); bk.getNumVerses('1'); str(bk); len(bk); bk.getField('h')
        for e in bk: str(e)
        index = bk._CVIndex
        n, seen = len(bk._processedLines), 0
        for key in index:
            got = index.getVerseEntries(key)
            seen += len(got)
            index.getVerseEntriesWithContext(key) if key[0] != '-1' and key[0].isdecimal() and key[1][:1].isdecimal() else None
        check(bool(seen) or not n, f'{B}: no index entries for {n} lines')
        for ref in ((B,), (B, '1'), (B, '1', '1'), (B, '1', '2'), (B, '2', '3'), (B, '-1', '0')):
            for f in (bible.getContextVerseData, bible.getVerseDataList, bible.getVerseText):
                try:
                    with quiet(): f(ref)
                except KeyError: pass
    for w in words:
        for o in ({}, {'wordMode': 'Whole', 'caselessFlag': False}, {'chapterList': [1]}, {'includeExtrasFlag': True, 'includeMarkerTextFlag': True}):
            with quiet(): bible.findText(dict(o, findText=w))


# ------------------------------------------------------------------ subs

B_ONE = st.sampled_from(['MAT', 'PSA', 'JDE', 'GEN', 'REV', 'MRK'])


@st.composite
def total_case(draw):
    B = draw(B_ONE)
    return [B, draw(broken(B)), draw(st.sampled_from(['\n', '\n', '\n', '\r\n'])), draw(st.booleans())]


@timed
def total(case, rec):
    B, text, eol, bom = case
    with TempDir() as d:
        put(d, B, ('\ufeff' if bom else '') + text.replace('\n', eol))
        with quiet(): b = load(d)
        books = list(b)
        rec.interesting(bool(books) and len(books[0]._processedLines) > 4)
        rec.label('loaded' if books else 'not loaded')
        use(b, ['word', 'e', '\\'])


@st.composite
def bytes_case(draw):
    B = draw(B_ONE)
    s = g.render(draw(book(B)), '\n')
    data = bytearray(s.encode(draw(st.sampled_from(['utf-8', 'utf-8', 'utf-16', 'cp1252', 'iso-8859-15'])), 'replace'))
    for _ in range(draw(st.integers(1, 4))):
        i = draw(st.integers(0, len(data)))
        data[i:i + draw(st.integers(0, 3))] = draw(st.binary(max_size=4))
    return [B, bytes(data).hex()]


@timed
def raw_bytes(case, rec):
    B, data = case
    with TempDir() as d:
        put(d, B, bytes.fromhex(data))
        with quiet(): b = load(d)
        rec.interesting(bool(list(b)))
        use(b, ['e'])


@st.composite
def beside_case(draw):
    B, *good = draw(st.lists(st.sampled_from(['MAT', 'MRK', 'GEN', 'PSA', 'JDE', 'REV']), min_size=2, max_size=3, unique=True))
    return [B, draw(broken(B)), [draw(book(x)) for x in good]]


@timed
def beside(case, rec):
    B, text, good = case
    with TempDir() as d:
        a, z = os.path.join(d, 'a'), os.path.join(d, 'z')
        for x in (a, z): ld.write_usfm(x, good)
        put(z, B, text)
        with quiet(): b1, b2 = load(a), load(z)
        names = [x.BBB for x in b2]
        rec.interesting(B in names)
        for bk in good:
            n = bk['BBB']
            check(n in names, f'{n} was not loaded beside the damaged {B}')
            equal(entries(b2[n]), entries(b1[n]), f'{n} beside the damaged {B}')
        if B in names: use(b2, ['the'])
        for bk in good: equal(entries(b2[bk['BBB']]), entries(b1[bk['BBB']]), f'{bk["BBB"]} after use')


@st.composite
def before_case(draw):
    B = draw(st.sampled_from(['MAT', 'GEN', 'PSA', 'REV']))
    bk = draw(book(B, max_chapters=3))
    return [B, g.render(bk, '\n'), draw(damage(g.render(draw(book(B, intro=False)), '\n').split('\\c ', 1)[-1][1:], 5))]


@timed
def before(case, rec):
    B, head, tail = case
    if not head.endswith('\n'): head += '\n'
    with TempDir() as d:
        a, z = os.path.join(d, 'a'), os.path.join(d, 'z')
        os.mkdir(a); os.mkdir(z)
        start = head + '\\c 99\n\\p\n\\v 1 start\n'    # closing markers depend on what follows
        put(a, B, start); put(z, B, start + tail)
        with quiet(): b1, b2 = load(a), load(z)

        def upto(b):
            E = [x for x in entries(b[B]) if not x[0].startswith('¬')]
            i = [k for k, x in enumerate(E) if x[0] == 'c' and x[3] == '99'][:1]
            check(i, 'chapter 99 is missing')
            return [x for x in E[:i[0]] if x[0] not in ('chapters', 'intro', 'headers')]
        e1, e2 = upto(b1), upto(b2)
        rec.interesting(len(e1) > 8)
        equal(e2, e1, 'lines before the damaged chapter')
        again = [x[3] for x in entries(b2[B]) if x[0] == 'c'][len([x for x in e1 if x[0] == 'c']):]
        for C, V in [(x[0], x[1]) for x in b1[B]._CVIndex][:30]:
            if C in again: continue     # the damage repeats the chapter number
            if not C.isdecimal() or C == '99' or not V.isdecimal(): continue
            with quiet(): t1, t2 = b1.getVerseText((B, C, V)), b2.getVerseText((B, C, V))
            equal(t2, t1, f'text of {C}:{V}')


CHAR = ['\\add ', '\\add*', '\\nd ', '\\nd*', '\\+nd ', '\\+nd*', '\\wj ', '\\wj*', '\\qs ', '\\qs*', '\\bd ', '\\bd*', '\\it ', '\\it*', '\\tl ', '\\tl*', '\\f + \\ft ', '\\f*', '\\fqa ', '\\x - \\xo 1:1 \\xt ', '\\x*', '\\fe + \\ft ', '\\fe*', '~', '//', '“', '”', '<', '&', '"', ' ', '  ', '\\p ', '\\q1 ', '\\b ', '\\NoSuch ', '\\zz ', '\\zz*', '\\ ']


@st.composite
def words_case(draw):
    rows, n = [], 0
    for v in range(1, draw(st.integers(1, 4)) + 1):
        bits = []
        for _ in range(draw(st.integers(1, 6))):
            if draw(st.booleans()): bits.append(draw(st.sampled_from(CHAR)))
            n += 1; bits.append(f' tok{n}x ')
        if draw(st.integers(0, 3)) == 0: bits.append(draw(st.sampled_from(CHAR)))
        rows.append([draw(st.sampled_from(['p', 'q1', 'm', 'li1', None, None])), draw(st.sampled_from([str(v), str(v), f'{v}-{v}', f'{v}a'])), ''.join(bits).strip(' ')])
    return rows


@timed
def words(case, rec):
    text = '\\id MAT\n\\h Matthew\n\\mt1 Matthew\n\\c 1\n\\p\n' + ''.join((f'\\{p}\n' if p else '') + f'\\v {v} {t}\n' for p, v, t in case)
    rec.interesting(any('\\' in t for _, _, t in case))
    with TempDir() as d:
        put(d, 'MAT', text)
        with quiet(): b = load(d)
        check('MAT' in b, 'book not loaded')
        V, have = None, {}
        for e in b['MAT']._processedLines:
            if e.getMarker() == 'v': V = e.getCleanText()
            if not e.getMarker().startswith('¬'):
                have.setdefault(V, []).append(e.getAdjustedText() or '')
                have[V] += [x.getText() for x in e.getExtras() or []]
                have.setdefault(('o', V), []).append(e.getOriginalText() or '')
        import re
        for p, v, t in case:
            for tok in re.findall(r'tok\d+x', t):
                check(any(tok in x for x in have.get(v, [])), f'{tok} of verse {v} is not in its text or notes: {short(have.get(v))}')
                check(any(tok in x for x in have.get(('o', v), [])), f'{tok} of verse {v} is not in its original text')
        equal([v for v in have if isinstance(v, str)], list(dict.fromkeys(v for _, v, _ in case)), 'verses')


EXPORTS = ['toText', 'toVPL', 'toUSFM2', 'toUSFM3', 'toESFM', 'toPseudoUSFM', 'toHTML5', 'toMarkdown', 'toTeX', 'toESword', 'toMySword', 'toMyBible', 'totheWord', 'toOpenSongXML', 'toHaggaiXML', 'toDrupalBible', 'makeLists', 'toSwordSearcher', 'toPickledBible']


@st.composite
def export_case(draw):
    B = draw(B_ONE)
    return [B, draw(broken(B)), draw(st.lists(st.sampled_from(EXPORTS), min_size=2, max_size=4, unique=True))]


@timed
def exports(case, rec):
    B, text, how = case
    with TempDir() as d:
        os.mkdir(d + '/in'); put(d + '/in', B, text)
        with quiet(): b = load(d + '/in')
        if not list(b): return
        lines = entries(b[B])
        for e in how:
            out = os.path.join(d, e); os.mkdir(out)
            with quiet(): getattr(b, e)(out)
            rec.label(e)
            if e in ('toUSFM3', 'toUSFM2', 'toESFM', 'toHTML5', 'toPickledBible', 'toPseudoUSFM'): check(any(f for _, _, f in os.walk(out)), f'{e} wrote nothing')
        rec.interesting(len(lines) > 4)
        equal(entries(b[B]), lines, 'the book after the exports')


SUBS = [
    Sub('total', lambda: total_case(), total, 900, rule='the damaged file loads to more than four lines'),
    Sub('bytes', lambda: bytes_case(), raw_bytes, 200, rule='the file was loaded'),
    Sub('beside', lambda: beside_case(), beside, 200, rule='the damaged book was loaded'),
    Sub('before', lambda: before_case(), before, 250, rule='more than eight lines come before the damage'),
    Sub('words', lambda: words_case(), words, 500, rule='a verse has markers'),
    Sub('exports', lambda: export_case(), exports, 250, rule='more than four lines'),
]
