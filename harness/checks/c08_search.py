"""C08: searching a Bible finds every occurrence and nothing else."""
import re
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C08'


def setup():
    global G, Key, ACCENTS
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey as Key
    ACCENTS = dict(G.ACCENT_DICT)


NOTES = {'fn': 'f', 'en': 'fe', 'xr': 'x'}
REGEXES = [r'[A-Z]\w+', r'\b\w{3}\b', r'(the|God|a)', r'\w+ing', r'[^\w\s]+$', r'^\w+', r'\S+é\S*', r'o.', r'[aeiou]{2}', r'\\(p|q1|v) ?', r'x*']


@st.composite
def options(draw):
    o = {}
    if draw(st.booleans()): o['wordMode'] = draw(st.sampled_from(['Any', 'Whole', 'Begins', 'EndsWord', 'EndsLine', 'Whole']))
    if draw(st.integers(0, 2)): o['caselessFlag'] = draw(st.booleans())
    if draw(st.booleans()): o['ignoreDiacriticsFlag'] = draw(st.booleans())
    if draw(st.booleans()): o['contextLength'] = draw(st.sampled_from([0, 1, 5, 30, 60]))
    if draw(st.integers(0, 4)) == 0:
        o['markerList'] = draw(st.lists(st.sampled_from(['p', 'q', 'q1', 'q2', 's1', 's', 'm', 'li1', 'ip', 'mt', 'h', 'id', 'd', 'v', 'pi1', 'nb']), min_size=1, max_size=3))
        for k in ('includeIntroFlag', 'includeMainTextFlag', 'includeMarkerTextFlag', 'includeExtrasFlag'): o[k] = False
    else:
        for k in ('includeIntroFlag', 'includeMainTextFlag', 'includeMarkerTextFlag', 'includeExtrasFlag'):
            if draw(st.booleans()): o[k] = draw(st.booleans())
    return o


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 1, 1, 2]))
    B = draw(st.lists(st.sampled_from(g.BOOKS), min_size=n, max_size=n, unique=True))
    books = [draw(g.book(BBB=b, max_chapters=2, max_verses=4, figs=False, words=False)) for b in B]
    o = draw(options())
    k = draw(st.integers(0, 9))
    if k <= 4: what = ['sub', draw(st.integers(0, 999)), draw(st.integers(0, 99)), draw(st.integers(1, 8))]
    elif k <= 6: what = ['word', draw(st.integers(0, 999)), draw(st.integers(0, 99))]
    elif k == 7: what = ['text', draw(st.sampled_from(['a', 'e', 'the', 'God', 'og', 'ss', 'aa', 'i', 'E', 'AE', 'ñ', 'ı', 'n', 'ο', ' o', 'word', 'well-known']))]
    else: what = ['regex', draw(st.sampled_from(REGEXES))]
    what = what + [draw(st.sampled_from(['as', 'as', 'as', 'upper', 'lower', 'plain']))]
    if draw(st.integers(0, 3)) == 0: o['bookList'] = draw(st.sampled_from([B[:1], B[-1:], ['GEN'], B[0], None, 'ALL']))
    if draw(st.integers(0, 4)) == 0: o['chapterList'] = draw(st.sampled_from([['1'], [1], ['2'], [2, -1], ['-1'], [-1], ['1', '2'], [0]]))
    return [books, o, what]


def fold_map(text, o):
    """→ (adjusted text, for each of its characters the position in the text)"""
    out, where = [], []
    for i, c in enumerate(text):
        if o['ignoreDiacriticsFlag']: c = ACCENTS.get(c, c)
        if o['caselessFlag']: c = c.lower()
        out.append(c); where += [i] * len(c)
    return ''.join(out), where


def lines_of(book, BBB):
    """[(entry, C, V, number in the book)] of the lines that hold text."""
    C, V = '-1', ''
    for i, e in enumerate(book):
        m, t = e.getMarker(), e.getCleanText()
        if m == 'c': C, V = t, '0'
        elif m == 'v' and C != '-1': V = t
        if m[0] == '¬' or m in ('headers', 'intro', 'chapters'): continue
        yield e, C, str(i) if C == '-1' else V.split('-')[0]


def expected(bible, o, find):
    PARA = G.USFMParagraphMarkers
    out, searched, found = [], [], []
    regex = find[6:] if find.lower().startswith('regex:') else None
    needle = fold_map(find, o)[0]
    wanted = {G.loadedUSFMMarkers.toStandardMarker(m) for m in o['markerList']} if o['markerList'] else None
    for B in bible.books:
        bl = o['bookList']
        if not (bl is None or bl == 'ALL' or bl == B or (isinstance(bl, list) and B in bl)): continue
        searched.append(B)
        para = None
        for e, C, V in lines_of(bible.books[B], B):
            m = e.getMarker()
            if m in PARA: para = m
            if o['chapterList'] is not None and int(C) not in [int(x) for x in o['chapterList']]: continue
            main = m in ('v~', 'p~') or m in PARA
            if wanted is not None:
                if m not in wanted and not (m in ('v~', 'p~') and para in wanted): continue
            elif C == '-1' and not o['includeIntroFlag']: continue
            t = e.getFullText() if o['includeExtrasFlag'] else e.getCleanText()
            if wanted is None and main and C != '-1' and not o['includeMainTextFlag']:
                t = ''
                if o['includeExtrasFlag']:
                    t = ' '.join((f'\\{NOTES[x.getType()]} ' if o['includeMarkerTextFlag'] else '') + x.getText() for x in e.getExtras() or [])
            if o['includeMarkerTextFlag']: t = f'\\{m} {t}'
            if not t: continue
            f, where = fold_map(t, o)
            where = where + [len(t)]
            hits = []
            if regex is not None:
                rx = ''.join(ACCENTS.get(c, c) for c in regex) if o['ignoreDiacriticsFlag'] else regex
                if o['caselessFlag']: rx = '(?i)' + rx
                for k in re.finditer(rx, f): hits.append((where[k.start()], where[k.end() - 1] + 1 if k.end() > k.start() else where[k.start()]))
            else:
                for a in range(len(f) - len(needle) + 1):
                    if f[a:a + len(needle)] != needle: continue
                    z = a + len(needle)
                    starts, ends = a == 0 or not f[a - 1].isalpha(), z == len(f) or not f[z].isalpha()
                    w = o['wordMode']
                    if w == 'Whole' and not (starts and ends) or w == 'Begins' and not starts or w == 'EndsWord' and not ends or w == 'EndsLine' and z < len(f): continue
                    hits.append((where[a], where[z - 1] + 1))
            n = o['contextLength']
            for a, z in hits:
                before, after = (t[max(0, a - n):a], t[z:z + n]) if n else (None, None)
                out.append([[B, C, V, a], e.getOriginalMarker(), before] + ([t[a:z]] if o['caselessFlag'] else []) + [after])
            if hits and B not in found: found.append(B)
    return out, searched, found


DEFAULTS = {'wordMode': 'Any', 'caselessFlag': True, 'ignoreDiacriticsFlag': False, 'includeIntroFlag': True, 'includeMainTextFlag': True, 'includeMarkerTextFlag': False,
            'includeExtrasFlag': False, 'contextLength': 30, 'bookList': 'ALL', 'chapterList': None, 'markerList': None}


def run(c, rec):
    books, opts, what = c
    with TempDir() as d, quiet():
        ld.write_usfm(d, books)
        bible = ld.load_usfm(d)
    full = DEFAULTS | opts
    kind, how = what[0], what[-1]
    if kind == 'regex':
        find = 'regex:' + what[1]
    else:
        if kind == 'text': find = what[1]
        else:
            texts = [t for B in bible.books for e in bible.books[B] for t in [e.getFullText() if full['includeExtrasFlag'] else e.getCleanText()] if t and e.getMarker()[0] != '¬']
            t = texts[what[1] % len(texts)]
            if kind == 'sub': a = what[2] % len(t); find = t[a:a + what[3]]
            else: ws = t.split(); find = ws[what[2] % len(ws)].strip('.,;:?!“”‘’()[]…—–') or 'a'
        if how == 'upper': find = ''.join(ch.upper() if len(ch.upper()) == 1 else ch for ch in find)
        elif how == 'lower': find = find.lower()
        elif how == 'plain': find = ''.join(ACCENTS.get(ch, ch) for ch in find)
        if full['wordMode'] != 'Any': find = find.replace(' ', '')
        if not find or 'Σ' in find or find.lower().startswith('regex:'): raise Discard()
    o = dict(opts); o['findText'] = find
    history = ['one', find, 'two'] if len(find) % 2 else ['one']
    o['findHistoryList'] = list(history)
    with quiet(): got_o, summary, results = bible.findText(o)
    want, searched, found = expected(bible, full, find)
    rec.interesting(len(want) > 1)
    rec.label(kind)
    for k, v in full.items():
        if v != DEFAULTS[k]: rec.label(k)
    if not want: rec.label('nothing found')
    got = [[[r[0].getBBB(), r[0].getChapterNumber(), r[0].getVerseNumber() + (r[0].getVerseSuffix() or ''), int(r[0].getVerseIndex() or 0)]] + list(r[1:]) for r in results]
    equal(got, want, 'results for', find, opts)
    equal(summary['searchedBookList'], searched, 'searched books')
    equal(summary['foundBookList'], found, 'books with results')
    for k, v in full.items(): equal(got_o[k], v, 'option', k)
    equal(got_o['findText'], find, 'search text')
    equal(got_o['findHistoryList'], [x for x in history if x != find] + [find], 'search history')
    equal(got_o['regexFlag'], kind == 'regex', 'regular expression flag')
    for r in results[:20]: # the reference of a line before chapter 1 leads back to the line
        if r[0].getChapterNumber() == '-1':
            with quiet(): data = bible.getContextVerseData(r[0])
            equal([e.getOriginalMarker() for e in data[0]], [r[1]], 'line at', str(r[0]))


SUBS = [Sub('search', case, run, 2400, rule='more than one place found', shards=6,
            examples=[[[{'BBB': 'PSA', 'lines': [['id', '', [['t', 'PSA']]], ['c', '119', []], ['q1', '', []], ['v', v, [['t', 'A word']]]]}], {}, ['text', 'word', 'as']] for v in ('105a', '105-106', '105a-b')])]
