"""C33: comparing two versions of the same books reports exactly the differences."""
import datetime, os, re, unicodedata
from collections import Counter
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C33'
ADDED = ('headers', 'intro')
BOUNDARIES = ('c', 'p', 's1', 's2', 's3', 's4', 'ms', 'r', 'd', 'sp')


def setup():
    global G, CB
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Misc import CompareBibles as CB


# ---------------------------------------------------------------- generator
WORDS = ['ani', 'bukad', 'kene', 'si', 'Manama', 'man-ama', 'egoh', 'tanà', 'in', '40', '7']
BITS = [' '] * 8 + [', ', '. ', '? ', '! ', ': ', '; ', ' (', ') ', ' [', '] ', ' “', '” ', ' ‘', '’ ', '—', '…', '  ', ' ,', ' «', '» ', '” ’', '“ ‘', ' _', '_ ', "'", '-', ' ¿', '= ', '/', '"', 'XXX', ').', '–']
NOTES = [' \\f + \\fr 1:1 \\ft Ini (si).\\f*', '\\f + \\ft Ini ta\\f*.', '\\x - \\xo 1:1: \\xt Gen 1:1.\\x*', ' \\fe + \\ft “ saa.\\fe*', '\\f - \\ft ok.\\f* ']
CHARS = [('\\wj ', '\\wj*'), ('\\nd ', '\\nd*'), ('\\add ', '\\add* ')]


@st.composite
def phrase(draw, rich=True):
    out = []
    for _ in range(draw(st.integers(1, 7))):
        out.append(draw(st.sampled_from(WORDS)))
        k = draw(st.integers(0, 11)) if rich else 0
        if k == 11: out.append(draw(st.sampled_from(NOTES)) + ' ')
        elif k == 10:
            a, b = draw(st.sampled_from(CHARS)); out.append(' ' + a + draw(st.sampled_from(WORDS)) + b + ' ')
        elif k > 5: out.append(draw(st.sampled_from(BITS)))
        else: out.append(' ')
    return ''.join(out).strip()


@st.composite
def edited(draw, text):
    """A second version: other words, some characters added or lost."""
    bits = re.findall(r'\\\S+\s?|\w+|\s+|.', text)
    for _ in range(draw(st.integers(0, 2))):
        if not bits: break
        i = draw(st.integers(0, len(bits) - 1))
        if '\\' in bits[i]: continue
        k = draw(st.integers(0, 2))
        if k == 0: bits[i] = draw(st.sampled_from(WORDS))
        elif k == 1: del bits[i]
        else: bits.insert(i, draw(st.sampled_from([b for b in BITS if b.strip()])))
    return ''.join(bits).strip()


MARKERS = ['v'] * 8 + ['p', 'q1', 'q2', 'm', 's1', 'r', 'p~', 'b', 'ms1', 'd', 'sp']


@st.composite
def book(draw, B):
    rows = [['h', 'Ani', 'Ini'], ['mt1', 'Ani si', 'Ini (si)']]
    if draw(st.booleans()): rows.insert(1, ['rem', draw(st.sampled_from(['ani, si', 'ani \\f + \\ft si\\f*'])), 'ani si.'])
    if draw(st.integers(0, 3)) == 0: rows.append(['ip', draw(phrase()), draw(phrase())])
    for c in range(1, draw(st.integers(1, 2)) + 1):
        rows += [['c', str(c), str(c)], ['p', '', '']]
        v = 0
        for _ in range(draw(st.integers(1, 9))):
            m = draw(st.sampled_from(MARKERS))
            if m == 'v':
                v += 1
                t = draw(phrase()); u = draw(edited(t)) if draw(st.integers(0, 4)) else draw(phrase())
                rows.append(['v', f'{v} {t}', f'{v} {u}'.rstrip()])
            elif m == 'b': rows.append(['b', '', ''])
            elif m == 'p~': pass
            else:
                t = draw(phrase(rich=m[0] in 'pqm' and m != 'ms1')); u = draw(edited(t))
                if m in ('p', 'q1', 'q2', 'm') and draw(st.booleans()): t = u = ''
                rows.append([m, t, u])
    # lines which only one of them has
    first = next(i for i, r in enumerate(rows) if r[0] == 'c') + 1
    for _ in range(draw(st.integers(0, 3)) if draw(st.booleans()) else 0):
        i = draw(st.integers(first, len(rows) - 1))
        k = draw(st.integers(0, 3))
        if rows[i][0] in ('c', 'v'): k = k % 2 + 1 if k else 0
        if k == 0: rows.insert(i, [draw(st.sampled_from(['b', 'p', 'q1', 's1', 'm'])), '', None])
        elif k == 1: rows.insert(i, [draw(st.sampled_from(['b', 'p', 'q1', 'q2', 's1'])), None, ''])
        elif k == 2: pass
        else: rows[i][draw(st.integers(1, 2))] = None
    for r in rows:
        if r[0] in ('s1', 'r') and '' in r[1:]: r[1:] = [x if x is None else x or 'si' for x in r[1:]]
    return {'BBB': B, 'rows': rows}


STRINGS = ['si', 'ani ', '(', '“ ', ' ”', ', ', 'ni', 'Manama', '\\wj', 'f*.', '__', '40']
PAIRS = [('si', 'si Manama'), ('si', 'ini si'), ('“ ', '“ ‘'), ('(', '(si'), ('ani ', 'ani si'), ('40', '40 7'), ('si', ' si'), ('si', 'si '), ('ni', 'ini'), ('ni', 'ani'), ('ni', 'ni ')]
REGEXES = [r'si \w', r'[0-9]{2}', r'“\w+”', r'\\f \+', r'ani$']


@st.composite
def case(draw):
    Bs = draw(st.lists(st.sampled_from(['MAT', 'MRK', 'GEN', 'JDE', 'TOB']), min_size=1, max_size=2, unique=True))
    out = {'books': [draw(book(B)) for B in Bs], 'only': draw(st.sampled_from([None, None, 0, 1])), 'options': {}}
    if draw(st.booleans()):
        sub = lambda pool, n=4: draw(st.lists(st.sampled_from(pool), max_size=n, unique=True))
        o = out['options']
        if draw(st.booleans()): o['compareQuotes'] = ''.join(sub(list('“”‘’«¿')))
        if draw(st.booleans()): o['comparePunctuation'] = ''.join(sub(list('.,:;()!—')))
        if draw(st.booleans()): o['compareDigits'] = ''.join(sub(list('0147')))
        for n in '12':
            if draw(st.booleans()): o['illegalCleanTextOnlyStrings' + n] = sub(STRINGS)
            if draw(st.booleans()): o['illegalCompleteLineStrings' + n] = sub(STRINGS)
            if draw(st.booleans()):
                key = draw(st.sampled_from(['si', 'ni', None]))
                pairs = o['legalPairs' + n] = [list(p) for p in sub([p for p in PAIRS if key in (None, p[0])])]
                for k in ('illegalCleanTextOnlyStrings' + n, 'illegalCompleteLineStrings' + n):
                    if draw(st.booleans()): o[k] = o.get(k, []) + [x for x in dict.fromkeys(x for x, _ in pairs) if x not in o.get(k, [])]
            if draw(st.booleans()): o['illegalCompleteLineRegexes' + n] = sub(REGEXES)
        if draw(st.booleans()): o['matchingPairs'] = [list(p) for p in sub([('(', ')'), ('[', ']'), ('“', '”'), ('_ ', ' _')])]
        if draw(st.integers(0, 2)) == 0: o['breakOnOne'] = True
    return out


def load(case, which):
    """which: 1 or 2"""
    books = []
    for i, bk in enumerate(case['books']):
        if which == 2 and case['only'] == i and len(case['books']) > 1: continue
        lines = [f"\\id {g.USFM_ABBREV[bk['BBB']]} xyz"]
        lines += [f'\\{r[0]} {r[which]}'.rstrip() for r in bk['rows'] if r[which] is not None]
        books.append((bk['BBB'], '\n'.join(lines) + '\n'))
    with TempDir() as d, quiet():
        from BibleOrgSys.Formats.USFMBible import USFMBible
        for B, t in books:
            with open(f'{d}/{g.NR[B]}{g.USFM_ABBREV[B]}xyz.usfm', 'w', encoding='utf-8') as f: f.write(t)
        b = USFMBible(d, f'xyz{which}', f'xyz{which}')
        b.loadBooks()
        return b


def rows_of(book):
    return [(e.getMarker(), e.getOriginalMarker(), e.getOriginalText() or '', e.getCleanText(), e.getFullText(),
             [(x.getCleanText(), x.getText()) for x in (e.getExtras() or ())]) for e in book._processedLines]


# ---------------------------------------------------------------- oracle
def aligned(rows1, rows2, skipped=''):
    """Yields (reference, row1, row2, message): the lines that belong together and what doesn't fit."""
    i = j = bad = 0
    C, V, header = None, '0', -1
    seen = -1
    while i < len(rows1) and j < len(rows2):
        a, b = rows1[i], rows2[j]
        if i != seen:
            seen = i
            if a[0] == 'c': C, V = a[2].split()[0], '0'
            elif a[0] == 'v': C, V = C or '1', a[2].split()[0]
            elif C is None and a[0] not in ADDED and (skipped or a[0][0] != '¬'): header += 1
        ref = (C or '-1', str(header) if C is None else V, a[1] if a[1] is not None else ' ')
        if a[0] == b[0]:
            bad = 0
            yield ref, a, b, None
            i += 1; j += 1
            continue
        bad += 1
        text = 'Mismatched markers: %r vs %r' % (a[0], b[0])
        if bad == 4:
            yield ref, a, None, text + '—aborted checking of %s now!'
            break
        yield ref, a, None, text
        if i + 1 < len(rows1) and rows1[i + 1][0] == b[0]:
            yield ref, a, None, 'Skipping book1 marker%s: %r' % (skipped, a[0]); i += 1
        elif j + 1 < len(rows2) and rows2[j + 1][0] == a[0]:
            yield ref, a, None, 'Skipping book2 marker%s: %r' % (skipped, b[0]); j += 1
        else: i += 1; j += 1
    if skipped:
        for n, rows, k in ((1, rows1, i), (2, rows2, j)):
            rest = rows[k:]
            if rest: yield ref, None, None, 'Extra marker%s remaining in book%d: %r%s' % ('' if len(rest) == 1 else 's (%d)' % len(rest), n, rest[0][0], '…' if len(rest) > 1 else '')


def name(ch): return unicodedata.name(ch, ch)


def unmatched(l, r, text):
    """Positions of closing characters without an opening one, and of opening ones without a closing one."""
    opened, closing = [], []
    for i, ch in enumerate(text):
        if ch == l: opened.append(i)
        elif ch == r:
            if opened: opened.pop()
            else: closing.append(i)
    return closing, opened


def around(text, start, end):
    start = max(0, start)
    s = text[start:end]
    if start > 0 and s[0] != ' ': s = '…' + s
    if end < len(text) and s[-1] != ' ': s += '…'
    return s


def expected(rows1, rows2, BBB, o):
    out = []
    if len(rows1) != len(rows2):
        out.append((('0', '0', ' '), "Book lengths don't match: %d vs %d newline markers" % (len(rows1), len(rows2))))
    waiting = {}
    one = o.get('breakOnOne', False)
    get = lambda k, d: o.get(k, getattr(CB, d))
    clean = [get('illegalCleanTextOnlyStrings1', 'DEFAULT_ILLEGAL_USFM_CLEAN_TEXT_ONLY_STRINGS_VERNACULAR'), get('illegalCleanTextOnlyStrings2', 'DEFAULT_ILLEGAL_USFM_CLEAN_TEXT_ONLY_STRINGS_BACK_TRANSLATION')]
    full = [get('illegalCompleteLineStrings1', 'DEFAULT_ILLEGAL_COMPLETE_LINE_STRINGS_VERNACULAR'), get('illegalCompleteLineStrings2', 'DEFAULT_ILLEGAL_COMPLETE_LINE_STRINGS_BACK_TRANSLATION')]
    legal = [get('legalPairs1', 'DEFAULT_LEGAL_PAIRS_VERNACULAR'), get('legalPairs2', 'DEFAULT_LEGAL_PAIRS_BACK_TRANSLATION')]
    regexes = [get('illegalCompleteLineRegexes1', 'DEFAULT_ILLEGAL_COMPLETE_LINE_REGEXES_VERNACULAR'), get('illegalCompleteLineRegexes2', 'DEFAULT_ILLEGAL_COMPLETE_LINE_REGEXES_BACK_TRANSLATION')]
    for ref, a, b, message in aligned(rows1, rows2):
        if a[0] in BOUNDARIES: waiting.clear()
        if message:
            out.append((ref, message % BBB if '%s' in message else message))
            continue
        add = lambda text: out.append((ref, text))
        for what, chars, show in (('quote', get('compareQuotes', 'DEFAULT_COMPARE_QUOTES'), name), ('punctuation', get('comparePunctuation', 'DEFAULT_COMPARE_PUNCTUATION'), name), ('digit', get('compareDigits', 'DEFAULT_COMPARE_DIGITS'), repr)):
            for ch in chars:
                n1, n2 = a[2].count(ch), b[2].count(ch)
                if n1 != n2:
                    add(f'Mismatched {what}: {n1} vs {n2} {show(ch)}')
                    if one: break
        for l, r in get('matchingPairs', 'DEFAULT_MATCHING_PAIRS'):
            for n, text in ((1, a[2]), (2, b[2])):
                if len(l) > 1:
                    nl, nr = text.count(l), text.count(r)
                    if nl != nr: add('Too many %r in Bible%d' % (l if nl > nr else r, n))
                    continue
                closing, opened = unmatched(l, r, text)
                w = waiting.setdefault((n, l), [])
                if closing:
                    if w: out.remove(w.pop())
                    else: add('Missing first part of pair in Bible%d: %r before %r' % (n, l, around(text, closing[0] - 6, closing[0] + 6)))
                if opened:
                    add('Missing second part of pair in Bible%d: %r after %r' % (n, r, around(text, opened[-1] - 5, opened[-1] + 7)))
                    w.append(out[-1])
        if a[0] in ('id', 'ide', 'rem') or not (a[2] or b[2]): continue
        if len(a[5]) != len(b[5]): add('Differing numbers of extras/notes: %d vs %d' % (len(a[5]), len(b[5])))
        for n, row in ((1, a), (2, b)):
            for strings, k, where, note in ((clean[n - 1], 3, ' main text', ' note main text'), (full[n - 1], 4, '', ' note')):
                for s in strings:
                    allowed = sum(row[k].count(y) for x, y in legal[n - 1] if x == s)
                    if row[k].count(s) > allowed: add('Illegal string in Bible%d%s: %r' % (n, where, s))
                    for x in row[5]:
                        if s in x[0 if k == 3 else 1]: add('Illegal string in Bible%d%s: %r' % (n, note, s))
            for rx in regexes[n - 1]:
                m = re.search(rx, row[4])
                if m: add('Illegal %r regex string in Bible%d: %r' % (rx, n, m.group(0))); break
    return out


def place(ref):
    return tuple(int(re.match(r'-?\d+', x).group()) for x in ref[:2])


def run_compare(case, rec):
    b1, b2 = load(case, 1), load(case, 2)
    o = dict(case['options'])
    with quiet(): results = CB.compareBibles(b1, b2, **o)
    common = [bk.BBB for bk in b1 if bk.BBB in b2]
    equal(list(results), common, 'books compared')
    total = 0
    for B in common:
        exp = expected(rows_of(b1[B]), rows_of(b2[B]), B, o)
        equal(Counter(results[B]), Counter(exp), 'differences of', B)
        refs = [place(r) for r, _ in results[B] if r[:2] != ('0', '0')]
        check(refs == sorted(refs), 'differences not in order', B, short(results[B]))
        total += len(exp)
        rec.label(*{t.split(':')[0] for _, t in exp})
    rec.interesting(total > 1)


def run_same(case, rec):
    """Comparing equal books never reports a difference."""
    for bk in case['books']:
        for r in bk['rows']: r[2] = r[1]
    case = dict(case, only=None)
    b1, b2 = load(case, 1), load(case, 2)
    with quiet(): results = CB.compareBibles(b1, b2)
    for B, rs in results.items():
        for ref, t in rs: check(t.startswith(('Missing', 'Too many', 'Illegal')), 'difference between equal books', B, ref, t)
    rec.interesting(any('\\f' in str(r[1]) or ',' in str(r[1]) for bk in case['books'] for r in bk['rows']))


# ---------------------------------------------------------------- segments and words
def segments(text):
    """Words of each sentence of a text made from our pieces."""
    out = []
    text = re.sub(r'\\(wj|nd)[ *]', '', text)
    for s in re.split('[.?!;:]', text):
        words = []
        for w in re.split(r'[\s–—]+', s):
            w = w.strip('“”‘’«»¿,()"…')
            if w and not re.fullmatch(r'[\d,-]+', w): words.append(w)
        out.append(words)
    return out


SEP = st.sampled_from([' '] * 6 + [', ', '. ', '? ', '! ', ': ', '; ', ' (', ') ', ' “', '” ', ' ‘', '’ ', '—', '–', '… ', ' «', '» ', '?” ', '. “', ' ¿'])


@st.composite
def sentence(draw):
    out = ''
    for _ in range(draw(st.integers(1, 12))):
        w, k = draw(st.sampled_from(WORDS)), draw(st.integers(0, 9))
        out += ('\\%s %s\\%s*' % (k and 'nd' or 'wj', w, k and 'nd' or 'wj') if k < 2 else w) + draw(SEP)
    return out.strip()


@st.composite
def segment_case(draw):
    rows = [['h', 'Ani', 'Ini'], ['c', '1', '1'], ['p', '', '']]
    v = 0
    for _ in range(draw(st.integers(1, 8))):
        m = draw(st.sampled_from(['v', 'v', 'v', 'q1', 's1', 'b']))
        t, u = draw(sentence()), draw(sentence())
        if draw(st.booleans()): u = re.sub(r'ani|si|egoh', lambda _: draw(st.sampled_from(['ini', 'sa', 'bukad'])), t)
        if m == 'v': v += 1; t, u = f'{v} {t}', f'{v} {u}'
        if m == 'b': t = u = ''
        rows.append([m, t, u])
    for n in (1, 2):
        for _ in range(draw(st.integers(0, 5)) if draw(st.integers(0, 2)) == 0 else 0):
            row = [draw(st.sampled_from(['b', 'm', 'q1', 'p'])), None, None]; row[n] = ''
            rows.insert(len(rows) if draw(st.booleans()) else draw(st.integers(3, len(rows))), row)
    words = st.sampled_from(['ani', 'bukad', 'kene', 'si', 'Manama', 'man-ama', 'egoh', 'tanà', 'in', 'ini', 'sa', 'ani si', 'si Manama', 'kene in egoh'])
    entries = draw(st.lists(st.tuples(st.lists(words, min_size=1, max_size=3, unique=True), st.sampled_from(['=', '=>', '<=', ' = ', ' => ']), st.lists(words, min_size=1, max_size=3, unique=True)), max_size=6))
    return {'books': [{'BBB': 'MRK', 'rows': rows}], 'only': None, 'entries': [list(e) for e in entries],
            'comment': draw(st.booleans()), 'bom': draw(st.booleans()), 'last': draw(st.booleans())}


def occurrences(phrase, words):
    p = phrase.split()
    return sum(words[i:i + len(p)] == p for i in range(len(words) - len(p) + 1))


def run_segments(case, rec):
    b1, b2 = load(case, 1), load(case, 2)
    for bk in case['books']:
        for r in bk['rows']:
            for t in r[1:]:
                if t: equal(CB.segmentizeLine(t), segments(t), 'segments of', t)
                if t: equal(CB.segmentizeLine(t, None), [sum(segments(re.sub('[.?!;:]', ',', t)), [])] if not re.search(r'[.?!;:](?=[^\s”’»)])', t) else CB.segmentizeLine(t, None), 'words of', t)
    with quiet(): segs, left = CB.segmentizeBooks(b1['MRK'], b2['MRK'])
    r1, r2 = rows_of(b1['MRK']), rows_of(b2['MRK'])
    exp_segs, exp_left = [], []
    if len(r1) != len(r2): exp_left.append((('0', '0', ' '), "Book lengths don't match: %d vs %d newline markers" % (len(r1), len(r2))))
    for ref, a, b, message in aligned(r1, r2, ' to continue'):
        if message: exp_left.append((ref, message % 'MRK' if '%s' in message else message))
        elif a[0] not in ('id', 'ide', 'rem', 'c', 'v'):
            s1, s2 = segments(a[2]), segments(b[2])
            if len(s1) == len(s2): exp_segs += [(ref, x, y) for x, y in zip(s1, s2) if x and y]
    equal(segs, exp_segs, 'segments')
    equal(left, exp_left, 'lines that do not match')
    # the file of corresponding words
    with TempDir() as d, quiet():
        text = ''.join(('# comment = other\n\n' if case['comment'] else '') + (' ' if case['bom'] and case['last'] else '') + '\\'.join(l) + mid + '\\'.join(r) + '\n' for l, mid, r in case['entries'])
        if case['last']: text = text.rstrip('\n')
        with open(d + '/words.txt', 'wb') as f: f.write((b'\xef\xbb\xbf' if case['bom'] else b'') + text.encode())
        d12, d21 = CB.loadWordCompares(d, 'words.txt')
    e12, e21 = {}, {}
    for l, mid, r in case['entries']:
        if '<' not in mid:
            for x in l: e12.setdefault(x, []).extend(r)
        if '>' not in mid:
            for x in r: e21.setdefault(x, []).extend(l)
    equal(d12, e12, 'words 1 to 2'); equal(d21, e21, 'words 2 to 1')
    for dd in (d12, d21): check([len(k) for k in dd] == sorted((len(k) for k in dd), reverse=True), 'not longest first', list(dd))
    got = Counter(CB.analyzeWords(segs, d12, d21))
    exp = Counter()
    for ref, s1, s2 in exp_segs:
        for one, two, dd in ((s1, s2, d12), (s2, s1, d21)):
            inside = set()
            for k, values in dd.items():
                n = occurrences(k, one)
                if n and ' ' in k: inside.update(k.split())
                m = sum(occurrences(v, two) for v in values)
                if n > m and k not in inside: exp[ref, '%r from %s\n   not enough (%d/%d) in %s' % (k, one, n, m, two)] += 1
    equal(got, exp, 'word comparison')
    rec.interesting(bool(exp_segs) and (bool(exp) or len(exp_left) > 1))
    rec.label(*(['words missing'] if exp else []), *{t.split(':')[0].split(' (')[0] for _, t in exp_left})


# ---------------------------------------------------------------- USFM files
@st.composite
def usfm_lines(draw):
    out = [['id', 'MAT Test']] + [[m, draw(phrase(rich=False))] for m in draw(st.lists(st.sampled_from(['h', 'mt1', 'ip', 'is1']), max_size=3))]
    for c in range(1, draw(st.integers(0, 3)) + 1):
        out += [['c', str(c)]] + [['p', '']] * draw(st.integers(0, 1))
        v = 0
        for _ in range(draw(st.integers(0, 5))):
            k = draw(st.integers(0, 9))
            if k == 0: out.append([draw(st.sampled_from(['s1', 'q1', 'r', 'm'])), draw(st.sampled_from(['', 'Ani', 'Ani si = egoh']))])
            n = str(v + 1) if k != 1 else f'{v + 1}-{v + 2}'
            v += 2 if '-' in n else 1
            out.append(['v', (n + ' ' + draw(phrase(rich=False))) if k != 2 else n])
    return out


@st.composite
def file_case(draw):
    one = draw(usfm_lines())
    two = draw(usfm_lines()) if draw(st.integers(0, 4)) == 0 else [list(x) for x in one]
    for lines in (one, two):
        for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3]))):
            if not lines: break
            i, k = draw(st.integers(0, len(lines) - 1)), draw(st.integers(0, 8))
            if k == 0: del lines[i]
            elif k == 1: lines.insert(i, list(lines[i]))
            elif k == 2: lines[i][0] = draw(st.sampled_from(['p', 's1', 'v', 'c', 'q1']))
            elif k == 3: lines[i][1] = ''
            elif k == 4: lines[i][1] += ' ' + draw(st.sampled_from(['<<<<<<< HEAD', '=======', '>>>>>>> abc', '<<<', '===', '>>']))
            elif k == 5: lines[i][1] = draw(st.sampled_from(['2', '3', '1', '4 Ani', 'x', '2-x ani', '5-6 si', '12']))
            elif k == 6: lines.insert(i, ['c', str(draw(st.integers(1, 4)))])
            elif k == 7: del lines[i:]
            else: lines[i][1] = (lines[i][1] + ' ani').strip()
    return dict(one=one, two=two, names=draw(st.sampled_from([['a.sfm', 'a.sfm'], ['a.sfm', 'b.usfm']])), folders=draw(st.sampled_from([['x', 'y'], ['x', 'x']])),
                times=[1500000000 + draw(st.integers(0, 10 ** 6)) for _ in '12'] if draw(st.booleans()) else [1500000000, 1500000000 + draw(st.sampled_from([0, 1, 2, 86400]))], called=draw(st.booleans()))


def counted(lines, name):
    """(counts, messages) for the lines of one file"""
    cv = [i for i, (m, _) in enumerate(lines) if m in 'cv']
    counts = {'LineCount': len(lines), 'IntroLineCount': cv[0] if cv else len(lines), 'ChapterMarkerCount': sum(m == 'c' for m, _ in lines),
              'VerseMarkerCount': sum(m == 'v' for m, _ in lines), 'HasContentCount': sum(t.strip() != '' for _, t in lines)}
    said, C, V, c, v = {}, '-1', '-1', 0, 0
    number = lambda t: int(t) if t.isdigit() else None
    for m, t in lines:
        if m == 'c':
            if number(t) != c + 1: said.setdefault('Chapters', f'{name} has chapters out of order ({t} after {c})')
            C, V, c, v = t, '0', number(t) if number(t) is not None else -10, 0
        elif m == 'v':
            V, _, end = (t.split() or [''])[0].partition('-')
            if number(V) != v + 1: said.setdefault('Verses', f'{name} has verses out of order ({C}:{V} after {C}:{v})')
            last = number(end or V)
            v = last if last is not None else -1
        if re.search('<<<<|====|>>>>', t): said.setdefault('Conflicts', f'{name} may have a merge conflict around {C}:{V}')
    return counts, said


MORE = {'IntroLineCount': 'intro marker', 'ChapterMarkerCount': 'chapter marker', 'VerseMarkerCount': 'verse marker', 'HasContentCount': 'content line'}


def run_files(c, rec):
    from BibleOrgSys.Misc.USFMBookCompare import USFMBookCompare
    with TempDir() as d, quiet():
        paths, sides = [], [c['one'], c['two']]
        if c['folders'][0] == c['folders'][1] and c['names'][0] == c['names'][1]: sides[0] = sides[1]; c = dict(c, times=[c['times'][0]] * 2)
        for lines, folder, name, t in zip(sides, c['folders'], c['names'], c['times']):
            os.makedirs(f'{d}/{folder}', exist_ok=True)
            p = f'{d}/{folder}/{name}'
            with open(p, 'w', encoding='utf-8', newline='') as f: f.write(''.join(f'\\{m} {x}'.rstrip() + '\n' for m, x in lines))
            os.utime(p, (t, t))
            paths.append(p)
        sides = [[[m, x.strip()] for m, x in s] for s in sides]
        names = ['Old', 'New'] if c['called'] else ['file1', 'file2']
        got = USFMBookCompare(*paths, *(names if c['called'] else []))
        want = {'File1': {}, 'File2': {}, 'Same': {}, 'Different': {}, 'Summary': {}}
        stats = []
        for i, (p, lines, t) in enumerate(zip(paths, sides, c['times'])):
            n, said = counted(lines, names[i])
            when = datetime.datetime.fromtimestamp(t)
            want[f'File{i + 1}'] = dict(n, Filepath=p, Folder=os.path.dirname(p), Filename=os.path.basename(p), Filesize=os.path.getsize(p), ModifiedTimeStamp=t,
                                        ModifiedDate=f'{when:%Y-%m-%d}', ModifiedTime=f'{when:%H:%M:%S}')
            for k, x in said.items(): want['Summary'][f'File{i + 1}{k}'] = x
    a, b = want['File1'], want['File2']
    for k in a:
        if a[k] == b[k]:
            if k not in ('Filepath', 'ModifiedTimeStamp'): want['Same'][k] = a[k]
        elif k not in ('Filepath', 'Folder', 'Filename', 'ModifiedTimeStamp'): want['Different'][k] = (a[k], b[k])
        if k in MORE and a[k] != b[k]:
            n = abs(a[k] - b[k])
            want['Summary'][k] = f'{names[a[k] < b[k]]} has {n} more {MORE[k]}{"s" if n > 1 else ""}'
    if a['Filesize'] != b['Filesize']: want['Summary']['Filesize'] = f'{names[a["Filesize"] < b["Filesize"]]} is bigger (by {abs(a["Filesize"] - b["Filesize"]):,} bytes)'
    if abs(c['times'][0] - c['times'][1]) > 1: want['Summary']['ModifiedTime'] = f'{names[c["times"][0] < c["times"][1]]} is newer'
    both = list(zip(*sides))
    same = [sum(x[0] == y[0] for x, y in both), sum(x == y for x, y in both)]
    want['Same'].update(SameMarkerCount=same[0], SameLineCount=same[1])
    for k, n in zip(('DifferentMarkerCount', 'DifferentLineCount'), same):
        if n != len(both): want['Different'][k] = len(both) - n
    for k in want: equal(got[k], want[k], k)
    equal(set(got), set(want), 'parts of the result')
    rec.interesting(len(want['Summary']) > 1)
    rec.label(*want['Summary'])


SUBS = [
    Sub('two versions', case, run_compare, quick=500, rule='at least two differences are reported'),
    Sub('equal books', case, run_same, quick=120, rule='with notes or punctuation'),
    Sub('segments and words', segment_case, run_segments, quick=500, rule='segments compared and words or lines missing'),
    Sub('files', file_case, run_files, quick=500, rule='at least two differences in the summary'),
]
