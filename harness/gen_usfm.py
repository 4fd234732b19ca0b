"""Generator of well-formed USFM books, with an independent model of what loading them should give.

A book (JSON data):  {'BBB': 'MAT', 'lines': [[marker, number, parts], …]}
  number: verse or chapter number string ('' for the other markers)
  parts:  the line's text as a list of parts
     ['t', text]                           plain text
     ['n', 'f'|'fe'|'x', caller, [[marker, text], …]]   note
     ['c', marker, text]                   character formatting
     ['d', marker, text, inner marker, inner text, inner attributes, text]
                                           character formatting around character formatting (or around a word with attributes)
     ['w', word, attributes]               word with attributes (attributes start with the bar)
     ['g', text]                           figure (contents)
     ['p', text]                           published verse number (vp), first in a verse only
Nothing in this file imports the code under test.
"""
import re
from hypothesis import strategies as st

WORDS = ('In the beginning God created heaven and earth Yahweh said Yesu Mose Noah water light day night good people king '
         'house kingdom word love son father mother a of to I O don’t brother’s well-known twenty-two re-entry Ὁ λόγος ἦν πρὸς '
         'בְּרֵאשִׁית אֱלֹהִים naïve façade São João ñandú Ærøskøbing ḿalo ŋgo 3 12 144 1,000 7:8 αβγ Ω straße İstanbul ﬁn '
         'i̇ 你好 世界 дом мир ʻokina Ka‘ū A. B').split(' ')
PUNCT = ['', '', '', '', '', '', ',', '.', ';', ':', '?', '!', ',', '.', '…', '—', '.”', ',’', ')', '?’”', '–']
OPEN = ['', '', '', '', '', '', '', '', '“', '‘', '(', '“‘', '—', '[']

word = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS),
                 st.text(alphabet='abcdefghijklmnopqrstuvwxyzABCXYZ’éüčđŋïλḥא', min_size=1, max_size=8))


@st.composite
def token(draw):
    return draw(st.sampled_from(OPEN)) + draw(word) + draw(st.sampled_from(PUNCT))


def phrase(lo=1, hi=5):
    return st.lists(token(), min_size=lo, max_size=hi).map(' '.join)


plain = st.lists(word, min_size=1, max_size=3).map(' '.join)

F_FIELDS, X_FIELDS = ['ft', 'fq', 'fqa', 'fk', 'fl', 'ft'], ['xt', 'xk', 'xq', 'xt', 'xta']
ATTRIBUTES = ['|lemma="grace"', '|strong="H1234"', '|strong="G5" lemma="x y"', '|x-morph="He,Ncmsc"', '|gloss']
CHARS = ['nd', 'add', 'wj', 'it', 'bd', 'qt', 'sc', 'tl', 'pn', 'k', 'sig', 'bk', 'em', 'ord']


@st.composite
def note(draw, kinds=('f', 'f', 'x', 'fe')):
    k = draw(st.sampled_from(kinds))
    fields = []
    if draw(st.booleans()):
        fields.append(['xo' if k == 'x' else 'fr', draw(st.sampled_from(['1:1', '3.4:', '12:3', '2:5-6 '])).strip()])
    fields += draw(st.lists(st.tuples(st.sampled_from(X_FIELDS if k == 'x' else F_FIELDS), phrase(1, 4)).map(list), min_size=1, max_size=3))
    if len(' '.join(t for _, t in fields)) < 3: fields[-1][1] += ' word'
    return ['n', k, draw(st.sampled_from(['+', '+', '-', '*', 'a', 'b', '12'])), fields]


@st.composite
def parts(draw, notes=True, chars=True, words=True, figs=True, lo=1, hi=4):
    """Text of one line: parts with spaces between (notes directly after a word or after a space)."""
    out = []
    n = draw(st.integers(lo, hi))
    for i in range(n):
        kinds = ['t'] * 4 + (['n'] * 2 if notes else []) + (['c'] if chars else []) + (['w'] if words else []) + (['g'] if figs and i else [])
        k = draw(st.sampled_from(kinds))
        if k == 't': p = ['t', draw(phrase())]
        elif k == 'n': p = draw(note())
        elif k == 'c':
            p = ['c', draw(st.sampled_from(CHARS)), draw(phrase(1, 3))]
            if draw(st.integers(0, 4)) == 0:
                inner = draw(st.sampled_from(['nd', 'bd', 'it'] + (['w'] if words else [])))
                p = ['d', p[1], draw(plain) + ' ', inner, draw(word), draw(st.sampled_from(ATTRIBUTES)) if inner == 'w' else '', draw(st.sampled_from(['', ' end', ' and more']))]
        elif k == 'w':
            p = ['w', draw(word), draw(st.sampled_from(ATTRIBUTES))]
            if draw(st.integers(0, 3)) == 0: p = ['c', 'w', p[1]]
        else: p = ['g', draw(st.sampled_from(['At once they left|src="avnt016.jpg" size="span" ref="1.18"', '|avnt016.tif|span||copy|They left|1.18', 'desc|a.jpg|col|||cap|3:4']))]
        if out and k != 'n' and not (out[-1][0] == 't' and out[-1][1].endswith(' ')):
            if out[-1][0] == 't' and draw(st.integers(0, 3)): out[-1][1] += ' '
            else: out.append(['t', ' '])
        elif out and k == 'n' and draw(st.integers(0, 3)) == 0:
            if out[-1][0] == 't': out[-1][1] += '' if out[-1][1].endswith(' ') else ' '
            else: out.append(['t', ' '])
        out.append(p)
    if all(p[0] in ('n', 'g') for p in out): out.insert(0, ['t', draw(phrase()) + ' '])
    return merge(out)


def merge(ps):
    out = []
    for p in ps:
        if p[0] == 't' and out and out[-1][0] == 't': out[-1] = ['t', out[-1][1] + p[1]]
        else: out.append(list(p))
    while out and out[-1][0] == 't' and out[-1][1].endswith(' '):
        out[-1][1] = out[-1][1].rstrip(' ')
        if not out[-1][1]: out.pop()
    return out


BOOKS = ['MAT', 'MRK', 'LUK', 'ROM', 'PHM', 'JDE', 'GEN', 'EXO', 'PSA', 'PRO', 'OBA', 'JNA', 'SNG', 'ACT', 'REV', 'TOB', 'JN3', 'LAM']
SINGLE = {'PHM', 'JDE', 'OBA', 'JN3'}
NR = {'GEN': '01', 'EXO': '02', 'PSA': '19', 'PRO': '20', 'SNG': '22', 'LAM': '25', 'OBA': '31', 'JNA': '32', 'MAT': '41', 'MRK': '42', 'LUK': '43', 'ACT': '45', 'ROM': '46',
      'PHM': '58', 'JN3': '65', 'JDE': '66', 'REV': '67', 'TOB': '68'}
USFM_ABBREV = {b: b for b in BOOKS} | {'JDE': 'JUD', 'JN3': '3JN', 'JNA': 'JON'}
NAMES = {'MAT': 'Matthew', 'MRK': 'Mark', 'LUK': 'Luke', 'ROM': 'Romans', 'PHM': 'Philemon', 'JDE': 'Jude', 'GEN': 'Genesis', 'EXO': 'Exodus', 'PSA': 'Psalms',
         'PRO': 'Proverbs', 'OBA': 'Obadiah', 'JNA': 'Jonah', 'SNG': 'Song of Songs', 'ACT': 'Acts', 'REV': 'Revelation', 'TOB': 'Tobit', 'JN3': '3 John', 'LAM': 'Lamentations'}
PARAS = ['p', 'p', 'p', 'm', 'q1', 'q1', 'q2', 'q', 'pi1', 'pi', 'nb', 'pc', 'mi', 'q3', 'li1', 'li', 'li2', 'pmo', 'qm1', 'cls']
CONT = ['q1', 'q2', 'p', 'm', 'q3', 'q2', 'li1', 'pi1', 'mi']
HEADS = ['s1', 's1', 's', 's2', 's3']


def L(m, text=None, n=''):
    return [m, n, text if isinstance(text, list) else [['t', text]] if text else []]


@st.composite
def verse_numbers(draw, hi=6, suffixes=True, bridges=True, gaps=True, repeats=False, swaps=False):
    n = draw(st.integers(1, hi))
    out, v = [], 1
    while v <= n:
        k = draw(st.integers(0, 11))
        if k == 0 and bridges and v < n:
            e = min(n, v + draw(st.integers(1, 2)))
            out.append(f'{v}-{e}'); v = e
        elif k == 1 and suffixes:
            out += [f'{v}{x}' for x in draw(st.sampled_from(['ab', 'ab', 'abc']))]
        elif k == 2 and gaps and v > 1: pass
        elif k == 3 and repeats: out += [str(v), str(v)]
        else: out.append(str(v))
        v += 1
    if swaps and len(out) > 2 and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(out) - 2)); out[i], out[i + 1] = out[i + 1], out[i]
    return out or ['1']


@st.composite
def book(draw, BBB=None, max_chapters=3, intro=True, headings=True, notes=True, chars=True, words=True, figs=True, vp=False,
         max_verses=6, suffixes=True, bridges=True, gaps=True, repeats=False, swaps=False, paras=None, heads=None, lists=True, empty_verses=True,
         chapter_extras=True, first_para=False, mid_heads=True, rich_heads=True, plain_text=None, verse_heads=False, head_rate=5, long=True):
    B = BBB or draw(st.sampled_from(BOOKS))
    paras = paras or (PARAS if lists else [p for p in PARAS if not p.startswith('li')])
    cont = [p for p in CONT if p in paras or lists]
    heads = heads or HEADS
    T = plain_text or parts(notes=notes, chars=chars, words=words, figs=figs)
    H = parts(notes=notes, chars=chars, words=False, figs=False, hi=2) if rich_heads else phrase(1, 4).map(lambda t: [['t', t]])
    out = [L('id', USFM_ABBREV[B] + draw(st.sampled_from([' - Test Bible', '', ' ' + 'Some translation 1.0'])))]
    name = NAMES[B]
    if draw(st.integers(0, 11)):
        if draw(st.booleans()): out.append(L('ide', 'UTF-8'))
        if draw(st.integers(0, 3)) == 0: out.append(L('rem', draw(plain)))
        if draw(st.integers(0, 5)): out.append(L('h', name))
        for m, t in (('toc1', 'The Book of ' + name), ('toc2', name), ('toc3', name[:3])):
            if draw(st.integers(0, 2)): out.append(L(m, t))
        out.append(L(draw(st.sampled_from(['mt1', 'mt'])), name))
        if draw(st.integers(0, 3)) == 0: out.append(L('mt2', draw(plain)))
    if intro and draw(st.booleans()):
        if draw(st.booleans()): out.append(L(draw(st.sampled_from(['imt1', 'imt'])), 'Introduction'))
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(['ip', 'ip', 'is', 'io', 'ili'] if lists else ['ip', 'ip', 'is', 'io']))
            if k == 'ip': out.append(L(draw(st.sampled_from(['ip', 'im', 'ip'])), draw(parts(words=False, figs=False, notes=notes, chars=chars, hi=3))))
            elif k == 'is': out += [L(draw(st.sampled_from(['is1', 'is', 'is2'])), draw(plain)), L('ip', draw(T))]
            elif k == 'io':
                if draw(st.booleans()): out.append(L('iot', 'Outline'))
                for _ in range(draw(st.integers(1, 3))): out.append(L(draw(st.sampled_from(['io1', 'io', 'io2'])), draw(plain)))
            else:
                for _ in range(draw(st.integers(1, 2))): out.append(L(draw(st.sampled_from(['ili1', 'ili', 'ili2'])), draw(plain)))
    if chapter_extras and B == 'PSA' and draw(st.integers(0, 3)) == 0: out.append(L('cl', 'Psalm'))
    nch = 1 if B in SINGLE else draw(st.integers(1, max_chapters))
    base = draw(st.sampled_from([0] * 11 + [8])) if long and B not in SINGLE else 0  # short chapters first: numbers with two digits
    for c in range(1, base + 1): out += [L('c', n=str(c)), L('p'), L('v', 'A.', '1')]
    nch += base
    for c in range(base + 1, nch + 1):
        out.append(L('c', n=str(c)))
        if chapter_extras and draw(st.integers(0, 9)) == 0: out.append(L('cl', f'Chapter {draw(plain)}'))
        if chapter_extras and draw(st.integers(0, 9)) == 0: out.append(L('cp', draw(st.sampled_from(['A', 'B2', '7']))))
        if chapter_extras and draw(st.integers(0, 9)) == 0: out.append(L('cd', draw(plain)))
        if headings and draw(st.integers(0, 5)) == 0: out += [L(draw(st.sampled_from(['ms1', 'ms', 'ms2'])), draw(H))] + ([L('mr', '(Psalms 1–41)')] if draw(st.booleans()) else [])
        if headings and draw(st.booleans()): out += heading(draw, heads, H)
        if chapter_extras and B == 'PSA' and draw(st.booleans()): out.append(L('d', draw(H)))
        vs = draw(verse_numbers(max_verses, suffixes, bridges, gaps, repeats, swaps))
        open_para = False
        before = draw(st.sampled_from([0] * 14 + [8, 8, 97])) if long else 0  # short verses first: numbers with two or three digits
        if before:
            vs = ['-'.join(re.sub(r'\d+', lambda m: str(int(m.group()) + before), x) for x in v.split('-')) for v in vs]
            out.append(L('p')); open_para = True
            out += [L('v', 'A.', str(k)) for k in range(1, before + 1)]
        for i, v in enumerate(vs):
            if i and headings and mid_heads and draw(st.integers(0, head_rate)) == 0:
                out += heading(draw, heads, H); open_para = False
                if draw(st.integers(0, 9)) == 0: out.append(L('sp', draw(plain)))
            if (not open_para and (first_para or draw(st.integers(0, 7)))) or draw(st.integers(0, 3)) == 0:
                if i and draw(st.integers(0, 7)) == 0: out.append(L('b'))
                out.append(L(draw(st.sampled_from(paras)))); open_para = True
            if empty_verses and draw(st.integers(0, 14)) == 0: ps = []
            else:
                ps = draw(T)
                if vp and draw(st.integers(0, 5)) == 0: ps = [['p', draw(st.sampled_from(['1b', '12', 'A']))]] + [['t', ' ']] + ps
            if chapter_extras and draw(st.integers(0, 5)) == 0: out.append(L('rem', draw(plain)))
            out.append(L('v', ps, v))
            while ps and draw(st.integers(0, 4)) == 0:
                if draw(st.integers(0, 6)) == 0: out.append(L('b'))
                if verse_heads and draw(st.integers(0, 3)) == 0: out += heading(draw, heads, H)
                out.append(L(draw(st.sampled_from(cont)), draw(T))); open_para = True
    return {'BBB': B, 'lines': out}


def heading(draw, heads, H):
    out = [L(draw(st.sampled_from(heads)), draw(H))]
    if draw(st.integers(0, 3)) == 0: out.append(L(draw(st.sampled_from(['r', 'sr'])), draw(st.sampled_from(['(Mark 1.1-8)', '(Luke 3:1–18; John 1:19-28)']))))
    return out


# ---------------------------------------------------------------- rendering and model

def render_part(p):
    k = p[0]
    if k == 't': return p[1]
    if k == 'n': return f'\\{p[1]} {p[2]} ' + ' '.join(f'\\{m} {t}' for m, t in p[3]) + f'\\{p[1]}*'
    if k == 'c': return f'\\{p[1]} {p[2]}\\{p[1]}*'
    if k == 'd': return f'\\{p[1]} {p[2]}\\+{p[3]} {p[4]}{p[5]}\\+{p[3]}*{p[6]}\\{p[1]}*'
    if k == 'w': return f'\\w {p[1]}{p[2]}\\w*'
    if k == 'g': return f'\\fig {p[1]}\\fig*'
    if k == 'p': return f'\\vp {p[1]}\\vp*'
    raise ValueError(p)


def render_text(ps): return ''.join(render_part(p) for p in ps)


def render_line(line):
    m, n, ps = line
    s = '\\' + m
    if n: s += ' ' + n
    t = render_text(ps)
    return s + (' ' + t if t else '')


def render(bk, eol='\n', final=True):
    return eol.join(render_line(l) for l in bk['lines']) + (eol if final else '')


STANDARD = {'s': 's1', 'q': 'q1', 'li': 'li1', 'pi': 'pi1', 'mt': 'mt1', 'imt': 'imt1', 'is': 'is1', 'io': 'io1', 'ili': 'ili1', 'ms': 'ms1', 'qm': 'qm1', 'ph': 'ph1'}
TYPES = {'f': 'fn', 'fe': 'en', 'x': 'xr'}
PARAGRAPH = {'p', 'm', 'q1', 'q2', 'q3', 'q4', 'pi1', 'pi2', 'nb', 'pc', 'mi', 'pmo', 'qm1', 'cls', 'li1', 'li2', 'b', 'qr', 'qc', 'po', 'pm', 'pmc', 'pmr', 'pi3', 'pi4', 'lh', 'lf', 'lim1', 'li3', 'li4', 'pr', 'ph1', 'ph2', 'qm2', 'qd'}


def model_text(ps):
    """→ (adjusted text, clean text, extras)"""
    adj = clean = ''
    extras = []
    for p in ps:
        k = p[0]
        if k == 't': adj += p[1]; clean += p[1]
        elif k == 'c': adj += render_part(p); clean += p[2]
        elif k == 'd':
            clean += p[2] + p[4] + p[6]
            if p[5]: adj += f'\\{p[1]} {p[2]}{p[4]}'; extras.append(['ww', len(adj), p[4] + p[5], p[4] + p[5]]); adj += f'{p[6]}\\{p[1]}*'
            else: adj += render_part(p)
        elif k == 'w': adj += p[1]; clean += p[1]; extras.append(['ww', len(adj), p[1] + p[2], p[1] + p[2]])
        elif k == 'g': extras.append(['fig', len(adj), p[1], None])
        elif k == 'p': extras.append(['vp', len(adj), p[1], p[1]])
        else:
            body = ' '.join(f'\\{m} {t}' for m, t in p[3])
            caller = '+' if p[2] == '-' else p[2]
            words = ' '.join(t for _, t in p[3])
            extras.append([TYPES[p[1]], len(adj), f'{caller} {body}', words if caller == '+' else f'{caller} {words}'])
    return adj.rstrip(), clean.rstrip(), extras


def model(bk):
    """Expected content entries: [marker, original marker, adjusted, clean, extras, reference C, reference V]."""
    out = []
    C, V = '-1', '0'
    seen_c = False
    for m, n, ps in bk['lines']:
        sm = STANDARD.get(m, m)
        adj, clean, extras = model_text(ps)
        if m == 'c':
            C, V, seen_c = n, '0', True
            out.append(['c', 'c', n, n, [], C, V])
            continue
        if m == 'v':
            V = n
            out.append(['v', 'v', n, n, [], C, V])
            if ps: out.append(['v~', 'v', adj, clean, extras, C, V])
            continue
        if sm == 'cl' and not seen_c: sm = 'cl¤'
        if sm in PARAGRAPH:
            out.append([sm, m, '', '', [], C, V])
            if ps: out.append(['p~', m, adj, clean, extras, C, V])
            continue
        out.append([sm, m, adj, clean, extras, C, V])
    return out


ADDED = {'headers', 'intro', 'ilist', 'chapters', 'list', 'c#', 'v=', 'vp#'}


def content(entries, keep_iot=None):
    """Content entries of a loaded book (without structure markers added by the loader)."""
    out = []
    for e in entries:
        m = e.getMarker()
        if m in ADDED or m.startswith('¬'): continue
        if m == 'iot' and not e.getCleanText() and not e.getOriginalText(): continue
        out.append(e)
    return out


def verse_text(bk):
    """{(C, V): [clean text of every text line of the verse]} and the order of verses."""
    d, order = {}, []
    for m, om, adj, clean, ex, C, V in model(bk):
        if m == 'v':
            if (C, V) not in d: d[(C, V)] = []; order.append((C, V))
        elif m in ('v~', 'p~') and V != '0': d[(C, V)].append(clean)
    return d, order
