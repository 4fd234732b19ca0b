"""C01: loading USFM keeps every word, in order and in its place."""
import os
import re
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C01'


def setup():
    global G
    G = sut()
    import types
    G.commandLineArguments = types.SimpleNamespace(export=False)


def rows(book):
    return [(e.getMarker(), e.getOriginalMarker(), e.getAdjustedText(), e.getCleanText(),
             [tuple(x)[:3] for x in (e.getExtras() or [])], e.getOriginalText()) for e in g.content(book)]


def want_rows(bk):
    return [(m, om, adj, clean, [tuple(x[:3]) for x in ex]) for m, om, adj, clean, ex, C, V in g.model(bk)]


def load_file(bk, text, kind='USFM', enc='utf-8'):
    with TempDir() as d:
        B = bk['BBB']
        ext = 'ESFM' if kind == 'ESFM' else 'usfm'
        with open(os.path.join(d, f'{g.NR[B]}{g.USFM_ABBREV[B]}xyz.{ext}'), 'wb') as f: f.write(text.encode(enc))
        with quiet():
            if kind == 'USFM':
                from BibleOrgSys.Formats.USFMBible import USFMBible as Cl
                b = Cl(d, 'xyz'); b.loadBooks()
            elif kind == 'USFM-single':
                from BibleOrgSys.Formats.USFMBible import USFMBible as Cl
                b = Cl(d, 'xyz'); b.preload(); b.loadBook(B); b.doPostLoadProcessing()
            elif kind == 'USFM2':
                from BibleOrgSys.Formats.USFM2Bible import USFM2Bible as Cl
                b = Cl(d, 'xyz'); b.loadBooks()
            elif kind == 'ESFM':
                from BibleOrgSys.Formats.ESFMBible import ESFMBible as Cl
                b = Cl(d, 'xyz'); b.loadAuxilliaryFiles = False; b.loadBooks()
        check(list(b.books) == [B], kind, 'books loaded', list(b.books), 'wanted', B)
        return b[B]


def refs(book):
    """reference (C, V) of every text entry by position"""
    C, V, out = '-1', '0', []
    for e in g.content(book):
        m = e.getMarker()
        if m == 'c': C, V = e.getCleanText(), '0'
        elif m == 'v': V = e.getCleanText()
        out.append((m, C, V))
    return out


def run_load(bk, rec):
    m = g.model(bk)
    rec.interesting(len(m) > 12 and sum(1 for r in m if r[0] == 'v') > 2)
    for k in ('p~', 'd', 's1', 'ms1', 'cl', 'cl¤', 'cp', 'io1', 'ili1', 'b', 'sp'):
        if any(r[0] == k for r in m): rec.label(k)
    if any('-' in r[2] for r in m if r[0] == 'v'): rec.label('bridge')
    if any(r[4] for r in m): rec.label('extras')
    book = load_file(bk, g.render(bk))
    got, want = rows(book), want_rows(bk)
    equal([r[:5] for r in got], want, 'entries')
    equal(refs(book), [(r[0], r[5], r[6]) for r in m], 'reference of every line')
    for r, (mk, n, ps) in zip([r for r in got if r[0] not in ('c', 'v')], [1] * 0): pass
    # full text gives back the original line
    texts = [(mk, g.render_text(ps)) for mk, n, ps in bk['lines'] if ps]
    full = [(r[1], r[5]) for r in got if r[0] not in ('c', 'v') and (r[5] or r[2])]
    equal([(a, b) for a, b in full], [(a, b) for a, b in texts], 'full text')


# ---- the same book in different physical layouts

def layouts():
    def build(bk, eol, bom, breaks, blanks, trailing, comment):
        return {'book': bk, 'eol': eol, 'bom': bom, 'breaks': breaks, 'blanks': blanks, 'trailing': trailing}
    return st.builds(build, g.book(max_chapters=2, max_verses=4, words=False, figs=False), st.sampled_from(['\n', '\r\n']), st.booleans(),
                     st.lists(st.integers(0, 200), max_size=8), st.lists(st.integers(0, 60), max_size=3), st.lists(st.integers(0, 60), max_size=4), st.none())


def run_layout(case, rec):
    bk = case['book']
    lines = g.render(bk, final=False).split('\n')
    n = len(lines)
    phys = []
    marks = {}
    for b in case['breaks']: marks.setdefault(b % n, []).append(b)
    broken = 0
    for i, l in enumerate(lines):
        if i in marks and not l.startswith('\\id '):
            # break at a space that is inside the text (not directly after the marker or number, or before a marker)
            sp = [j for j, ch in enumerate(l) if ch == ' ' and j > 12 and l[j + 1:j + 2] not in ('\\', ' ', '#', '') and l[j - 1] != ' ']
            # or before a character or note marker (nothing is added before a footnote, and a space before the others)
            at = [x.start() for x in re.finditer(r'(?<=[^\\ ])\\f (?=[^ ])', l)] + [x.start() for x in re.finditer(r' \\(?:nd|bk|add|wj|fe|x|em|k|tl|qs) ', l) if l[:x.start()].rsplit(' ', 1)[-1][:1] != '\\']
            at = [j for j in at if j > 12]
            if at and marks[i][0] % 3:
                j = at[marks[i][0] % len(at)]
                l = l[:j] + case['eol'] + l[j + (l[j] == ' '):]; broken += 1
                rec.label('broken before a marker')
            elif sp:
                j = sp[marks[i][0] % len(sp)]
                word = l[:j].rsplit(' ', 1)[-1]
                if not word.startswith('\\'):
                    l = l[:j] + case['eol'] + l[j + 1:]; broken += 1
        if any(x % n == i for x in case['trailing']): l += '  '
        phys.append(l)
        if any(x % n == i for x in case['blanks']): phys += ['', '']
    rec.interesting(broken > 0 or case['bom'])
    if broken: rec.label('continuation lines')
    text = ('\ufeff' if case['bom'] else '') + case['eol'].join(phys) + case['eol']
    book = load_file(bk, text)
    equal([r[:5] for r in rows(book)], want_rows(bk), 'entries from another file layout')


# ---- several lines of the book on one physical line

def joined():
    return st.builds(lambda b, j: {'book': b, 'join': j}, g.book(max_chapters=2, max_verses=4, intro=False, words=False), st.lists(st.integers(0, 60), min_size=1, max_size=8))


JOINABLE = {'p', 'm', 'q1', 'q2', 'q3', 'q', 'v', 'pi1', 'pi', 'mi', 'nb', 'li1', 'li', 'li2', 'b', 'pmo', 'qm1', 's1', 's', 'r', 's2', 's3', 'c', 'ms1', 'd', 'sp', 'cls', 'pc'}


def join_lines(case):
    lines = case['book']['lines']
    n, done, phys = len(lines), 0, []
    want = {j % n for j in case['join']}
    raw = []
    for i, l in enumerate(lines):
        t = g.render_line(l)
        if phys and i in want and l[0] in JOINABLE and lines[i - 1][0] in JOINABLE and l[0] != 'c':
            phys[-1] += ' ' + t; done += 1
            m, x = raw[-1]; raw[-1] = (m, (x + ' ' + t).strip())
        else:
            phys.append(t)
            raw.append((l[0], (l[1] + ' ' + g.render_text(l[2])).strip()))
    return phys, raw, done


def run_joined(case, rec):
    phys, raw, done = join_lines(case)
    rec.interesting(done > 0)
    want = want_rows(case['book'])
    got = [r[:5] for r in rows(load_file(case['book'], '\n'.join(phys) + '\n'))]
    equal(got, want, 'entries when lines are joined')


# ---- all loaders give the same content

def run_loaders(bk, rec):
    rec.interesting(sum(1 for l in bk['lines'] if l[0] == 'v') > 2)
    text = g.render(bk)
    want = want_rows(bk)
    for kind in ('USFM-single', 'USFM2', 'ESFM'):
        got = [r[:5] for r in rows(load_file(bk, text, kind))]
        if kind == 'ESFM': # the ESFM reader numbers the markers before it hands them over
            equal([r[:1] + r[2:] for r in got], [r[:1] + r[2:] for r in want], 'entries via', kind)
        else: equal(got, want, 'entries via', kind)
    lines = [(m, (n + (' ' if n and ps else '') + g.render_text(ps))) for m, n, ps in bk['lines']]
    with quiet(): bible, book = ld.book_from_lines(lines, bk['BBB'])
    equal([r[:5] for r in rows(book)], want, 'entries via addLine')


# ---- documented normalisations

def norm_lines():
    mk = st.sampled_from(['p', 'q', 's', 'v', 'h'])
    piece = st.sampled_from(['word', 'two words', '<<', '>>', '<', '>', '"', '~', '&', "'", 'end.', ' ', ',', '“', '?'])
    return st.lists(st.tuples(mk, st.lists(piece, min_size=1, max_size=8).map(''.join)).map(list), min_size=1, max_size=5)


def run_norm(case, rec):
    lines = [('id', 'MAT'), ('h', 'Matthew'), ('c', '1'), ('p', '')]
    v = 0
    sent = []
    for m, t in case:
        t = 'w ' + ' '.join(t.split()) + ' e'
        if m == 'v':
            v += 1
            lines.append(('v', f'{v} {t}')); sent.append(('v~', t))
        else:
            lines.append((m, t)); sent.append(({'p': 'p~', 'q': 'p~', 's': 's1', 'h': 'h'}[m], t))
    rec.interesting(any(ch in t for _, t in sent for ch in '<>~"'))
    with TempDir() as d:
        with open(d + '/41MATxyz.usfm', 'w', encoding='utf-8') as f: f.write(''.join(f'\\{m} {t}\n' for m, t in lines))
        from BibleOrgSys.Formats.USFMBible import USFMBible
        with quiet():
            b = USFMBible(d, 'xyz'); b.loadBooks()
    got = [(e.getMarker(), e.getAdjustedText()) for e in g.content(b['MAT']) if e.getMarker() not in ('id', 'c', 'p', 'q1', 'v')][1:]
    def n(m, t):
        return t.replace('~', '\u00a0')
    def squash(t): return t.replace('<<', '“').replace('>>', '”').replace('<', '‘').replace('>', '’').replace('“', '"').replace('”', '"').rstrip()
    equal([(m, squash(t)) for m, t in got], [(m, squash(n(m, t))) for m, t in sent], 'text after quote and no-break space normalisation')


SUBS = [
    Sub('load', lambda: g.book(), run_load, 1200, rule='book with more than 12 entries and more than 2 verses', shards=4),
    Sub('repeated verses', lambda: g.book(repeats=True, swaps=True, vp=False, notes=False), run_load, 300, rule='book with more than 12 entries and more than 2 verses', shards=2),
    Sub('layout', layouts, run_layout, 600, rule='continuation lines or byte-order mark', shards=2),
    Sub('joined', joined, run_joined, 400, rule='at least one join', shards=2),
    Sub('loaders', lambda: g.book(max_chapters=2, max_verses=5, words=False, figs=False), run_loaders, 250, rule='more than 2 verses', shards=3),
    Sub('normalise', norm_lines, run_norm, 300, rule='quote signs or tilde in the text'),
]
