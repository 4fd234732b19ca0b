"""C02: notes, cross-references, attributes and character formatting separate exactly from the text."""
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C02'


def setup():
    global G, I
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Internals import InternalBibleInternals as I


@st.composite
def rich_note(draw):
    """Notes with nested formatting and closed note fields."""
    n = draw(g.note(kinds=('f', 'x', 'fe', 'f')))
    n = ['n', n[1], n[2], [list(f) for f in n[3]]]
    for f in n[3]:
        k = draw(st.integers(0, 7))
        if f[0] in ('fr', 'xo'): continue
        if k == 0: f[1] = f'{draw(g.word)} \\+{(m := draw(st.sampled_from(["nd", "bd", "it", "wj", "add"])))} {draw(g.plain)}\\+{m}* {draw(g.word)}'
        elif k == 1: f[1] = f'{draw(g.word)} \\{(m := draw(st.sampled_from(["nd", "bd", "it", "bk"])))} {draw(g.plain)}\\{m}* {draw(g.word)}'
        elif k == 2: f[1] = f'{f[1]}\\{f[0]}*'
    return n


def strip_markers(t):
    import re
    return re.sub(r'\\\+?[a-z]+[0-9]?( |\*)', '', t)


@st.composite
def lines(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        ps = draw(g.parts(hi=6))
        ps = [draw(rich_note()) if p[0] == 'n' and draw(st.booleans()) else p for p in ps]
        mk = draw(st.sampled_from(['v', 'v', 'v', 'p', 'q', 's', 'ip', 'd', 'q2', 'sr', 'mt2']))
        if mk in ('s', 'sr', 'd', 'mt2', 'ip'): ps = [p for p in ps if p[0] not in ('w', 'g')] or [['t', 'x']]
        if mk == 'v' and draw(st.integers(0, 5)) == 0: ps = [['p', draw(st.sampled_from(['1b', '12', 'A', '3–4']))], ['t', ' ']] + ps
        if draw(st.integers(0, 8)) == 0 and ps[0][0] == 't': ps = [draw(rich_note())] + ps
        out.append([mk, g.merge(ps)])
    return out


def run_lines(case, rec):
    v = 0
    file = [('id', 'MAT')]
    want = []
    for m, ps in sorted(case, key=lambda x: x[0] not in ('ip', 'mt2')):
        if m not in ('ip', 'mt2') and not any(a == 'c' for a, b in file): file += [('c', '1'), ('p', '')]
        t = g.render_text(ps)
        if m == 'v': v += 1; file.append(('v', f'{v} {t}'))
        else: file.append((m, t))
        want.append((m, ps, t))
    if not any(a == 'c' for a, b in file): file += [('c', '1'), ('p', '')]
    rec.interesting(sum(1 for _, ps, _ in want for p in ps if p[0] != 't') >= 2)
    for k in 'ncdwgp':
        if any(p[0] == k for _, ps, _ in want for p in ps): rec.label({'n': 'note', 'c': 'formatting', 'd': 'nested formatting', 'w': 'word attributes', 'g': 'figure', 'p': 'published verse'}[k])
    with quiet():
        with TempDir() as d:
            with open(d + '/41MATxyz.usfm', 'w', encoding='utf-8') as f: f.write(''.join(f'\\{m} {t}\n' for m, t in file))
            from BibleOrgSys.Formats.USFMBible import USFMBible
            b = USFMBible(d, 'xyz'); b.loadBooks()
    entries = list(b['MAT'])
    got = [e for e in g.content(entries) if e.getMarker() in ('v~', 'p~', 's1', 'ip', 'd', 'sr', 'mt2')]
    equal(len(got), len(want), 'number of text lines')
    for e, (m, ps, t) in zip(got, want):
        adj, clean, extras = g.model_text(ps)
        x = e.getExtras()
        equal(e.getFullText(), t, 'full text')
        equal(e.getOriginalText(), t, 'original text')
        equal(e.getAdjustedText(), adj, 'adjusted text of', t)
        equal(e.getText(), adj, 'text of', t)
        equal(e.getCleanText(), strip_markers(clean), 'clean text of', t)
        equal([(y.getType(), y.getIndex(), y.getText()) for y in x or []], [tuple(y[:3]) for y in extras], 'extras of', t)
        equal([y.getCleanText().split() for y in x or [] if y.getType() != 'fig'], [strip_markers(y[3]).split() for y in extras if y[0] != 'fig'], 'clean extras of', t)
        check(all('\\' not in y.getCleanText() for y in x or []), 'no markers in clean extras of', t)
        if x:
            for i in range(len(adj) + 2):
                at = [y for y in x if y.getIndex() == i]
                r = x.checkForIndex(i)
                if not at: equal(r, None, 'extra at', i)
                elif len(at) == 1: check(r == at[0], 'extra at', i)
                else: equal([(y.getType(), y.getText()) for y in r], [(y.getType(), y.getText()) for y in at], 'extras at', i)
            equal(len(x), len(extras), 'number of extras')
            check(x == I.InternalBibleExtraList(x), 'extra list equals its copy')
            equal([(y.getType(), y.getText()) for y in x[0:1]], [(y.getType(), y.getText()) for y in list(x)[:1]], 'slice')
        check(e == I.InternalBibleEntry(*[e[i] for i in range(len(e))]), 'entry equals its copy')
    # a published verse number also becomes a line of its own in front of its verse
    vps = [p[1] for _, ps, _ in want for p in ps if p[0] == 'p']
    equal([e.getCleanText() for e in entries if e.getMarker() == 'vp#'], vps, 'published verse numbers')
    for i, e in enumerate(entries):
        if e.getMarker() == 'vp#': equal(entries[i + 1].getMarker(), 'v', 'the line after a published verse number')


# ---- footnote on the verse number or on the chapter number

def run_numbers(case, rec):
    rec.interesting()
    kind, note, text = case
    n = g.render_part(note)
    with quiet():
        with TempDir() as d:
            s = '\\id MAT\n\\c 1' + (n if kind == 'c' else '') + '\n\\p\n\\v 1' + (n if kind == 'v' else '') + ' ' + text + '\n\\v 2 ' + text + '\n'
            with open(d + '/41MATxyz.usfm', 'w', encoding='utf-8') as f: f.write(s)
            from BibleOrgSys.Formats.USFMBible import USFMBible
            b = USFMBible(d, 'xyz'); b.loadBooks()
    es = g.content(b['MAT'])
    vs = [e for e in es if e.getMarker() == 'v']
    equal([e.getCleanText() for e in vs], ['1', '2'], 'verse numbers')
    equal([e.getCleanText() for e in es if e.getMarker() == 'c'], ['1'], 'chapter numbers')
    equal([e.getCleanText().strip() for e in es if e.getMarker() in ('v~', 'p~')], [text, text], 'verse texts')
    holders = [(e.getMarker(), x.getType(), x.getText()) for e in es for x in e.getExtras() or []]
    want = g.model_text([note])[2][0]
    check((want[0], want[2]) in {(t, x) for _, t, x in holders}, 'the note is kept', holders, want)


# ---- attributes

name3 = st.sampled_from(['lemma', 'strong', 'x-morph', 'x-content', 'x-occurrence'])
value = st.text(alphabet='abcXYZ 0123:,.’éλא-', min_size=1, max_size=8)


def run_word_attr(case, rec):
    w, attrs = case
    rec.interesting(len(attrs) > 1)
    if attrs and attrs[0][0] == '':
        got = I.parseWordAttributes('w', 'GEN', '1', '1', f'{w}|{attrs[0][1]}')
        equal(got, {'word': w, 'lemma': attrs[0][1]}, 'unnamed attribute')
        return
    s = w + '|' + ' '.join(f'{k}="{v}"' for k, v in attrs)
    want = {'word': w}
    for k, v in attrs: want[k[2:] if k.startswith('x-') else k] = v
    equal(I.parseWordAttributes('w', 'GEN', '1', '1', s), want, s)


FIG3 = ['alt', 'src', 'size', 'loc', 'copy', 'ref']
FIG = ['altDescription', 'sourceFilename', 'relativeSize', 'locationOrRange', 'copyrightOrRightsHolder', 'referenceCV']


def run_fig_attr(case, rec):
    kind, cap, vals = case
    rec.interesting(len(vals) > 1)
    if kind == 3:
        vals = dict(vals) or {'src': 'a.jpg'}
        s = cap + '|' + ' '.join(f'{k}="{v}"' for k, v in vals.items())
        want = {'USFM': 3, 'caption': cap} | {FIG[FIG3.index(k)]: v for k, v in vals.items()}
    else:
        bits = [v for _, v in vals][:6]
        names = FIG[:5] + ['caption'] + FIG[5:]
        bits = (bits + [''] * 7)[:7]
        s = '|'.join(bits)
        want = {'USFM': 2} | dict(zip(names, bits))
    equal(I.parseFigureAttributes('w', 'GEN', '1', '1', s), want, s)


SUBS = [
    Sub('lines', lines, run_lines, 1500, rule='at least two notes, formattings, figures or attributes', shards=4),
    Sub('number notes', lambda: st.tuples(st.sampled_from('vc'), g.note(), g.phrase()).map(list), run_numbers, 150, rule='always'),
    Sub('word attributes', lambda: st.tuples(g.word, st.one_of(st.lists(st.tuples(name3, value).map(list), min_size=1, max_size=4, unique_by=lambda x: x[0]),
                                                             value.map(lambda v: [['', v]]))).map(list), run_word_attr, 500, rule='more than one attribute'),
    Sub('figure attributes', lambda: st.tuples(st.sampled_from([2, 3]), value, st.lists(st.tuples(st.sampled_from(FIG3), value).map(list), max_size=6, unique_by=lambda x: x[0])).map(list),
        run_fig_attr, 500, rule='more than one attribute'),
]
