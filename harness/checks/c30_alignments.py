"""C30: unfoldingWord aligned translations load as the same text as without alignments, and the alignments list exactly the aligned words.

Cases are books whose verses are sequences of aligned groups (nested milestones, one or more words, punctuation, discontiguous groups,
groups going over lines and paragraphs) and unaligned words, written as translationCore does; the oracle is the model they were written from.
"""
import os, types
from hypothesis import strategies as st
from core import *
import gen_usfm as g, loaders as ld

PROPERTY = 'C30'


def setup():
    global G, clean
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Internals.InternalBibleBook import cleanUWalignments as clean


HEBREW = [('בְּ⁠רֵאשִׁ֖ית', 'רֵאשִׁית', 'b:H7225', 'He,R:Ncfsa'), ('אֱלֹהִ֑ים', 'אֱלֹהִים', 'H0430', 'He,Ncmpa'), ('אֵ֥ת', 'אֵת', 'H0853', 'He,To'), ('הַ⁠שָּׁמַ֖יִם', 'שָׁמַיִם', 'd:H8064', 'He,Td:Ncmpa')]
GREEK = [('Βίβλος', 'βίβλος', 'G09760', 'Gr,N,,,,,NFS,'), ('ὁ', 'ὁ', 'G35880', 'Gr,EA,,,,NMS,'), ('θεὸς', 'θεός', 'G23160', 'Gr,N,,,,,NMS,'), ('κατὰ', 'κατά', 'G25960', 'Gr,P,,,,,A,,,'), ('καὶ', '', 'G25320', 'Gr,CC,,,,,,,,')]
WORDS = ['In', 'the', 'beginning', 'God', 'of', 'Noé', 'world’s', 'and', 'a', 'שלום', 'sn-x', '7']
AFTER = ['', '', '', '', ',', '.', ';', '.”', '?', '!”', ':', ')', '’']
BEFORE = ['', '', '', '', '', '“', '‘', '(']


@st.composite
def case(draw):
    """[BBB, [[c, [[v, head, tokens]]]], style]; tokens: ['g', [orig…], words] ['u', word] ['p', marker]; words: [before, word, after, break]"""
    B = draw(st.sampled_from(['GEN', 'PSA', 'MAT', 'ROM']))
    orig = GREEK if B in ('MAT', 'ROM') else HEBREW
    style = draw(st.sampled_from(['lines', 'lines', 'mixed', 'running']))
    word = lambda: [draw(st.sampled_from(BEFORE)), draw(st.sampled_from(WORDS)), draw(st.sampled_from(AFTER)), draw(st.sampled_from(['\n'] * 7 + [' '] * 4 + ['q2']))]
    chapters = []
    for c in range(1, draw(st.integers(1, 2)) + 1):
        vs = []
        for v in range(1, draw(st.integers(1, 4)) + 1):
            toks, used = [], []
            for _ in range(draw(st.integers(1, 5))):
                k = draw(st.sampled_from('gggggggggggguupf'))
                if k == 'u': toks.append(['u', word()])
                elif k == 'f' and toks and toks[-1][0] in 'gu': toks.append(['f', draw(st.sampled_from(['Or, “this”', 'See', 'a note.']))])
                elif k == 'p': toks.append(['p', draw(st.sampled_from(['q1', 'q2', 'p', 'm', 'pi1']))])
                elif used and draw(st.integers(0, 4)) == 0: toks.append(['g', draw(st.sampled_from(used)), [word() for _ in range(draw(st.integers(1, 2)))]])
                else:
                    levels = []
                    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 5]))):
                        n = draw(st.integers(1, 12))
                        levels.append(list(draw(st.sampled_from(orig))) + [draw(st.integers(1, n)), n] + [draw(st.sampled_from(['', '', '', '1:1']))])
                    used.append(levels)
                    toks.append(['g', levels, [word() for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4])))]])
            if all(t[0] == 'p' for t in toks): toks.append(['u', word()])
            while toks[-1][0] == 'p': toks.pop()
            vs.append([v, draw(st.sampled_from(['', '', '', 'p', 'q1', 's1'])), toks])
        chapters.append([c, vs])
    return [B, chapters, style, draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]


def attrs(o): return f'x-strong="{o[2]}" x-lemma="{o[1]}" x-morph="{o[3]}" x-occurrence="{o[4]}" x-occurrences="{o[5]}" x-content="{o[0]}"' + (f' x-ref="{o[6]}"' if o[6] else '')


def render(cas, rec):
    """(aligned USFM, plain USFM, alignments)"""
    B, chapters, style, space, own, ts = cas
    A, P, M = [f'\\id {B} Test', '\\h Book', '\\mt1 Book'], [f'\\id {B} Test', '\\h Book', '\\mt1 Book'], []
    for c, vs in chapters:
        A.append(f'\\c {c}'); P.append(f'\\c {c}')
        if not vs[0][1] or vs[0][1][0] == 's':
            if vs[0][1]: A.append('\\s1 A heading'); P.append('\\s1 A heading')
            A.append('\\p'); P.append('\\p')
        for n, (v, head, toks) in enumerate(vs):
            if head and not (n == 0 and head == 's1'):
                A.append('\\' + head + (' A heading' if head == 's1' else '')); P.append(A[-1])
                if head == 's1': A.append('\\p'); P.append('\\p')
            if ts and v % 2: A.append('\\ts\\*' + (' ' if v % 4 == 1 else ''))
            a, p = f'\\v {v}' + ('\n' if own and style == 'lines' and toks[0][0] == 'g' and not toks[0][2][0][0] else ' '), f'\\v {v} '
            count, total, here = {}, {}, []
            for t in toks:
                for w in (t[2] if t[0] == 'g' else [t[1]] if t[0] == 'u' else []): total[w[1]] = total.get(w[1], 0) + 1

            def one(w):
                count[w[1]] = count.get(w[1], 0) + 1
                return f'\\w {w[1]}|x-occurrence="{count[w[1]]}" x-occurrences="{total[w[1]]}"\\w*', [w[1], count[w[1]], total[w[1]]]
            for i, t in enumerate(toks):
                if t[0] == 'p':
                    a = a.rstrip(' \n') + f'\n\\{t[1]} '; p = p.rstrip() + f'\n\\{t[1]} '
                    if style == 'lines': a = a.rstrip() + '\n'
                    continue
                if t[0] == 'f':
                    note = f'\\f + \\ft {t[1]}\\f*'
                    a = a.rstrip() + note + ('\n' if style == 'lines' else ' '); p = p.rstrip() + note + ' '
                    continue
                if t[0] == 'u':
                    a += t[1][0] + one(t[1])[0] + t[1][2] + (t[1][3].replace('q2', ' ') if style != 'running' else ' ')
                    p += t[1][0] + t[1][1] + t[1][2] + ' '
                    continue
                text = '|'.join(attrs(o) for o in t[1])
                ws = []
                if t[2][0][0]: a += t[2][0][0]; p += t[2][0][0]
                a += ''.join(f'\\zaln-s |{" " if space else ""}{attrs(o)}\\*' for o in t[1])
                for j, w in enumerate(t[2]):
                    if j: a += w[0]; p += w[0]
                    s, m = one(w)
                    ws.append(m)
                    a += s; p += w[1]
                    if j == len(t[2]) - 1: a += '\\zaln-e\\*' * len(t[1])
                    if w[3] == 'q2' and j < len(t[2]) - 1:
                        rec.label('paragraph inside')
                        a += w[2] + '\n\\q2' + ('\n' if style == 'lines' else ' '); p = p.rstrip() + w[2] + '\n\\q2 '
                        continue
                    a += w[2] + (' ' if style == 'running' else w[3].replace('q2', ' ') if style == 'mixed' else '\n')
                    p += w[2] + ' '
                old = [x for x in here if x[0] == text]
                if old: old[0][2].extend(ws)
                else: here.append([text, t[1], ws])
            A.append(a.rstrip()); P.append(p.rstrip())
            for text, levels, ws in here: M.append([str(c), str(v), [[o[0], o[1], o[2], o[3], o[4], o[5], o[6] or None] for o in levels], ws])
    return '\n'.join(A) + '\n', '\n'.join(P) + '\n', M


def write(folder, B, text):
    with open(os.path.join(folder, f'{g.NR[B]}{B}xyz.usfm'), 'wb') as f: f.write(text.encode())


def rows(bk): return [[e.getMarker(), ' '.join((e.getCleanText() or '').split())] + [x.cleanNoteText for x in e.getExtras() or [] if x.getType() == 'fn'] for e in bk._processedLines]


def run(cas, rec):
    a, p, M = render(cas, rec)
    B = cas[0]
    rec.interesting(len(M) > 1)
    rec.label(cas[2])
    if any(len(m[2]) > 1 for m in M): rec.label('nested')
    with quiet(), TempDir() as f, TempDir() as f2:
        write(f, B, a); write(f2, B, p)
        from BibleOrgSys.Formats.USFMBible import USFMBible
        one, two = USFMBible(f, 'xyz'), ld.load_usfm(f2)
        first = next((t for _, vs in cas[1] for _, _, toks in vs for t in toks if t[0] == 'g'), None)
        auto = cas[2] == 'lines' and cas[4] and first and all(toks[0][0] == 'g' and not toks[0][2][0][0] for _, vs in cas[1] for _, _, toks in vs[:1])
        if auto: rec.label('found without being told')
        else: one.uWencoded = True
        one.loadBooks()
    equal(rows(one[B]), rows(two[B]), 'text')
    if not M:
        check(not hasattr(one[B], 'uWalignments'), 'alignments without milestones')
        return
    check(one.uWencoded is True, 'uWencoded')
    with quiet(): got = clean('X', B, one[B].uWalignments)
    equal([[C, V, [list(x) for x in L], [list(w) for w in W]] for C, V, L, s, W in got], M, 'alignments')


SUBS = [Sub('alignments', lambda: case(), run, 300, rule='two or more alignments')]
