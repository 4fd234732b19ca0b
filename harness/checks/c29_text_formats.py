"""C29: verse-per-line files and simple XML Bibles load every verse at its book, chapter and verse.

Cases are Bibles (books, chapters and verses in order, with gaps) of plain text plus the features a format documents
(added words, words of Jesus, paragraph signs, Psalm titles, poetry lines, headings, notes, metadata lines).  Each is written
by an own writer for the format and loaded by BibleOrgSys; the oracle is the Bible it was written from.
"""
import os, types, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from hypothesis import strategies as st
from core import *

PROPERTY = 'C29'


def setup():
    global G, ROWS, FMT
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    import importlib
    root = ET.parse(os.path.join(REPO, 'BibleOrgSys/DataFiles/BibleBooksCodes.xml')).getroot()
    ROWS = {}
    for el in root.findall('BibleBookCodes'):
        r = {sub.tag: sub.text for sub in el}; ROWS[r['referenceAbbreviation']] = r
    FMT = {n: getattr(importlib.import_module('BibleOrgSys.Formats.' + n), n) for n in
           ('VPLBible', 'CSVBible', 'UnboundBible', 'YETBible', 'VerseViewXMLBible', 'ForgeForSwordSearcherBible', 'DrupalBible', 'OpenSongXMLBible', 'HaggaiXMLBible', 'ZefaniaXMLBible')}


BOOKS = ('GEN EXO LEV NUM DEU JOS JDG RUT SA1 SA2 KI1 KI2 CH1 CH2 EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE DAN HOS JOL AMO OBA JNA MIC NAH HAB ZEP HAG ZEC MAL '
         'MAT MRK LUK JHN ACT ROM CO1 CO2 GAL EPH PHP COL TH1 TH2 TI1 TI2 TIT PHM HEB JAM PE1 PE2 JN1 JN2 JN3 JDE REV').split()
ENGLISH = ('Genesis|Exodus|Leviticus|Numbers|Deuteronomy|Joshua|Judges|Ruth|1 Samuel|2 Samuel|1 Kings|2 Kings|1 Chronicles|2 Chronicles|Ezra|Nehemiah|Esther|Job|Psalms|Proverbs|'
           'Ecclesiastes|Song of Solomon|Isaiah|Jeremiah|Lamentations|Ezekiel|Daniel|Hosea|Joel|Amos|Obadiah|Jonah|Micah|Nahum|Habakkuk|Zephaniah|Haggai|Zechariah|Malachi|'
           'Matthew|Mark|Luke|John|Acts|Romans|1 Corinthians|2 Corinthians|Galatians|Ephesians|Philippians|Colossians|1 Thessalonians|2 Thessalonians|1 Timothy|2 Timothy|Titus|'
           'Philemon|Hebrews|James|1 Peter|2 Peter|1 John|2 John|3 John|Jude|Revelation').split('|')
NAME = dict(zip(BOOKS, ENGLISH))
NR = {b: i + 1 for i, b in enumerate(BOOKS)}
WORDS = ['word', 'God', 'Noé', 'the', 'ñandú', 'אור', 'דָּבָר', '世界', 'Ἰησοῦς', 'don’t', 'Ω', 'x', '7', '144', 'LORD', 'well-known', 'Mungu', 'слово', 'a']
MARKS = [',', '.', ';', ':', '!', '?', '.”', ',’', ')', ' —', '…', "'s"]


@st.composite
def sentence(draw, n=6):
    out = []
    for _ in range(draw(st.integers(1, n))):
        out.append(draw(st.sampled_from(['', '', '', '', '“', '(', '‘'])) + draw(st.sampled_from(WORDS)) + (draw(st.sampled_from(MARKS)) if draw(st.integers(0, 4)) == 0 else ''))
    return ' '.join(out)


@st.composite
def bible(draw, books=BOOKS, ordered=True, rich=True):
    """[[BBB, [[c, [[v, parts]]]]]]; parts: ['t', text] ['a', added] ['j', words of Jesus] ['f', note] ['n', new line]; 'p' and 'd' before the text of a verse"""
    bs = draw(st.lists(st.sampled_from([b for b in books]), min_size=1, max_size=4, unique=True))
    if ordered: bs.sort(key=list(books).index)
    out = []
    for B in bs:
        cs, c = [], 0
        for _ in range(draw(st.integers(1, 3))):
            c += draw(st.sampled_from([1, 1, 1, 1, 2, 9, 30]))
            vs, v = [], 0
            for _ in range(draw(st.integers(1, 4))):
                v += draw(st.sampled_from([1, 1, 1, 1, 1, 2, 9, 40]))
                parts = [['t', draw(sentence())]]
                for _ in range(draw(st.integers(0, 2)) if rich else 0):
                    parts.insert(draw(st.integers(0, len(parts))), [draw(st.sampled_from('aajf')), draw(sentence(3))])
                    parts.append(['t', draw(sentence(3))])
                opts = [draw(st.integers(0, 4)) == 0, draw(sentence(4)) if B == 'PSA' and draw(st.booleans()) else '']
                if draw(st.integers(0, 5)) == 0: parts.append(['n', draw(sentence(4))])
                vs.append([v, parts, opts])
            cs.append([c, vs])
        out.append([B, cs])
    return out


def joined(parts, how):
    """the parts' texts with a space between, each wrapped by how[kind]"""
    out = []
    for k, t in parts:
        f = how.get(k)
        if f is None: continue
        out.append(f(t) if callable(f) else f % t)
    return ' '.join(out)


def write(folder, name, text, eol='\n', bom=False):
    with open(os.path.join(folder, name), 'wb') as f: f.write((('\ufeff' if bom else '') + text.replace('\n', eol)).encode())


def loaded(b):
    """{BBB: [[C, V, kind, text]]}: every line of text in order, notes as [note text]"""
    out = {}
    for bk in b:
        C, V, L = '', '', []
        for e in bk._processedLines:
            m, t = e.getMarker(), e.getAdjustedText()
            if m.startswith('¬') or m in ('chapters', 'headers', 'intro', 'c#', 'v='): continue
            x = [n.cleanNoteText for n in e.getExtras() or []]
            if m == 'c': C, V = e.getCleanText(), ''
            elif m == 'v': V = e.getCleanText()
            elif m in ('id', 'h', 'mt1', 'toc1', 'rem', 'ide', 'usfm'): continue
            else: L.append([C, V, m, t or ''] + x)
        out[bk.BBB] = L
    return out


def want(bible, how, para=False, title=False, lines=None, notes=None):
    """the same from the model: how = adjusted text of the parts; lines = marker of further lines or None to ignore"""
    out = {}
    for B, cs in bible:
        L = []
        for c, vs in cs:
            for v, parts, (p, d) in vs:
                if title and d and v == 1: L.append([str(c), '', 'd', d])
                if para and p: L.append([str(c), '?', 'p', ''])
                bits = [x for x in parts if x[0] != 'n']
                L.append([str(c), str(v), 'v~', joined(bits, how)] + ([notes % t if isinstance(notes, str) else notes(c, v, t) for k, t in bits if k == 'f'] if notes else []))
                if lines: L += [[str(c), str(v), lines, t] for k, t in parts if k == 'n']
        out[B] = L
    return out


def compare(b, expected, order, keep):
    got = loaded(b)
    equal([bk.BBB for bk in b], order, 'books')
    for B, L in expected.items():
        G2 = [x for x in got[B] if x[2] in keep]
        # a paragraph sign belongs to the verse after it
        equal([x if x[2] not in ('p', 'q1') else ['', '', x[2], ''] for x in G2], [x if x[2] not in ('p', 'q1') else ['', '', x[2], ''] for x in L], B)
        odd = [x for x in got[B] if x[2] not in keep]
        check(not odd, f'{B}: unexpected lines {short(odd)}')
        for c, v, m, t, *_ in L:
            if m == 'v~':
                text = b.getVerseText((B, c, v))
                check(t == '' or text is not None and t.replace('\\add ', '').split(' ')[0].split('\\')[0] in text, f'{B} {c}:{v} looked up: {short(text)}')


def rows(bible):
    for B, cs in bible:
        for c, vs in cs:
            for v, parts, opts in vs: yield B, c, v, [x for x in parts if x[0] != 'n'], opts


def order_of(bible): return [B for B, _ in bible]


SAME = {'t': '%s'}
ADD = {'t': '%s', 'a': '\\add %s\\add*'}
BOTH = {'t': '%s', 'a': '\\add %s\\add*', 'j': '\\wj %s\\wj*'}


def interesting(rec, case):
    n = sum(len(vs) for _, cs in case for _, vs in cs)
    rec.interesting(n > 2)
    if len(case) > 1: rec.label('several books')


# ------------------------------------------------------------------ VPL

VPL_CODES = ['code', 'name', 'osis']


def vpl_code(B, how):
    r = ROWS[B]
    if how == 'osis' and len(r['OSISAbbreviation']) <= 5: return r['OSISAbbreviation']
    if how == 'name' and NAME[B].isalpha() and len(NAME[B]) <= 5: return NAME[B]
    return r['USFMAbbreviation'].upper()


@st.composite
def vpl1_case(draw): return [draw(bible(ordered=draw(st.booleans()))), draw(st.sampled_from(VPL_CODES)), draw(st.sampled_from(['\n', '\n', '\r\n'])), draw(st.booleans()), draw(st.sampled_from(['vpl', 'txt', 'VPL'])), draw(st.booleans())]


def vpl1(case, rec):
    bib, how, eol, bom, ext, blank = case
    interesting(rec, bib)
    how_w = {'t': '%s', 'a': '[%s]', 'j': '<%s>'}
    out = []
    for B, c, v, parts, (p, d) in rows(bib):
        title = f'«{d}» ' if d and v == 1 else ''
        out.append(f'{vpl_code(B, how)} {c}:{v} {title}{"¶ " if p else ""}{joined(parts, how_w)}')
    with TempDir() as f:
        write(f, 'demo.' + ext, ('\n\n' if blank else '\n').join(out) + '\n', eol, bom)
        with quiet(): b = FMT['VPLBible'](f, 'demo'); b.load()
        compare(b, want(bib, BOTH, para=True, title=True), order_of(bib), ('v~', 'p~', 'd', 'p'))


APO = dict(TOB=67, JDT=68, ESG=69, WIS=70, SIR=71, BAR=72, LJE=73, PAZ=74, SUS=75, BEL=76, MA1=77, MA2=78, MA3=79, MA4=80, GES=81, LES=82, MAN=83, PS2=84, PSS=85, ODE=86)
META3 = {'language_name': 'LanguageName', 'closest ISO 639-3': 'ISOLanguageCode', 'year_short': 'Year.short', 'year_long': 'Year.long', 'title': 'WorkTitle', 'URL': 'URL', 'copyright_short': 'Copyright.short', 'copyright_long': 'Copyright.long'}


@st.composite
def vpl2_case(draw):
    meta = draw(st.lists(st.tuples(st.sampled_from(sorted(META3)), st.one_of(st.just('Not available'), sentence(3))), max_size=5, unique_by=lambda x: x[0])) if draw(st.booleans()) else None
    return [draw(bible(books=BOOKS + sorted(APO, key=APO.get), rich=False)), meta and [list(x) for x in meta], draw(st.booleans()), draw(st.sampled_from(['\n', '\r\n']))]


def vpl2(case, rec):
    bib, meta, spaced, eol = case
    interesting(rec, bib)
    out, first = [], [['language_name', 'Test']]
    for B, c, v, parts, _ in rows(bib):
        t = joined(parts, SAME)
        if spaced:
            for ch in ',.;:!)': t = t.replace(ch, ' ' + ch)
            t = t.replace('(', '( ').replace('“', '“ ').replace('  ', ' ')
        out.append(f'{NR.get(B) or APO[B]:02}{c:03}{v:03}\t{t}')
    with TempDir() as f:
        head = ''
        if meta is not None:
            meta = first + [x for x in meta if x[0] != 'language_name']
            head = ''.join(f'# {k}: {x}\n' for k, x in meta) + '# other thing: 5\n'
        write(f, 'demo.txt', head + '\n'.join(out) + '\n', eol)
        with quiet(): b = FMT['VPLBible'](f, 'demo'); b.load()
        exp = want(bib, SAME)
        if spaced:      # the loader joins detached punctuation marks again
            for L in exp.values():
                for x in L:
                    t = x[3]
                    for ch in ',.;:!)': t = t.replace(' ' + ch, ch)
                    x[3] = t.replace('( ', '(').replace('“ ', '“')
        compare(b, exp, order_of(bib), ('v~',))
        if meta is not None:
            equal({k: x for k, x in b.suppliedMetadata['VPL'].items()}, {META3[k]: x for k, x in meta if x != 'Not available'}, 'metadata')
            for k, x in meta:
                if x != 'Not available': equal(b.getSetting(META3[k]), x, META3[k])


@st.composite
def vpl5_case(draw):
    bib = draw(bible(rich=False))
    for B, cs in bib:
        for i, (c, vs) in enumerate(cs):
            cs[i][0] = i + 1
            for j, x in enumerate(vs): x[0] = j + 1
    return [bib, draw(st.integers(2, 3)), draw(st.sampled_from(['\n', '\r\n']))]


def vpl5(case, rec):
    bib, gap, eol = case
    interesting(rec, bib)
    out = ['A Bible for Testing', '', '']
    for B, cs in bib:
        out += [''] * (gap - 2) + [NAME[B], '']
        for c, vs in cs:
            out += [('Psalm ' if B == 'PSA' and c > 1 else 'Chapter ') + str(c), '']
            for v, parts, _ in vs:
                bits = [t for _, t in parts]
                if any(t[0].isdigit() for t in bits[1:]): raise Discard     # could be taken for the next verse
                out += [f'{v} {bits[0]}'] + bits[1:] + ['']
        out += ['']
    with TempDir() as f:
        write(f, 'demo.txt', '\n'.join(out) + '\n', eol)
        with quiet(): b = FMT['VPLBible'](f, 'demo'); b.load()
        equal(b.workName, 'A Bible for Testing', 'work name')
        exp = {B: [[str(c), str(v), 'v~', ' '.join(t for _, t in parts)] for c, vs in cs for v, parts, _ in vs] for B, cs in bib}
        compare(b, exp, order_of(bib), ('v~',))


# ------------------------------------------------------------------ CSV

@st.composite
def csv_case(draw):
    kind = draw(st.sampled_from(['"Book",', 'Book,', '"Book"|', 'Book|', 'tab4', 'tab2']))
    return [draw(bible(rich=False)), kind, draw(st.sampled_from(['nr', 'name', 'code'])), draw(st.sampled_from(['', 'say "yes" now', '"whole"', 'one, two', "'x' y"])), draw(st.booleans())]


def csv(case, rec):
    bib, kind, naming, extra, comment = case
    interesting(rec, bib)
    rec.label(kind)
    sep = '\t' if kind.startswith('tab') else kind[-1]
    quoted = kind[0] == '"'
    if not quoted and extra == '"whole"': extra = ''
    q = (lambda t: '"' + str(t).replace('"', '""') + '"') if quoted else str
    out = []
    if not kind.startswith('tab'): out.append(sep.join(q(x) for x in ('Book', 'Chapter', 'Verse', 'Text')))
    exp = {B: [] for B, _ in bib}
    for B, c, v, parts, _ in rows(bib):
        t = joined(parts, SAME)
        if extra: t += ' ' + extra if v % 2 else ''
        if extra == '"whole"' and v % 2: t = extra
        exp[B].append([str(c), str(v), 'v~', t])
        name = {'nr': NR[B], 'name': NAME[B], 'code': ROWS[B]['USFMAbbreviation'].upper()}[naming]
        if kind == 'tab2': out.append(f'{NAME[B]} {c}:{v}\t{t}')
        else: out.append(sep.join([q(name) if naming != 'nr' else str(name), str(c), str(v), q(t)]))
    if comment: out.insert(1 if len(out) > 1 else 0, '# a comment, with things')
    with TempDir() as f:
        write(f, 'demo.csv' if sep != '\t' else 'demo.tsv', '\n'.join(out) + '\n')
        with quiet(): b = FMT['CSVBible'](f, 'demo'); b.load()
        compare(b, exp, order_of(bib), ('v~',))


# ------------------------------------------------------------------ Unbound

@st.composite
def unbound_case(draw):
    meta = draw(st.lists(st.tuples(st.sampled_from(['name', 'filetype', 'copyright', 'abbreviation', 'language', 'note', 'columns']), sentence(3)), max_size=4, unique_by=lambda x: x[0]))
    return [draw(bible(rich=False, books=BOOKS)), draw(st.sampled_from([4, 6, 9])), [list(x) for x in meta], draw(st.sampled_from(['', 'blank', 'spaces']))]


UNBOUND_KEYS = {'name': 'FullName', 'filetype': 'Filetype', 'copyright': 'Copyright', 'abbreviation': 'Abbreviation', 'language': 'Language', 'note': 'Note', 'columns': 'Columns'}


def unbound(case, rec):
    bib, cols, meta, odd = case
    interesting(rec, bib)
    rec.label(f'{cols} columns')
    out = [f'#{k}\t{x}' for k, x in meta]
    for n, (B, c, v, parts, _) in enumerate(rows(bib)):
        code = ROWS[B]['UnboundCode']
        t = joined(parts, SAME)
        if odd == 'spaces': t = f' {t} '
        rest = [code, str(c), str(v), t] if cols == 4 else [code, str(c), str(v), '', str((n + 1) * 10), t]
        if cols == 9: rest = [code, str(c), str(v)] + rest
        out.append('\t'.join(rest))
        if odd == 'blank' and n % 2: out.append('\t'.join(rest[:-2 if cols == 4 else -4] + [str(v + 1)] + rest[(3 if cols == 4 else 3) + (3 if cols == 9 else 0):-1] + ['']))
    with TempDir() as f:
        write(f, 'demo_utf8.txt', '\n'.join(out) + '\n')
        with quiet(): b = FMT['UnboundBible'](f, 'demo'); b.load()
        compare(b, want(bib, SAME), order_of(bib), ('v~',))
        equal(b.suppliedMetadata['Unbound'], dict(meta), 'metadata')
        for k, x in meta: equal(b.settingsDict.get(UNBOUND_KEYS.get(k, k)), x, 'setting for ' + k)


# ------------------------------------------------------------------ Drupal

@st.composite
def drupal_case(draw): return [draw(bible()), draw(st.sampled_from(['\n', '\n'])), draw(st.booleans())]


def drupal(case, rec):
    bib, eol, bom = case
    interesting(rec, bib)
    code = lambda B: ROWS[B]['DrupalBibleAbbreviation']
    out = ['*Bible', '#shortname fullname language', 'demo|The Demo Bible|eng', '', '*Chapter', '#book,fullname,shortname,chap-count']
    out += [f'{code(B)}|{NAME[B]}|{code(B)}|{len(cs)}' for B, cs in bib]
    out += ['', '*Context', '#Book,Chapter,Verse,LineMark,Context']
    out += [f'{code(B)}|{c}|{v}||{joined(parts, {"t": "%s", "a": "<%s>"})}' for B, c, v, parts, _ in rows(bib)]
    with TempDir() as f:
        write(f, 'demo.bc', '\n'.join(out) + '\n', eol, bom)
        with quiet(): b = FMT['DrupalBible'](f, 'demo'); b.load()
        equal(b.name, 'The Demo Bible', 'name')
        compare(b, want(bib, {'t': '%s', 'a': '\\it %s\\it*'}), order_of(bib), ('v~',))


# ------------------------------------------------------------------ Forge for SwordSearcher

FORGE = 'Ge Ex Le Nu De Jos Jg Ru 1Sa 2Sa 1Ki 2Ki 1Ch 2Ch Ezr Ne Es Job Ps Pr Ec Song Isa Jer La Eze Da Ho Joe Am Ob Jon Mic Na Hab Zep Hag Zec Mal Mt Mr Lu Joh Ac Ro 1Co 2Co Ga Eph Php Col 1Th 2Th 1Ti 2Ti Tit Phm Heb Jas 1Pe 2Pe 1Jo 2Jo 3Jo Jude Re'.split()

FULL = {'Sa': ('Samuel', 'Sam'), 'Ki': ('Kings', 'Kgs'), 'Ch': ('Chronicles', 'Chron'), 'Co': ('Corinthians', 'Cor'), 'Th': ('Thessalonians', 'Thess'),
        'Ti': ('Timothy', 'Tim'), 'Pe': ('Peter', 'Pet'), 'Jo': ('John', 'Jn')}


@st.composite
def forge_case(draw):
    names = draw(st.integers(0, 3))
    books = [B for B, x in zip(BOOKS, FORGE) if x[0].isdigit() or x in ('Ge', 'Ru', 'Re')] if names else BOOKS
    return [draw(bible(books)), draw(st.booleans()), draw(sentence(3)), draw(st.sampled_from(['', 'x'])), names]


def forge(case, rec):
    bib, bom, about, xref, names = case
    interesting(rec, bib)
    code = dict(zip(BOOKS, FORGE))
    if names:       # 1 Sam, 1 Samuel or 1Samuel
        for B, x in code.items():
            if x[0].isdigit(): code[B] = x[0] + ' ' * (names < 3) + FULL[x[1:3]][names == 1]
    out = ['; TITLE: The Demo Bible', '; ABBREVIATION: Demo', '; HAS ITALICS', '; HAS FOOTNOTES', '; HAS REDLETTER', '', '; a comment', '$$ {ABOUT}', about, about]
    for B, c, v, parts, (p, d) in rows(bib):
        two = [f'$$ {code[B]} {c}:{v}', ('¶ ' if p else '') + joined(parts, {'t': '%s', 'a': '[%s]', 'j': '+r/%s-r/', 'f': '{%s}'})]
        out += two
        if xref and v % 3 == 0 and not p: out += ['', '; a comment'] + two      # a repeated verse is ignored
    with TempDir() as f:
        write(f, 'demo.txt', '\n'.join(out) + '\n', bom=bom)
        with quiet(): b = FMT['ForgeForSwordSearcherBible'](f, 'demo'); b.load()
        equal([b.settingsDict.get(k) for k in ('FullName', 'Abbreviation', 'ABOUT')], ['The Demo Bible', 'Demo', about + '\n' + about], 'settings')
        exp = want(bib, dict(BOTH, f=lambda t: ''), para=True, notes=lambda c, v, t: f'{c}:{v} {t}')
        compare_loose(b, exp, order_of(bib), ('v~', 'p'))


def compare_loose(b, exp, order, keep):
    """note places leave spaces behind: compare with single spaces"""
    equal([bk.BBB for bk in b], order, 'books')
    got = loaded(b)
    norm = lambda x: [x[0] if x[2] != 'p' else '', x[1] if x[2] != 'p' else '', x[2], ' '.join(x[3].split())] + [t.strip() for t in x[4:]]
    for B in exp: equal([norm(x) for x in got[B]], [norm(x) for x in exp[B]], B)


# ------------------------------------------------------------------ XML formats

def xml_text(parts, how): return joined(parts, how)


@st.composite
def xml_case(draw, fmt): return [draw(bible(ordered=fmt != 'opensong' or draw(st.booleans()))), draw(st.sampled_from(['', '\n  ']))]


def opensong(case, rec):
    bib, nl = case
    interesting(rec, bib)
    how = {'t': escape, 'a': lambda t: f'<i>{escape(t)}</i>'}
    out, exp = ['<?xml version="1.0" encoding="utf-8"?>\n<bible>'], {}
    for B, cs in bib:
        L = exp[B] = []
        out.append(f'{nl}<b n={quoteattr(NAME[B])}>')
        for c, vs in cs:
            out.append(f'{nl}<c n="{c}">')
            for v, parts, _ in vs:
                one = [x for x in parts if x[0] != 'n']
                more = [t for k, t in parts if k == 'n']
                out.append(f'{nl}<v n="{v}">{joined(one, how)}' + ''.join('\n' + escape(t) for t in more) + '</v>')
                adj = joined(one, {'t': '%s', 'a': '\\it %s\\it*'})
                if more: L.append([str(c), '', 'q1', ''])
                L.append([str(c), str(v), 'v~', adj])
                for t in more: L += [[str(c), str(v), 'q1', ''], [str(c), str(v), 'p~', t]]
            out.append(f'{nl}</c>')
        out.append(f'{nl}</b>')
    out.append('\n</bible>')
    with TempDir() as f:
        write(f, 'demo.xml', ''.join(out))
        with quiet(): b = FMT['OpenSongXMLBible'](f, 'demo.xml'); b.load()
        compare(b, exp, order_of(bib), ('v~', 'p~', 'q1'))
        for B, _ in bib: equal(b[B].getField('h'), NAME[B], 'running header')


def verseview(case, rec):
    bib, nl = case
    interesting(rec, bib)
    out = ['<?xml version="1.0" encoding="utf-8"?>\n<bible><fname>demo.xml</fname><revision>1</revision><title>The Demo Bible</title><font>Arial</font><copyright>None</copyright><sizefactor>1</sizefactor>']
    for B, cs in bib:
        out.append(f'{nl}<b n={quoteattr(NAME[B])}>')
        for c, vs in cs:
            out.append(f'{nl}<c n="{c}">' + ''.join(f'{nl}<v n="{v}">{escape(joined([x for x in parts if x[0] == "t"], SAME))}</v>' for v, parts, _ in vs) + f'{nl}</c>')
        out.append(f'{nl}</b>')
    out.append('</bible>')
    with TempDir() as f:
        write(f, 'demo.xml', ''.join(out))
        with quiet(): b = FMT['VerseViewXMLBible'](f, 'demo.xml'); b.load()
        equal(b.getSetting('FullName'), 'The Demo Bible', 'title')
        compare(b, want([[B, [[c, [[v, [x for x in parts if x[0] == 't'], o] for v, parts, o in vs]] for c, vs in cs]] for B, cs in bib], SAME), order_of(bib), ('v~',))


FIELDS = {'title': 'title', 'creator': 'creator', 'subject': 'subject', 'description': 'description', 'publisher': 'publisher', 'date': 'date', 'type': 'documentType', 'identifier': 'identifier',
          'source': 'source', 'language': 'language', 'coverage': 'coverage', 'rights': 'rights'}
STYLES = {'haggai': {'fs="emphasis"': 'em', 'fs="super"': 'bdit'},
          'zefania': {'css="font-style:italic"': 'it', 'css="font-style:italic;"': 'it', 'css="font-style:italic;font-weight:bold"': 'bdit', 'css="color:#FF0000"': 'em', 'css="font-size: x-small; color:#8B8378"': 'add', 'id="cl:divineName"': 'nd'}}


@st.composite
def zef_case(draw, style):
    info = {k: draw(sentence(3)) for k in FIELDS if k not in ('language', 'date', 'type', 'format')}
    info.update(language='ENG', date='2009-01-23', type='Bible')
    return [draw(bible()), draw(st.sampled_from(['', '\n  '])), info, draw(st.booleans()), draw(st.sampled_from(sorted(STYLES[style]))), draw(st.sampled_from(['', 'x-studynote'])), draw(st.booleans())]


def zefania_like(style):
    def run(case, rec):
        bib, nl, info, last, css, ntype, gr = case
        interesting(rec, bib)
        hag = style == 'haggai'
        sfm = STYLES[style][css]
        ntype = '' if hag else ntype
        head = '<INFORMATION>' + nl.join(f'<{k}>{escape(t)}</{k}>' for k, t in list(info.items())[:7]) + f'<format>{"Haggai" if hag else "Zefania"} XML Bible Markup Language</format>' + ''.join(f'<{k}>{escape(t)}</{k}>' for k, t in list(info.items())[7:]) + '</INFORMATION>'
        out = [f'<?xml version="1.0" encoding="utf-8"?>\n<XMLBIBLE biblename="Demo" type="x-bible" revision="1" version="2" status="v">']
        if not last: out.append(nl + head)
        exp = {}
        for B, cs in bib:
            L = exp[B] = []
            out.append(f'{nl}<BIBLEBOOK bnumber="{NR[B]}" bname={quoteattr(NAME[B])} bsname={quoteattr(ROWS[B]["shortAbbreviation"])}>')
            for c, vs in cs:
                out.append(f'{nl}<CHAPTER cnumber="{c}">')
                if hag: out.append('<PARAGRAPH>'); L.append(['', '', 'p', ''])
                for i, (v, parts, (p, d)) in enumerate(vs):
                    if hag and p and i: out.append(f'</PARAGRAPH>{nl}<PARAGRAPH>'); L.append(['', '', 'p', ''])
                    xml, here, notes, at = '', '', [], [str(c), str(v), 'v~']
                    for k, t in parts:
                        if k == 'n':
                            rec.label('line break')
                            xml += '<BR art="x-nl"/>' + escape(t)
                            L.append(at + [here] + notes); L.append(['', '', 'm', ''])
                            here, notes, at = t, [], [str(c), str(v), 'p~']
                            continue
                        if xml: xml += ' '
                        here += ' '
                        if k == 't': xml += escape(t); here += t
                        elif k == 'a': xml += f'<STYLE {css}>{escape(t)}</STYLE>'; here += f'\\{sfm} {t}\\{sfm}*'
                        elif k == 'f': xml += '<NOTE' + (f' type="{ntype}"' if not hag else '') + f'>{escape(t)}</NOTE>' if hag or ntype else f'<DIV><NOTE>{escape(t)}</NOTE></DIV>'; notes.append(t)
                        elif gr and not hag: xml += f'<gr str="26">{escape(t)}</gr>'; here += t; notes.append(t + '|strong="G26"')
                        else: xml += escape(t); here += t
                    L.append(at + [here] + notes)
                    tag = 'VERSE' if hag else 'VERS'
                    out.append(f'{nl}<{tag} vnumber="{v}">{xml}</{tag}>')
                if hag: out.append('</PARAGRAPH>')
                out.append('</CHAPTER>')
            out.append('</BIBLEBOOK>')
        if last: out.append(nl + head)
        out.append('</XMLBIBLE>')
        with TempDir() as f:
            write(f, 'demo.xml', ''.join(out))
            with quiet(): b = FMT['HaggaiXMLBible' if hag else 'ZefaniaXMLBible'](f, 'demo.xml'); b.load()
            equal([bk.BBB for bk in b], order_of(bib), 'books')
            got = loaded(b)
            norm = lambda x: ['', '', x[2], ''] if x[2] in ('p', 'm') else x[:3] + [' '.join(x[3].split())] + [t.strip() for t in x[4:]]
            for B in exp: equal([norm(x) for x in got[B]], [norm(x) for x in exp[B]], B)
            equal(b.name, 'Demo', 'name')
            equal({k: getattr(b, a, None) for k, a in FIELDS.items()}, info, 'information')
    return run


# ------------------------------------------------------------------ YET

@st.composite
def yet_case(draw):
    bib = draw(bible())
    heads = []
    for B, cs in bib:
        for c, vs in cs:
            for v, _, _ in vs:
                if draw(st.integers(0, 5)) == 0: heads.append([B, c, v, draw(sentence(3)), draw(st.lists(st.sampled_from(['Matt 1:1', 'Luke 3:4-5']), max_size=2))])
    return [bib, heads, draw(st.sampled_from(sorted(YCODE)))]


YCODE = {'p': '@^', 'm': '@0', 'q1': '@1', 'q2': '@2', 'q3': '@3', 'q4': '@4'}


def yet(case, rec):
    bib, heads, mark = case
    interesting(rec, bib)
    out = ['info\tshortName\tDemo', 'info\tlongName\tThe Demo Bible', 'info\tlocale\tin'] + [f'book_name\t{NR[B]}\t{NAME[B]}' for B, _ in bib]
    exp, notes = {}, []
    where = {(B, c, v): (t, r) for B, c, v, t, r in heads}
    for B, cs in bib:
        L = exp[B] = []
        for c, vs in cs:
            for v, parts, (p, d) in vs:
                n = [0]

                def note(t):
                    n[0] += 1
                    notes.append(f'footnote\t{NR[B]}\t{c}\t{v}\t{n[0]}\t{t}')
                    return f'@<f{n[0]}@>@/'
                text = ''
                for k, t in parts:
                    if k == 'n': text += YCODE[mark] + t
                    else: text += (' ' if text and not text.endswith(' ') else '') + {'t': t, 'a': f'@9{t}@7', 'j': f'@6{t}@5', 'f': None}[k] if k != 'f' else note(t)
                if p: text = '@^' + text
                if '@' in text: text = '@@' + text
                out.append(f'verse\t{NR[B]}\t{c}\t{v}\t{text}')
                if (B, c, v) in where:
                    h, r = where[B, c, v]
                    L.append([str(c), '?', 's1', h])
                    if r: L.append([str(c), '?', 'r', '(' + '; '.join(r) + ')'])
                if p: L.append(['', '', 'p', ''])
                body, extra = '', []
                for k, t in parts:
                    if k == 'f': extra.append(t)
                    elif k != 'n': body += (' ' if body else '') + {'t': t, 'a': f'\\add {t}\\add*', 'j': f'\\wj {t}\\wj*'}[k]
                L.append([str(c), str(v), 'v~', body] + extra)
                for k, t in parts:
                    if k == 'n': L += [[str(c), str(v), mark, ''], [str(c), str(v), 'p~', t]]
    for B, c, v, t, r in heads: out += [f'pericope\t{NR[B]}\t{c}\t{v}\t{t}'] + [f'parallel\t{x}' for x in r]
    out += notes
    with TempDir() as f:
        write(f, 'demo.yet', '\n'.join(out) + '\n')
        with quiet(): b = FMT['YETBible'](f, 'demo'); b.load()
        equal([bk.BBB for bk in b], order_of(bib), 'books')
        got = loaded(b)
        norm = lambda x: ['', '', x[2], ''] if x[2] in YCODE else [x[0], '?' if x[2] in ('s1', 'r') else x[1], x[2], ' '.join(x[3].split())] + [t.strip() for t in x[4:]]
        for B in exp: equal([norm(x) for x in got[B]], [norm(x) for x in exp[B]], B)


SUBS = [
    Sub('vpl 1', lambda: vpl1_case(), vpl1, 200, rule='three or more verses'),
    Sub('vpl 2 and 3', lambda: vpl2_case(), vpl2, 150, rule='three or more verses'),
    Sub('vpl 5', lambda: vpl5_case(), vpl5, 100, rule='three or more verses'),
    Sub('csv', lambda: csv_case(), csv, 250, rule='three or more verses'),
    Sub('unbound', lambda: unbound_case(), unbound, 150, rule='three or more verses'),
    Sub('drupal', lambda: drupal_case(), drupal, 120, rule='three or more verses'),
    Sub('forge', lambda: forge_case(), forge, 300, rule='three or more verses'),
    Sub('yet', lambda: yet_case(), yet, 150, rule='three or more verses'),
    Sub('opensong', lambda: xml_case('opensong'), opensong, 120, rule='three or more verses'),
    Sub('verseview', lambda: xml_case('verseview'), verseview, 120, rule='three or more verses'),
    Sub('haggai', lambda: zef_case('haggai'), zefania_like('haggai'), 120, rule='three or more verses'),
    Sub('zefania', lambda: zef_case('zefania'), zefania_like('zefania'), 120, rule='three or more verses'),
]
