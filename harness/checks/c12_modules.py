"""C12: text and Bible-program module exports hold each verse's text in its place, and load again as the same verses."""
import os, re, ast, sqlite3, struct, zlib
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld
import refdata

PROPERTY = 'C12'
OT = 'GEN EXO LEV NUM DEU JOS JDG RUT SA1 SA2 KI1 KI2 CH1 CH2 EZR NEH EST JOB PSA PRO ECC SNG ISA JER LAM EZE DAN HOS JOL AMO OBA JNA MIC NAH HAB ZEP HAG ZEC MAL'.split()
NT = 'MAT MRK LUK JHN ACT ROM CO1 CO2 GAL EPH PHP COL TH1 TH2 TI1 TI2 TIT PHM HEB JAM PE1 PE2 JN1 JN2 JN3 JDE REV'.split()
ALL = OT + NT


def setup():
    global G, USFMBible, KJV, IMPORT
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.Formats.USFMBible import USFMBible
    cv = refdata.versifications()[refdata.org_value('GENERIC-KJV-66-ENG', 'versificationSystem')][0]
    KJV = {b: cv[b].list() for b in ALL}
    from BibleOrgSys.Formats import theWordBible, MySwordBible, ESwordBible, MyBibleBible, EasyWorshipBible, DrupalBible, ForgeForSwordSearcherBible
    IMPORT = dict(totheWord=theWordBible.theWordBible, toMySword=MySwordBible.MySwordBible, toESword=ESwordBible.ESwordBible, toMyBible=MyBibleBible.MyBibleBible,
                  toEasyWorshipBible=EasyWorshipBible.EasyWorshipBible, toVPL=ForgeForSwordSearcherBible.ForgeForSwordSearcherBible, toDrupalBible=DrupalBible.DrupalBible, toSwordSearcher=ForgeForSwordSearcherBible.ForgeForSwordSearcherBible)


def squash(t): return ''.join(t.split())


# ------------------------------------------------------------------ what the exports should hold

def numbers(V):
    """Verse numbers covered by a printed verse number."""
    n = [int(x) for x in re.findall(r'\d+', V)]
    return range(n[0], n[-1] + 1)


def texts(books):
    """{(BBB, C, V as written): text without spaces} and the same for single verse numbers within the KJV versification."""
    own, kjv = {}, {}
    for bk in books:
        B = bk['BBB']
        for (C, V), ts in g.verse_text(bk)[0].items():
            t = squash(''.join(ts))
            own[B, C, V] = t
            if B in KJV and int(C) <= len(KJV[B]):
                for v in numbers(V):
                    if v <= KJV[B][int(C) - 1]: kjv[B, int(C), v] = t
    return own, kjv


# ------------------------------------------------------------------ readers of the exported files (independent of the importers)

def lines_of(path, enc='utf-8-sig'):
    with open(path, 'rt', encoding=enc, newline='') as f: return f.read().split('\n')


def put(d, k, t):
    check(k not in d, 'each verse is written only once', k)
    d[k] = squash(t)


FORGE = {'GEN': 'Ge', 'LEV': 'Le', 'LAM': 'La', 'MAT': 'Mt', 'JDE': 'Jude'}


def read_VPL(out, books):
    d = {}
    for bk in books:
        name = FORGE.get(bk['BBB'], bk['BBB'])
        key = None
        for l in lines_of(f'{out}/Forge/BOS-BibleWriter-{name}.txt'):
            if l.startswith('$$ '):
                m = re.fullmatch(r'\$\$ (\S+) (\d+):(\S+)', l)
                check(m and m[1] == name, 'verse line', l)
                key = bk['BBB'], m[2], m[3]
                put(d, key, '')
            elif l.startswith(';') and key is None: pass
            elif l: check(key, 'text is in a verse', l); d[key] += squash(l[1:] if l[0] == '¶' and not d[key] else l)
    return d


def read_Text(out, books):
    d = {}
    for bk in books:
        a, b = lines_of(f'{out}/BOS-BibleWriter-{bk["BBB"]}.txt'), lines_of(f'{out}/Without_ByteOrderMarker/BOS-BibleWriter-{bk["BBB"]}.txt', 'utf-8')
        equal(b, a, 'the text with and without byte order mark')
        C, wanted = None, [k for k in texts([bk])[0]]
        for l in a:
            m = re.fullmatch(r'Chapter (\d+)', l)
            if m: C = m[1]; continue
            if C is None or not l: continue
            m = re.fullmatch(r'(\S+) (.*)', l)
            if not m or (bk['BBB'], C, m[1]) not in wanted: check(l.strip() == 'The end', 'a line of a verse', l); continue
            put(d, (bk['BBB'], C, m[1]), m[2])
    return d


def unmark_angle(t): return re.sub(r'[<>]', '', t)


def read_Drupal(out, books):
    d, part = {}, None
    for l in lines_of(f'{out}/Bible.txt', 'utf-8'):
        if l.startswith('*'): part = l; continue
        if part == '*Context' and l and not l.startswith('#'):
            f = l.split('|')
            equal(len(f), 5, 'fields', l)
            B = [b['BBB'] for b in books if G.loadedBibleBooksCodes.getDrupalBibleAbbreviation(b['BBB']).upper() == f[0]]
            equal(len(B), 1, 'book', l)
            put(d, (B[0], f[1], f[2]), unmark_angle(f[4]))
    return d


SS = dict(zip(ALL, 'Ge Ex Le Nu De Jos Jg Ru 1Sa 2Sa 1Ki 2Ki 1Ch 2Ch Ezr Ne Es Job Ps Pr Ec Song Isa Jer La Eze Da Ho Joe Am Ob Jon Mic Na Hab Zep Hag Zec Mal Mt Mr Lu Joh Ac Ro 1Co 2Co Ga Eph Php Col 1Th 2Th 1Ti 2Ti Tit Phm Heb Jas 1Pe 2Pe 1Jo 2Jo 3Jo Jude Re'.split()))


def read_SS(out, books):
    d, key = {}, None
    back = {v: k for k, v in SS.items()}
    for l in lines_of(f'{out}/Bible.txt'):
        m = re.fullmatch(r'\$\$ (\S+) (\d+):(\S+)', l)
        if m: key = back[m[1]], m[2], m[3]; put(d, key, '')
        elif l and key: d[key] += squash(l)
        elif l: check(l[0] == ';', 'line before the first verse', l)
    return d


def read_BCV(out, books):
    d = {}
    for bk in books:
        f = f'{out}/{bk["BBB"]}'
        for name in os.listdir(f):
            m = re.fullmatch(bk['BBB'] + r'_C(\d+)V(.+)\.txt', name)
            if not m or m[2] == '0': continue
            t, n = '', []
            for l in lines_of(f'{f}/{name}'):
                if l.startswith('\\v=<<v='): continue  # verse number of a heading before the verse
                x = re.match(r'\\([^ =<]+)(?:<<[^=]*)?(?:=(.*))?$', l)
                check(x or not l, 'line', l)
                if x and x[1] == 'v': n.append(x[2])
                if x and x[1] in ('v~', 'p~'): t += clean_usfm(x[2])
            equal(n, [m[2]], 'verse number in the file', name)
            put(d, (bk['BBB'], m[1], m[2]), t)
    return d


def clean_usfm(t):
    """Text without notes, figures, markers and word attributes."""
    t = re.sub(r'\\(f|fe|x|fig) .*?\\\1\*', '', t)
    t = re.sub(r'\|[^\\]*(?=\\)', '', t)
    return re.sub(r'\\\+?[a-z]+\d?(\*| )', '', t)


def literals(t):
    """The Python string literals at the start of a text."""
    out = []
    while True:
        m = re.match(r"""\s*('(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")""", t)
        if not m: return out
        out.append(ast.literal_eval(m[1])); t = t[m.end():]


def read_PseudoUSFM(out, books):
    d = {}
    files = sorted(os.listdir(out))
    for i, bk in enumerate(books):
        f = [x for x in files if x.endswith(f'_{bk["BBB"]}_BibleWriter.pSFM')]
        equal(len(f), 1, 'one file per book', files)
        C = V = None
        for l in lines_of(f'{out}/{f[0]}'):
            if not l: continue
            x = re.match(r' *(\S+) = (.*)', l)
            check(x, 'line', l)
            m, t = x[1], literals(x[2])
            if m == 'c': C, V = t[0], None
            elif m == 'v': V = t[0]; put(d, (bk['BBB'], C, V), '')
            elif m in ('v~', 'p~') and V: d[bk['BBB'], C, V] += squash(t[-1]) if t else ''
    return d


def tags_off(t):
    """theWord and MySword text without headings, notes, bridge numbers and other tags."""
    t = re.sub(r'<TS\d?>.*?<Ts>|<RF>.*?<Rf>|<RX[^>]*>|<sup>\([^)]*\)</sup>', '', t)
    return re.sub(r'<[^>]*>', '', t).replace('•', '')


def testament(books):
    b = [x['BBB'] for x in books]
    ot, nt = any(x in OT for x in b), any(x in NT for x in b)
    return (OT, '.ot') if ot and not nt else (NT, '.nt') if nt and not ot else (ALL, '.ont')


def read_theWord(out, books):
    which, ext = testament(books)
    ls = lines_of(f'{out}/xyz{ext}')
    d, i = {}, 0
    for B in which:
        for c, n in enumerate(KJV[B], 1):
            for v in range(1, n + 1):
                t = tags_off(ls[i]); i += 1
                if squash(t) not in ('', '(-)'): d[B, c, v] = squash(t)
    for l in ls[i:]: check(not l or re.match(r'[a-z.0-9]+=', l), 'after the verses there are only settings', l)
    return d


def table(path, query):
    con = sqlite3.connect('file:' + path + '?mode=ro', uri=True)
    try: return con.execute(query).fetchall()
    finally: con.close()


def read_MySword(out, books):
    d = {}
    for b, c, v, t in table(f'{out}/xyz.bbl.mybible', 'select Book, Chapter, Verse, Scripture from Bible'):
        put(d, (ALL[b - 1], c, v), tags_off(t))
    return {k: t for k, t in d.items() if t not in ('', '(-)')}


def rtf_off(t):
    t = re.sub(r'\\b\\i\\f0 .*?\\cf0\\b0\\i0(\\line ?|$)', '', t)
    return tags_off(re.sub(r'\\[a-z]+-?\d* ?|[{}]', '', t))


def read_ESword(out, books):
    d = {}
    for b, c, v, t in table(f'{out}/xyz.bblx', 'select Book, Chapter, Verse, Scripture from Bible'):
        put(d, (ALL[b - 1], c, v), rtf_off(t))
    return {k: t for k, t in d.items() if t not in ('', '(-)')}


MB = dict(zip([10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120, 130, 140, 150, 160, 190, 220, 230, 240, 250, 260, 290, 300, 310, 330, 340, 350, 360, 370, 380, 390, 400, 410, 420, 430, 440, 450, 460]
              + list(range(470, 740, 10)), ALL))


def read_MyBible(out, books):
    f = [x for x in os.listdir(out) if x.upper().endswith('.SQLITE3')]
    equal(len(f), 1, 'one module', f)
    d = {}
    for b, c, v, t in table(f'{out}/{f[0]}', 'select book_number, chapter, verse, text from verses'):
        t = re.sub(r'<t>.*?</t>|<n>.*?</n>|<f>.*?</f>', '', re.sub(r'<n>.*?</n>', '', t))
        put(d, (MB[b], c, v), tags_off(t))
    return {k: t for k, t in d.items() if t not in ('', '(-)')}


def read_EasyWorship(out, books):
    with open(f'{out}/none.ewb', 'rb') as f: b = f.read()
    d = {}
    for i, B in enumerate(ALL):
        at, n = struct.unpack('<QQ', b[88 + 224 * i + 208:88 + 224 * i + 224])
        t = zlib.decompress(b[at:at + n - 10]).decode()
        equal(struct.unpack('<I', b[at + n - 6:at + n - 2])[0], len(t.encode()), 'length of the book text', B)
        if B not in [x['BBB'] for x in books]: continue
        for l in t.split('\r\n\r\n'):
            if not l: continue
            m = re.fullmatch(r'(\d+):(\d+[a-z]?) (\(\d+-\d+\) )?(.*)', l)
            check(m, 'line', l)
            put(d, (B, m[1], m[2]), m[4])
    return {k: t for k, t in d.items() if t}


def plain_quotes(t):
    for a, b in (('“', '"'), ('”', '"'), ('‘', "'"), ('’', "'"), ('–', '--'), ('—', '--')): t = t.replace(a, b)
    return t


READ = dict(toEasyWorshipBible=read_EasyWorship, toVPL=read_VPL, toText=read_Text, toDrupalBible=read_Drupal, toSwordSearcher=read_SS, toBOSBCV=read_BCV, toPseudoUSFM=read_PseudoUSFM, totheWord=read_theWord,
            toMySword=read_MySword, toESword=read_ESword, toMyBible=read_MyBible)
BY_KJV = ('totheWord', 'toMySword', 'toESword', 'toMyBible')
RELOAD = ['totheWord', 'toMySword', 'toESword', 'toMyBible', 'toEasyWorshipBible', 'toVPL', 'toDrupalBible', 'toSwordSearcher']
RARE = ['po', 'pm', 'pmc', 'pmr', 'pi2', 'pi3', 'lh', 'lf', 'lim1', 'li3', 'pr', 'ph1', 'ph2', 'q4', 'qr', 'qm2', 'qd']
HEADS = ['s1', 's', 's2', 's1', 's3', 'r', 'd', 'qa', 'sr', 'mr']


@st.composite
def case(draw, export):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    pool = [b for b in g.BOOKS if b in ALL]
    B = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    kjv = export in BY_KJV
    books = [draw(g.book(BBB=b, max_chapters=3, vp=False, verse_heads=draw(st.booleans()), heads=HEADS, suffixes=not kjv and export != 'toDrupalBible')) for b in B]
    for bk in books:
        if draw(st.integers(0, 3)) == 0: bk['lines'].append(g.L('mte1', 'The end'))
        bk['lines'] = [l for l in bk['lines'] if l[0] not in ('sp', 'cd')]
        if draw(st.booleans()):
            for l in bk['lines']:
                if l[0] in g.PARAS and draw(st.integers(0, 2)) == 0: l[0] = draw(st.sampled_from(RARE))
        if export == 'toDrupalBible': # one part of a verse only and bridges from or to part of a verse
            for l in bk['lines']:
                if l[0] == 'v' and draw(st.integers(0, 3)) == 0:
                    a, dash, z = l[1].partition('-')
                    l[1] = a + draw(st.sampled_from(['', 'a', 'b'])) + ('-' + z + draw(st.sampled_from(['', 'a'])) if dash else '')
    return dict(books=books)


def same(got, want, *what):
    for k in sorted(set(got) | set(want), key=str):
        check(k in got, *what, 'lacks verse', k, want.get(k))
        check(k in want, *what, 'has a verse which is not in the Bible', k, got[k])
        equal(got[k], want[k], *what, 'verse', k)


def exported(b, export, folder):
    os.makedirs(folder)
    getattr(b, export)(folder)


def expected(export, books):
    own, kjv = texts(books)
    if export in BY_KJV: return {k: t for k, t in kjv.items() if t}
    if export == 'toEasyWorshipBible': return {(B, C, v): plain_quotes(t) for (B, C, V), t in own.items() if t for v in ([str(x) for x in numbers(V)] if '-' in V else [V])}
    if export == 'toDrupalBible': return {(B, C, re.match(r'\d+', V)[0]): t for (B, C, V), t in own.items() if t}
    return own


def run(export):
    def go(c, rec):
        books = c['books']
        own = texts(books)[0]
        rec.interesting(len(own) > 5)
        rec.label(f'{len(books)} books')
        with TempDir() as d, quiet():
            ld.write_usfm(d + '/src', books)
            b = ld.load_usfm(d + '/src')
            exported(b, export, d + '/out')
            if export in BY_KJV and (own.get(('JN3', '1', '15')) or own.get(('REV', '12', '18'))): raise Discard('verse which is not in the KJV')
            same(READ[export](d + '/out', books), expected(export, books), 'exported', export)
    return go


# ------------------------------------------------------------------ loading an exported module again

@st.composite
def reload_case(draw, export):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    pool = [b for b in g.BOOKS if b in ALL]
    B = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    if export in ('toEasyWorshipBible', 'toVPL', 'toDrupalBible', 'toSwordSearcher'):
        return dict(books=[draw(g.book(BBB=b, max_chapters=3, vp=False, suffixes=False, bridges=False)) for b in B])
    return dict(books=[draw(g.book(BBB=b, max_chapters=3, vp=False, suffixes=False, bridges=False, headings=False, notes=False, chars=False, figs=False, heads=[], paras=['p', 'm', 'nb'], lists=False,
                                   chapter_extras=False, mid_heads=False, empty_verses=False)) for b in B])


def reloaded(export, out, B=None):
    files = sorted(os.listdir(out))
    I = IMPORT[export]
    if export == 'toVPL': b = I(out + '/Forge', 'BOS-BibleWriter-' + FORGE.get(B, B))
    elif export in ('toDrupalBible', 'toSwordSearcher'):
        if export == 'toDrupalBible': os.rename(out + '/Bible.txt', out + '/Bible.bc')
        b = I(out, 'Bible')
    else: b = I(out, [f for f in files if not f.endswith('.zip')][0])
    if hasattr(b, 'preload'): b.preload()
    if export == 'toMyBible': b.loadBooks()
    else: b.load()
    return b


def loaded_texts(b):
    d = {}
    for B in b.getBookList():
        C, V = '-1', '0'
        for e in b[B]:
            m, t = e.getMarker(), e.getCleanText()
            if m == 'c': C, V = t, '0'
            elif m == 'v': V = t
            elif m in ('v~', 'p~') and V != '0':
                t = squash(t)
                if t: d[B, C, V] = d.get((B, C, V), '') + t
    return d


def reload(export):
    def go(c, rec):
        books = c['books']
        if not all(any(texts([bk])[0].values()) for bk in books): raise Discard('a book without text')
        rec.interesting(len(texts(books)[0]) > 5)
        with TempDir() as d, quiet():
            ld.write_usfm(d + '/src', books)
            b = ld.load_usfm(d + '/src')
            exported(b, export, d + '/out')
            if export == 'toVPL':
                got = {}
                for bk in books: got.update(loaded_texts(reloaded(export, d + '/out', bk['BBB'])))
            else: got = loaded_texts(reloaded(export, d + '/out'))
            want = {k: t for k, t in expected(export, books).items() if t}
            if export == 'toEasyWorshipBible': got = {k: t for k, t in got.items() if k[0] in [bk['BBB'] for bk in books]}  # the other books say that they are missing
            if export == 'totheWord': got = {k: t for k, t in got.items() if t != '(-)'}  # what a missing verse is exported as
            if export == 'toESword': got = {k: re.sub(r'<TS\d>.*?<Ts>', '', t) for k, t in got.items()}  # book title
            same({(B, str(C), str(V)): t for (B, C, V), t in got.items()}, {(B, str(C), str(V)): t for (B, C, V), t in want.items()}, 'loaded again from', export)
    return go


def sub(name, quick=110):
    return Sub(name, lambda: case(name), run(name), quick=quick, rule='more than five verses')


def probe_split():
    lost = []
    for export in BY_KJV:
        books = [dict(BBB='MAT', lines=[g.L('id', 'MAT'), g.L('c', '', '1'), g.L('p')] + [g.L('v', t, n) for n, t in (('1', 'One'), ('2a', 'Half'), ('2b', 'Other'), ('3', 'Three'))])]
        with TempDir() as d, quiet():
            ld.write_usfm(d + '/src', books)
            exported(ld.load_usfm(d + '/src'), export, d + '/out')
            got = READ[export](d + '/out', books)
        if 'Other' not in ''.join(got.values()): lost.append(export)
    equal(lost, [], 'exports which lost the text of verse 2b')


PROBES = [Probe('split-verses', 'verses 2a and 2b: theWord, MySword, e-Sword and MyBible modules hold the text of 2a only, that of 2b is lost', probe_split)]
SUBS = [sub(x) for x in READ] + [Sub('reload-' + x, lambda x=x: reload_case(x), reload(x), quick=45, rule='more than five verses') for x in RELOAD]
