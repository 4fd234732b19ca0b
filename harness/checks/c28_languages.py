"""C28: Greek, Hebrew and old-spelling helpers preserve letters as documented"""
import types
import unicodedata

from hypothesis import strategies as st

from core import Sub, check, equal, quiet, short, sut

PROPERTY = 'C28'


def setup():
    global G, H, Gk, Old, Euro
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    from BibleOrgSys.OriginalLanguages import Hebrew as h, Greek as g
    from BibleOrgSys.Reference import OldBiblicalEnglish as o, EuropeanToEnglish as e
    H, Gk, Old, Euro = h, g, o, e


# -------------------------------------------------------------------------------------- Hebrew
# The classes of marks are taken from the Unicode standard, not from the module

METEG = '\u05bd'
CANTILLATION = {chr(c) for c in range(0x591, 0x5b0)}
VOWELS = {chr(c) for c in range(0x5b0, 0x5bc)}
OTHER = {'\u05bc', '\u05bf', '\u05c0', '\u05c1', '\u05c2', '\u05c4', '\u05c5', '\u05c7'}
SINSHIN = {'\u05c1', '\u05c2'}
LETTERS = [chr(c) for c in range(0x5d0, 0x5eb)]
FINALS = {c for c in LETTERS if 'FINAL' in unicodedata.name(c)}
PATAH_SEGOL = {'\u05b7', '\u05b6'}


def hebrew_text():
    ch = st.one_of(st.sampled_from(LETTERS), st.sampled_from(LETTERS), st.sampled_from(sorted(CANTILLATION)), st.sampled_from(sorted(VOWELS)),
                   st.sampled_from(sorted(OTHER)), st.sampled_from((METEG, METEG, '\u05b7', '\u05b6', '\u05be', '\u05c3', ' ', ' ', '\n', 'a', '1', '/')))
    return st.lists(ch, max_size=14).map(''.join)


def drop(text, marks): return ''.join(c for c in text if c not in marks)


def without_meteg(text, vowel):
    """A meteg directly after a patah or segol is a vowel point, any other is a cantillation mark (siluq)"""
    result, after = [], False
    for c in text:
        if c == METEG:
            if vowel:
                if after: continue
            else:
                if not after: continue
                after = False  # a second meteg isn't directly after the vowel
            result.append(c)
        else:
            result.append(c)
            after = c in PATAH_SEGOL
    return ''.join(result)


def run_hebrew(text, rec):
    rec.interesting(bool(set(text) & CANTILLATION) and bool(set(text) & VOWELS))
    rec.label('meteg', METEG in text)
    h = H.Hebrew(text)
    with quiet():
        for name, got, want in (
                ('removeAllMetegOrSiluq', h.removeAllMetegOrSiluq(text), drop(text, METEG)),
                ('removeCantillationMarks', h.removeCantillationMarks(text), drop(text, CANTILLATION)),
                ('removeCantillationMarks with meteg', h.removeCantillationMarks(text, removeMetegOrSiluq=True), drop(without_meteg(text, False), CANTILLATION)),
                ('removeVowelPointing', h.removeVowelPointing(text), drop(text, VOWELS)),
                ('removeVowelPointing with meteg', h.removeVowelPointing(text, removeMetegOrSiluq=True), drop(without_meteg(text, True), VOWELS)),
                ('removeOtherMarks', h.removeOtherMarks(text), drop(text, OTHER | {METEG})),
                ('removeOtherMarks but sin and shin dots', h.removeOtherMarks(text, removeSinShinDots=False), drop(text, (OTHER - SINSHIN) | {METEG}))):
            equal(got, want, f"Hebrew.{name} of {text!r}")
        equal((h.originalText, h.currentText), (text, text), 'Hebrew: the object changed by working on another text')


def hebrew_ops():
    op = st.sampled_from(('meteg', 'cant', 'cantM', 'vowel', 'vowelM', 'other', 'otherKeep', 'translit', 'verify'))
    return st.fixed_dictionaries({'text': hebrew_text(), 'ops': st.lists(op, min_size=1, max_size=5)})


def run_hebrew_ops(case, rec):
    """The same operations on the text held by the object, one after the other"""
    rec.interesting(len(set(case['ops'])) >= 2)
    h, text = H.Hebrew(case['text']), case['text']
    for op in case['ops']:
        with quiet():
            if op == 'meteg': text, got = drop(text, METEG), h.removeAllMetegOrSiluq()
            elif op == 'cant': text, got = drop(text, CANTILLATION), h.removeCantillationMarks()
            elif op == 'cantM': text, got = drop(without_meteg(text, False), CANTILLATION), h.removeCantillationMarks(removeMetegOrSiluq=True)
            elif op == 'vowel': text, got = drop(text, VOWELS), h.removeVowelPointing()
            elif op == 'vowelM': text, got = drop(without_meteg(text, True), VOWELS), h.removeVowelPointing(removeMetegOrSiluq=True)
            elif op == 'other': text, got = drop(text, OTHER | {METEG}), h.removeOtherMarks()
            elif op == 'otherKeep': text, got = drop(text, (OTHER - SINSHIN) | {METEG}), h.removeOtherMarks(removeSinShinDots=False)
            elif op == 'translit':
                equal(h.transliterate(), h.transliterate(text), f"Hebrew.transliterate of its own text {text!r}")
                got = text
            else:
                equal(h.verifyConsonantsOnly(), consonant_errors(text), f"Hebrew.verifyConsonantsOnly of its own text {text!r}")
                got = text
        equal((got, h.currentText, h.originalText), (text, text, case['text']), f"Hebrew: {op} of {case['ops']} on {case['text']!r}")
    check(case['text'] in str(h) or repr(case['text']) in str(h), 'Hebrew: str() without the original text')


def consonant_errors(text):
    ok = {' ', '\u05be'}
    for i, c in enumerate(text):
        if c not in LETTERS and c not in ok: return True
        if c in FINALS and i < len(text) - 1 and text[i + 1] not in ok: return True
    return False


def run_consonants(text, rec):
    rec.interesting(len(text) > 2)
    with quiet(): got = H.Hebrew('').verifyConsonantsOnly(text)
    equal(got, consonant_errors(text), f"Hebrew.verifyConsonantsOnly({text!r}) (True tells of an error)")


def consonant_text():
    return st.lists(st.sampled_from(LETTERS + [' ', ' ', '\u05be', '\u05be'] + (['\u05b8', 'x', '\n'])), max_size=6).map(''.join) | \
        st.lists(st.lists(st.sampled_from([c for c in LETTERS if c not in FINALS]), max_size=3).map(''.join).flatmap(
            lambda w: st.sampled_from([''] + sorted(FINALS)).map(lambda f: w + f)), max_size=3).flatmap(lambda ws: st.sampled_from((' ', '\u05be')).map(lambda s: s.join(ws)))


def pointed_word():
    syllable = st.builds(lambda c, d, v: (c + ('\u05c1' if c == 'ש' else '') if not d else 'ש\u05c2' if c == 'ש' else c + '\u05bc' if d == 1 and c != 'א' else c) + v,
                         st.sampled_from(LETTERS), st.integers(0, 2), st.sampled_from(('', '\u05b0', '\u05b4', '\u05b5', '\u05b6', '\u05b7', '\u05b8', '\u05b9', '\u05bb')))
    return st.lists(syllable, min_size=1, max_size=4).map(''.join)


def translit_case():
    return st.fixed_dictionaries({'words': st.lists(pointed_word(), min_size=1, max_size=3), 'scheme': st.sampled_from((None, 'Default', 'Standard', 'Names')), 'sep': st.sampled_from((' ', '\u05be', '/'))})


NORMAL = {f: chr(ord(f) + 1) for f in FINALS}  # in Unicode every final form is directly before its normal form


def run_translit(case, rec):
    h = H.Hebrew('x')
    text = case['sep'].join(case['words'])
    rec.interesting(len(case['words']) > 1)
    rec.label('final letters', bool(set(text) & FINALS))
    got = h.transliterate(text, case['scheme'])
    check(not any('HEBREW' in unicodedata.name(c, '') for c in got), f"transliterate({text!r}, {case['scheme']}) left Hebrew characters: {got!r}")
    # word by word
    sep = {'\u05be': '-'}.get(case['sep'], case['sep'])
    equal(got, sep.join(h.transliterate(w, case['scheme']) for w in case['words']), f"transliterate({text!r}) isn't that of its words")
    # a final form sounds as the normal form of the letter
    normal = ''.join(NORMAL.get(c, c) for c in text)
    doubled = any(a in FINALS and b == '\u05bc' for a, b in zip(text, text[1:]))  # the schemes differ on these
    if not doubled: equal(got, h.transliterate(normal, case['scheme']), f"transliterate({text!r}, {case['scheme']}): final forms differ from normal ones")
    if case['scheme'] is None: equal(got, h.transliterate(text, 'Default'), 'transliterate without scheme is not the default one')
    equal(h.currentText, 'x', 'transliterate changed the object')


# --------------------------------------------------------------------------------------- Greek

def greek_letters():
    return [chr(c) for c in list(range(0x370, 0x400)) + list(range(0x1f00, 0x2000)) if unicodedata.category(chr(c)) in ('Ll', 'Lu', 'Lt')]


def run_greek_letter(c, rec):
    d = unicodedata.normalize('NFD', c)
    lower = unicodedata.category(c) == 'Ll'
    rec.interesting(len(d) > 1 and lower)
    got = Gk.Greek('').removeAccents(c)
    if len(d) == 1: equal(got, c, f"Greek.removeAccents of the unaccented {c!r}")
    elif lower and not set(d[1:]) & {'\u0304', '\u0306'}: equal(got, d[0], f"Greek.removeAccents({c!r} {unicodedata.name(c)})")
    else: check(got in (c, d[0]), f"Greek.removeAccents({c!r} {unicodedata.name(c)}) = {got!r}")


def greek_text():
    return st.lists(st.one_of(st.sampled_from('άὰἀἁᾳἄᾶέὲἐήὴῆῃίὶῖϊΐόὸὀώὼῶᾧύὺὐῦϋῥ'), st.sampled_from('αβγδεζηθικλμνξοπρσςτυφχψωΑΒΓΘΛ'), st.sampled_from(' ,.·;\n˚“’1a᾽')), max_size=14).map(''.join)


def run_greek(text, rec):
    g = Gk.Greek(text)
    got = g.removeAccents()
    want = ''.join('' if c == '᾽' else unicodedata.normalize('NFD', c)[0] for c in text)
    rec.interesting(want != text)
    equal(got, want, f"Greek.removeAccents of {text!r}")
    equal(g.removeAccents(text), want, f"Greek.removeAccents given {text!r}")
    equal(g.removeAccents(want), want, 'Greek.removeAccents is not stable')
    equal((g.originalText, g.removeOtherMarks(text)), (text, text), 'Greek: original text, and other marks')


# --------------------------------------------------------------------------- old English spelling

def reference_modern(text, options):
    for olds, new in Old.ENGLISH_WORD_MAP:
        if not options and '/' in new.replace('</', ''): new = new.partition('/')[2].replace('_or_', '/')
        for old in olds:
            text = new.join(text.split(old))
            left, right = new[0] == ' ', new[-1] == ' '
            if left: text = ('>' + new[1:]).join(text.split('>' + old[1:]))
            if right: text = (new[:-1] + '<').join(text.split(old[:-1] + '<'))
            if left and right: text = ('>' + new[1:-1] + '<').join(text.split('>' + old[1:-1] + '<'))
    return text


def word_list(table):
    return table


MARK = '¶'  # in no entry of the tables


@st.composite
def old_case(draw):
    table = Old.ENGLISH_WORD_MAP
    chunks = []
    for _ in range(draw(st.integers(1, 4))):
        words = []
        for _ in range(draw(st.integers(1, 4))):
            k = draw(st.sampled_from('oooonp'))
            if k == 'o':
                olds, new = table[draw(st.integers(0, len(table) - 1))]
                words.append(olds[draw(st.integers(0, len(olds) - 1))].strip())
            elif k == 'n': words.append(table[draw(st.integers(0, len(table) - 1))][1].strip().split('/')[0])
            else: words.append(draw(st.sampled_from(('the', 'and', 'Lorde', 'vnto', 'man,', 'king.', 'he', 'I', 'saide:', '12'))))
        text = ' '.join(words)
        form = draw(st.sampled_from(('plain', 'plain', 'span', 'words')))
        if form == 'span': text = f'<span>{text}</span>'
        elif form == 'words': text = ' '.join(f'<b>{w}</b>' for w in words)
        chunks.append(draw(st.sampled_from(('', ' '))) + text + draw(st.sampled_from(('', ' ', '.'))))
    return {'chunks': chunks, 'options': draw(st.booleans())}


def run_old(case, rec):
    fn = Old.moderniseEnglishWords
    o = case['options']
    parts = [fn(c, o) for c in case['chunks']]
    rec.interesting(parts != case['chunks'])
    for c, p in zip(case['chunks'], parts):
        equal(p, reference_modern(c, o), f"moderniseEnglishWords({c!r}, {o}): not what the table of old spellings says")
        equal(p.count('<'), c.count('<'), f"moderniseEnglishWords({c!r}): tags changed in {p!r}")
        if o is False: equal(fn(c), p, 'moderniseEnglishWords: the default is without options')
    equal(fn(MARK.join(case['chunks']), o), MARK.join(parts), f"moderniseEnglishWords of several pieces {case['chunks']} differs from that of each")


def run_other_text(text, rec):
    """A text with none of the old spellings stays as it is"""
    for olds, new in Old.ENGLISH_WORD_MAP:
        for old in olds:
            if old.strip() in text: return
    rec.interesting(len(text) > 5)
    equal(Old.moderniseEnglishWords(text), text, 'moderniseEnglishWords of a text without old spellings')


def other_text():
    return st.lists(st.one_of(st.sampled_from(('QZX', '本', '12', 'Zz', '<p>', '.', ',', ' ', '/', 'Ω')), st.text(st.sampled_from('QXZ qxz<>/'), max_size=4)), max_size=6).map(''.join)


def reference_translate(text, table, german):
    if german: text = text.replace('»', '‘').replace('«', '’')
    for old, new in table:
        text = new.join(text.split(old))
        if old[0] == ' ':
            if german and text.startswith(old[1:]): text = new[1:] + text[len(old) - 1:]
            text = ('>' + new[1:]).join(text.split('>' + old[1:]))
    return text


@st.composite
def euro_case(draw):
    lang = draw(st.sampled_from(('German', 'Latin')))
    table = Euro.GERMAN_WORD_MAP if lang == 'German' else Euro.LATIN_WORD_MAP
    words = []
    for _ in range(draw(st.integers(1, 5))):
        if draw(st.integers(0, 3)): words.append(table[draw(st.integers(0, len(table) - 1))][0].strip())
        else: words.append(draw(st.sampled_from(('»und«', 'et', 'x', 'Gott,', 'Deus.', '12', 'die', 'qui'))))
    text = ' '.join(words)
    if draw(st.booleans()): text = f'<span>{text}</span>'
    return {'lang': lang, 'text': draw(st.sampled_from(('', ' '))) + text + draw(st.sampled_from(('', ' ', '.')))}


def run_euro(case, rec):
    german = case['lang'] == 'German'
    fn, table = (Euro.translateGerman, Euro.GERMAN_WORD_MAP) if german else (Euro.translateLatin, Euro.LATIN_WORD_MAP)
    got = fn(case['text'])
    want = reference_translate(case['text'], table, german)
    rec.interesting(want != case['text'])
    # every j is written as y at the end, except in certain English words
    same = lambda s: s.replace('j', 'y').replace('J', 'Y')
    equal(same(got), same(want), f"translate{case['lang']}({case['text']!r}): not what the table says")
    for c, y in (('conjure', 'conyure'), ('deject', 'deyect'), ('joy', 'yoy'), ('jail', 'yail'), ('judge', 'yudge'), ('just', 'yust')) if german else (('jealous', 'yealous'), ('journey', 'yourney'), ('judge', 'yudge'), ('Judge', 'Yudge'), ('project', 'proyect'), ('reject', 'reyect'), ('majesty', 'mayesty')):
        if c in want: check(y not in got and c in got, f"translate{case['lang']}({case['text']!r}): {c} is written wrongly in {got!r}")


SUBS = [
    Sub('hebrew', hebrew_text, run_hebrew, 5000, rule='has cantillation marks and vowel points'),
    Sub('hebrew-sequences', hebrew_ops, run_hebrew_ops, 4000, rule='at least two different operations'),
    Sub('hebrew-consonants', consonant_text, run_consonants, 2500, rule='at least three characters'),
    Sub('hebrew-transliteration', translit_case, run_translit, 3000, rule='several words'),
    Sub('greek', greek_text, run_greek, 3000, rule='has accents'),
    Sub('greek-letters', None, run_greek_letter, 1, rule='an accented lowercase letter', exhaustive=greek_letters),
    Sub('old-english', old_case, run_old, 700, rule='something was modernised'),
    Sub('no-old-english', other_text, run_other_text, 400, rule='more than five characters'),
    Sub('german-latin', euro_case, run_euro, 1500, rule='something was translated'),
]
