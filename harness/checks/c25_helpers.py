"""C25: general text and file helpers do exactly what they document for any input"""
import io
import os
import random
import sys
import types
import unicodedata
from pathlib import Path
from xml.etree import ElementTree as ET

from hypothesis import strategies as st

from core import Sub, TempDir, check, equal, quiet, short, sut

PROPERTY = 'C25'


def setup():
    global G
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)


ANY = st.characters(blacklist_categories=('Cs',))
XMLCHAR = st.one_of(st.sampled_from('ab <>&"\';é本😀'), st.characters(min_codepoint=0x20, max_codepoint=0xd7ff, blacklist_characters='\x7f'))

# --------------------------------------------------------------------------------- cleaning text

UNSAFE = {'/': '-', '\\': '_BACKSLASH_', ':': '_COLON_', ';': '_SEMICOLON_', '#': '_HASH_', '?': '_QUESTIONMARK_',
          '*': '_ASTERISK_', '<': '_LT_', '>': '_GT_'}


def text_case():
    return st.one_of(st.text(st.sampled_from('ab/\\:;#?*<>&"\' ._-'), max_size=12), st.text(ANY, max_size=12),
                     st.text(st.sampled_from('aeÀÉîÆøßİıžŠçñДé&<'), max_size=12))


def run_clean(s, rec):
    rec.interesting(len(set(s)) >= 3)
    name = G.makeSafeFilename(s)
    equal(name, ''.join(UNSAFE.get(c, c) for c in s), f"makeSafeFilename({s!r})")
    equal(G.makeSafeFilename(name), name, f"makeSafeFilename is not stable on {name!r}")
    equal(G.makeSafeString(s), ''.join(UNSAFE[c] if c in '<>' else c for c in s), f"makeSafeString({s!r})")
    safe = G.makeSafeXML(s)
    check(not set(safe) & set('<>"'), f"makeSafeXML({s!r}) left special characters in {safe!r}")
    equal(safe.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&amp;', '&'), s, f"makeSafeXML({s!r}) taken back")
    plain = G.removeAccents(s)
    equal(plain, ''.join(G.removeAccents(c) for c in s), f"removeAccents({s!r}) is not made character by character")
    equal(G.removeAccents(plain), plain, f"removeAccents({s!r}) still has accents")
    for c in s:
        r = G.removeAccents(c)
        if r == c: continue
        check(r.isascii() and r.isalpha() and r.isupper() == c.isupper(), f"removeAccents({c!r}) = {r!r}")
        base = unicodedata.normalize('NFD', c)
        if len(base) > 1: equal(r, base[0], f"removeAccents({c!r})")
    if all(c in COMMON_ACCENTS or c.isascii() for c in s): check(plain.isascii(), f"removeAccents({s!r}) = {plain!r}")


COMMON_ACCENTS = set('ÀÁÂÃÄÅÇÈÉÊËÌÍÎÏÑÒÓÔÕÖØÙÚÛÜÝàáâãäåçèéêëìíîïñòóôõöøùúûüýÿÆæ')


def xml_case():
    return st.fixed_dictionaries({'text': st.text(XMLCHAR, max_size=12), 'attr': st.text(XMLCHAR, max_size=8)})


def run_xml(case, rec):
    """makeSafeXML in a document parses back to exactly the text"""
    rec.interesting(bool(set(case['text'] + case['attr']) & set('<>&"')))
    doc = f'<a b="{G.makeSafeXML(case["attr"])}">{G.makeSafeXML(case["text"])}</a>'
    try: e = ET.fromstring(doc)
    except ET.ParseError as err: check(False, f"makeSafeXML: {doc!r} is not well-formed: {err}")
    equal(e.text or '', case['text'], 'makeSafeXML: element text parsed back')
    equal(e.get('b'), case['attr'], 'makeSafeXML: attribute parsed back')


def _exhaustive_accents():
    return [chr(c) for c in range(0x80, 0x250)] + ['\u1e00', '\u1ea1']


def run_accent(c, rec):
    rec.interesting(G.removeAccents(c) != c)
    run_clean(c, types.SimpleNamespace(interesting=lambda x: None, label=lambda *a: None))
    # A letter and its other case lose their accents together
    other = c.swapcase()
    if len(other) == 1 and other != c and (c in COMMON_ACCENTS or G.removeAccents(c) != c) and c not in 'ÿ':
        if G.removeAccents(other) != other or c in COMMON_ACCENTS and other in COMMON_ACCENTS:
            equal(G.removeAccents(other), G.removeAccents(c).swapcase(), f"removeAccents({other!r})")


# ------------------------------------------------------------------------------ punctuation ends

@st.composite
def word_case(draw):
    lead, trail = G.LEADING_WORD_PUNCT_CHARS, G.TRAILING_WORD_PUNCT_CHARS
    pairs = list(G.MATCHING_OPENING_CHARACTERS.items())
    word = draw(st.text(st.sampled_from('abcÉ本' + 'abc' + "-'’(.)"), min_size=0, max_size=5))
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from('ltp'))
        if k == 'l': word = draw(st.sampled_from(lead)) + word
        elif k == 't': word = word + draw(st.sampled_from(trail))
        else:
            a, b = draw(st.sampled_from(pairs))
            word = a + word + b
    return word


def run_strip(word, rec):
    lead, trail, match = G.LEADING_WORD_PUNCT_CHARS, G.TRAILING_WORD_PUNCT_CHARS, G.MATCHING_CHARACTERS
    got = G.stripWordEndsPunctuation(word)
    rec.interesting(got != word and bool(got))
    rec.label('kept bracket', bool(got) and (got[0] in lead or got[-1] in trail))
    # what's removed is only punctuation, from the ends
    allp = set(lead) | set(trail)
    found = False
    at = word.find(got)
    while at != -1 and not found:
        if set(word[:at]) <= set(lead) and set(word[at + len(got):]) <= set(trail): found = True
        elif set(word[:at] + word[at + len(got):]) <= allp and not got: found = True
        at = word.find(got, at + 1)
    check(found, f"stripWordEndsPunctuation({word!r}) = {got!r}: more than leading and trailing punctuation was removed")
    if got:
        check(got[0] not in lead or match.get(got[0], '\0') in got, f"stripWordEndsPunctuation({word!r}) = {got!r}: leading punctuation is left")
        check(got[-1] not in trail or match.get(got[-1], '\0') in got, f"stripWordEndsPunctuation({word!r}) = {got!r}: trailing punctuation is left")
        for a, b in G.MATCHING_OPENING_CHARACTERS.items():
            check(not (got.startswith(a) and got.endswith(b) and a not in got[1:-1] and b not in got[1:-1]),
                  f"stripWordEndsPunctuation({word!r}) = {got!r}: a pair around the whole word is left")
    equal(G.stripWordEndsPunctuation(got), got, f"stripWordEndsPunctuation is not stable on {got!r} (from {word!r})")
    if word and word[0] not in lead and word[-1] not in trail: equal(got, word, f"stripWordEndsPunctuation({word!r})")
    core = word.strip(lead + trail)
    if core and not set(core) & allp:
        # plain words only lose the punctuation: nothing else is left, except for brackets that are paired inside
        check(core in got, f"stripWordEndsPunctuation({word!r}) = {got!r}: part of the word is lost")


def strip_examples():
    return ['“The people who are carrying … {the stones}', '{the stones}', '‘Lord,’', '‘my Lord,’', '‘You will & put & to the test.’”', 'you(pl)', '(amen.),']


EXAMPLES = {'“The people who are carrying … {the stones}': 'The people who are carrying … {the stones}', '{the stones}': 'the stones', '‘Lord,’': 'Lord',
            '‘my Lord,’': 'my Lord', '‘You will & put & to the test.’”': 'You will & put & to the test', 'you(pl)': 'you(pl)', '(amen.),': 'amen'}


def run_strip_example(word, rec):
    rec.interesting(True)
    equal(G.stripWordEndsPunctuation(word), EXAMPLES[word], f"stripWordEndsPunctuation({word!r}) (documented example)")


@st.composite
def endings_case(draw):
    parts = draw(st.lists(st.sampled_from(('ab', 'a', 'b', 'ing', '.', 'é', 'ed', '')), max_size=5))
    return {'text': ''.join(parts), 'endings': draw(st.lists(st.sampled_from(('a', 'b', 'ab', 'ing', '.', 'ed', 'é', 'x', '')), max_size=4))}


def run_endings(case, rec):
    text = case['text']
    for e in case['endings']:
        if e and text.endswith(e): text = text[:len(text) - len(e)]
    rec.interesting(text != case['text'])
    equal(G.removeStringEndings(case['text'], list(case['endings'])), text, f"removeStringEndings({case['text']!r}, {case['endings']})")


# ------------------------------------------------------------------------- string adjustments

@st.composite
def adjust_case(draw):
    """A text as pieces, each kept or replaced, with pure inserts between them"""
    pieces = []
    for _ in range(draw(st.integers(0, 6))):
        t = draw(st.text(st.sampled_from('ab é本.'), min_size=1, max_size=5))
        r = draw(st.one_of(st.none(), st.text(st.sampled_from('xyz ab'), max_size=6)))
        pieces.append([t, r, draw(st.one_of(st.just(''), st.just(''), st.text(st.sampled_from('+-ab'), min_size=1, max_size=3)))])
    return {'pieces': pieces, 'seed': draw(st.integers(0, 99))}


def run_adjust(case, rec):
    text, want, adj = '', '', []
    for t, r, ins in case['pieces']:
        if ins: adj.append((len(text), '', ins))
        if r is not None: adj.append((len(text), t, r))
        text += t
        want += ins + (t if r is None else r)
    random.Random(case['seed']).shuffle(adj)
    rec.interesting(len(adj) >= 2)
    before = list(adj)
    equal(G.applyStringAdjustments(text, adj), want, f"applyStringAdjustments({text!r}, {adj})")
    equal(adj, before, 'applyStringAdjustments changed its list of adjustments')


# ------------------------------------------------------------------------------- XML helpers

NAME = st.sampled_from(('a', 'bk', 'Verse', 'c-1', 'x_y'))
SAFE = st.text(st.sampled_from('ab é本.;1'), max_size=6)
BLANKS = st.sampled_from((None, None, '', ' ', '\n  ', '\t'))


@st.composite
def element(draw, depth=2, tail=True):
    one = st.one_of(BLANKS, SAFE)
    e = {'tag': draw(NAME), 'attrs': draw(st.dictionaries(NAME, SAFE, max_size=2)), 'text': draw(one), 'tail': draw(one) if tail else None, 'kids': []}
    if depth:
        for _ in range(draw(st.sampled_from((0, 0, 1, 2, 3)))): e['kids'].append(draw(element(depth - 1)))
    return e


def build(e):
    x = ET.Element(e['tag'], e['attrs'])
    x.text, x.tail = e['text'], e['tail']
    for k in e['kids']: x.append(build(k))
    return x


def tree(x): return (x.tag, dict(x.attrib), x.text or '', [(tree(k), k.tail or '') for k in x])


def flat_tail(t):
    t = (t or '').replace('\n', '')
    while '  ' in t: t = t.replace('  ', ' ')
    return t


def normal(x): return (x.tag, dict(x.attrib), x.text or '', [(normal(k), flat_tail(k.tail)) for k in x])


def run_xmlhelp(e, rec):
    x = build(e)
    rec.interesting(bool(e['kids']) and bool(e['attrs']))
    nonblank = lambda s: bool(s and s.strip())
    for fn, want in ((G.checkXMLNoAttributes, len(e['attrs'])), (G.checkXMLNoText, int(nonblank(e['text']))), (G.checkXMLNoTail, int(nonblank(e['tail']))),
                     (G.checkXMLNoSubelements, len(e['kids'])),
                     (G.checkXMLNoSubelementsWithText, len(e['kids']) if nonblank(e['text']) or nonblank(e['tail']) else 0)):
        errors = []
        with quiet(): fn(x, 'somewhere', 'abc', errors)
        equal(len(errors), want, f"{fn.__name__}: number of warnings {errors} for {short(ET.tostring(x, 'unicode'))}")
        check(all('somewhere' in w and 'abc' in w for w in errors), f"{fn.__name__}: the warnings don't tell where: {errors}")
        with quiet(): fn(x, 'somewhere')  # without list
        G.strictCheckingFlag = True
        try:
            with quiet(): fn(x, 'somewhere')
            raised = False
        except G.XMLError: raised = True
        finally: G.strictCheckingFlag = False
        equal(raised, bool(want), f"{fn.__name__}: refused in strict mode")
    for s in (e['text'], e['tail']): equal(bool(G.isBlank(s)), not nonblank(s), f"isBlank({s!r})")
    top = build({**e, 'attrs': {}})
    flat = G.getFlattenedXML(top, 'here')
    try: again = ET.fromstring(f"<{top.tag}>{flat}</{top.tag}>")
    except ET.ParseError as err: check(False, f"getFlattenedXML: {flat!r} is not well-formed: {err}")
    want = normal(top)
    got = tree(again)
    if not top.tail: equal(got, want, f"getFlattenedXML of {short(ET.tostring(top, 'unicode'))} gave {flat!r}")
    else: equal(''.join(again.itertext()), ''.join(_texts(top)) + flat_tail(top.tail), f"getFlattenedXML of {short(ET.tostring(top, 'unicode'))}: text")
    described = G.elementStr(x)
    for y in x.iter():
        check(repr(y.tag) in described, f"elementStr: no {y.tag} in {described}")
        for k, v in y.attrib.items(): check(f"{k}={v!r}" in described, f"elementStr: no attribute {k} in {described}")
        if y.text: check(f"Text={y.text!r}" in described, f"elementStr: no text {y.text!r} in {described}")
        if y.tail: check(f"Tail={y.tail!r}" in described, f"elementStr: no tail {y.tail!r} in {described}")


def _texts(x):
    if x.text: yield x.text
    for k in x:
        yield from _texts(k)
        yield flat_tail(k.tail)


# ---------------------------------------------------------------------------- comparing files

@st.composite
def compare_case(draw):
    line = st.one_of(st.sampled_from(('', '\\s Heading', '\\s1 Heading', '\\q', '\\q1', '\\v 1 Text', '\\v 1 Text ', '\\p', '\\mt Title', '\\li1 x', '\\li x', '\\c 1', '  <verse eid="1"/>',
                                      '\\v', '\\q2 a', '\\q2  a', '\\pi', '\\pi1', '\\ms', '\\imt A', '\\imt1 A', '\\p \\q ')), st.text(st.sampled_from('ab é\\'), max_size=5))
    a = draw(st.lists(line, max_size=8))
    b = list(a)
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from('dibrns'))
        i = draw(st.integers(0, len(b)))
        if k == 'd' and i < len(b): del b[i]
        elif k == 'i': b.insert(i, draw(line))
        elif k == 'b': b.insert(i, '')
        elif k == 'r' and i < len(b): b[i] = draw(line)
        elif k == 'n' and i < len(b): b[i] = b[i].replace('1 ', ' ') if '\\s1' in b[i] or '\\li1' in b[i] or '\\imt1' in b[i] else b[i].replace('\\s ', '\\s1 ')
        elif k == 's' and i < len(b): b[i] = b[i] + ' '
    o = lambda: {'bom': draw(st.booleans()), 'eol': draw(st.sampled_from(('\n', '\r\n'))), 'end': draw(st.booleans())}
    return {'a': a, 'b': b, 'oa': o(), 'ob': o(), 'exit': draw(st.sampled_from((10, 0, 1))), 'folders': draw(st.booleans())}


NUMBERED = ('mt', 'mte', 'imt', 'imte', 'is', 'iq', 'io', 'ili', 'ms', 's', 'li', 'q', 'pi', 'ph')


def usfm_form(line):
    line = line.rstrip(' ')
    for m in NUMBERED:
        if line == '\\' + m: line += '1'
        line = line.replace(f'\\{m} ', f'\\{m}1 ')
    return line


def write(path, lines, o):
    data = o['eol'].join(lines) + (o['eol'] if o['end'] else '')
    path.write_bytes((('\ufeff' if o['bom'] else '') + data).encode())


def run_compare(case, rec):
    strip = lambda ls: [l for l in ls if l]
    same = strip(case['a']) == strip(case['b'])
    sameU = [usfm_form(l) for l in strip(case['a'])] == [usfm_form(l) for l in strip(case['b'])]
    rec.interesting(len(case['a']) >= 2 and case['a'] != case['b'])
    rec.label('equal', same)
    rec.label('equal USFM only', sameU and not same)
    with TempDir() as tmp, quiet():
        t = Path(tmp)
        (t / 'x').mkdir()
        write(t / 'one', case['a'], case['oa'])
        write(t / 'x' / 'two', case['b'], case['ob'])
        args = ('one', 'two', t, t / 'x') if case['folders'] else (t / 'one', t / 'x' / 'two')
        back = ('two', 'one', t / 'x', t) if case['folders'] else (t / 'x' / 'two', t / 'one')
        for fn, want in ((G.fileCompare, same), (G.fileCompareUSFM, sameU)):
            for order in (args, back):
                equal(fn(*order, printFlag=False, exitCount=case['exit']), want, f"{fn.__name__} of {case['a']} and {case['b']}")
            equal(fn(*args), want, f"{fn.__name__} with printing of {case['a']} and {case['b']}")
            equal(fn(t / 'one', t / 'none'), None, f"{fn.__name__} with a missing file")
            equal(fn(t / 'none', t / 'one'), None, f"{fn.__name__} with a missing file")
            equal(fn(t / 'one', t / 'one'), True, f"{fn.__name__} of a file with itself")


@st.composite
def xmlcompare_case(draw):
    a = draw(element(tail=False))
    import copy
    b = copy.deepcopy(a)
    for _ in range(draw(st.integers(0, 2))):
        node = b
        while node['kids'] and draw(st.booleans()): node = draw(st.sampled_from(node['kids']))
        k = draw(st.sampled_from('tTaAkdwr'))
        if k == 't': node['text'] = draw(st.one_of(BLANKS, SAFE))
        elif k == 'T' and node is not b: node['tail'] = draw(st.one_of(BLANKS, SAFE))
        elif k == 'a': node['attrs'] = draw(st.dictionaries(NAME, SAFE, max_size=2))
        elif k == 'A' and len(node['attrs']) > 1: node['attrs'] = dict(reversed(list(node['attrs'].items())))
        elif k == 'k': node['kids'].insert(draw(st.integers(0, len(node['kids']))), draw(element(0)))
        elif k == 'd' and node['kids']: node['kids'].pop()
        elif k == 'w': node['text'] = ' ' + (node['text'] or '') + '\n'
        elif k == 'r': node['tag'] = draw(NAME)
    return {'a': a, 'b': b, 'ws': draw(st.booleans()), 'exit': draw(st.sampled_from((10, 0)))}


def canon(e, ws):
    f = (lambda s: (s or '').strip()) if ws else (lambda s: s or '')
    return (e['tag'], e['attrs'], f(e['text']), [(canon(k, ws), f(k['tail'])) for k in e['kids']])


def run_xmlcompare(case, rec):
    want = canon(case['a'], case['ws']) == canon(case['b'], case['ws'])
    rec.interesting(case['a'] != case['b'])
    rec.label('equal', want)
    with TempDir() as tmp, quiet():
        t = Path(tmp)
        for name in 'ab': ET.ElementTree(build(case[name])).write(t / name, encoding='utf-8')
        for x, y in ('ab', 'ba'):
            equal(G.fileCompareXML(str(t / x), str(t / y), printFlag=False, exitCount=case['exit'], ignoreWhitespace=case['ws']), want,
                  f"fileCompareXML (ignoreWhitespace={case['ws']}) of {short(case['a'])} and {short(case['b'])}")
        equal(G.fileCompareXML('a', 'a', tmp, tmp), True, 'fileCompareXML of a file with itself')


# -------------------------------------------------------------------- files: backup, peek, pickle

@st.composite
def backup_case(draw):
    ops = []
    for n in range(draw(st.integers(1, 9))):
        k = draw(st.sampled_from('wwbbbd'))
        ops.append(['w', f'version {n}'] if k == 'w' else ['b', draw(st.integers(1, 4))] if k == 'b' else ['d', draw(st.sampled_from(('f.bak', 'f.bak2', 'f')))])
    return {'ops': ops, 'ext': draw(st.sampled_from(('bak', '.bak', '.old'))), 'aspath': draw(st.booleans())}


def run_backup(case, rec):
    ext = case['ext'] if case['ext'].startswith('.') else '.' + case['ext']
    model = {}
    names = lambda n: 'f' if n == 0 else f'f{ext}' if n == 1 else f'f{ext}{n}'
    rec.interesting(sum(o[0] == 'b' for o in case['ops']) >= 2)
    with TempDir() as tmp, quiet():
        t = Path(tmp)
        (t / 'other').write_text('other')
        for op in case['ops']:
            if op[0] == 'w': (t / 'f').write_text(op[1]); model['f'] = op[1]
            elif op[0] == 'd': (t / op[1]).unlink(missing_ok=True); model.pop(op[1], None)
            else:
                for n in range(op[1], 0, -1):
                    if names(n - 1) in model: model[names(n)] = model.pop(names(n - 1))
                G.backupAnyExistingFile(t / 'f' if case['aspath'] else str(t / 'f'), op[1], case['ext'])
            got = {p.name: p.read_text() for p in t.iterdir()}
            equal(got, {**model, 'other': 'other'}, f"backupAnyExistingFile: the files after {op} of {case['ops']}")


@st.composite
def peek_case(draw):
    return {'lines': draw(st.lists(st.text(st.sampled_from('ab é本\\<\x0c\u2028'), max_size=6), max_size=6)), 'end': draw(st.booleans()), 'num': draw(st.integers(1, 4)),
            'eol': draw(st.sampled_from(('\n', '\r\n', '\r'))), 'enc': draw(st.sampled_from(('utf-8', 'utf-8', 'latin-1', 'utf-16'))),
            'folder': draw(st.booleans())}


def run_peek(case, rec):
    enc = case['enc']
    lines = [l if enc != 'latin-1' else ''.join(c for c in l if ord(c) < 256) for l in case['lines']]
    data = case['eol'].join(lines) + (case['eol'] if case['end'] and lines else '')
    if lines and not case['end'] and lines[-1] == '': lines.pop()
    rec.interesting(len(lines) >= 2)
    rec.label('short file', len(lines) < case['num'])
    raw = data.encode(enc)
    told = None if enc == 'utf-8' else enc
    if enc == 'latin-1':
        try: raw.decode('utf-8'); ascii = True
        except UnicodeDecodeError: ascii = False
        if not ascii: told = None  # it has to find the encoding itself
    with TempDir() as tmp, quiet():
        path = Path(tmp) / 'f'
        path.write_bytes(raw)
        args = ('f', tmp) if case['folder'] else (str(path), None)
        got = G.peekIntoFile(*args, numLines=case['num'], encoding=told)
    if case['num'] == 1: want = lines[0] if lines else None
    else: want = lines[:case['num']]
    if not lines: check(not got, f"peekIntoFile of an empty file gave {got!r}")
    else: equal(got, want, f"peekIntoFile({case['num']} lines) of {short(raw)}")


def data_values():
    leaf = st.one_of(st.none(), st.booleans(), st.integers(), st.text(max_size=5), st.binary(max_size=5), st.floats(allow_nan=False))
    return st.recursive(st.one_of(st.integers(), st.text(max_size=5), st.booleans()),
                        lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=3), c, max_size=3)), max_leaves=8)


def run_pickle(value, rec):
    rec.interesting(isinstance(value, (list, dict)) and len(value) > 1)
    with TempDir() as tmp, quiet():
        folder = os.path.join(tmp, 'deep', 'er')
        for n in range(2):  # new folder, then overwriting
            check(G.pickleObject(value, 'v.pickle', folder) is True, 'pickleObject did not report success')
            equal(G.unpickleObject('v.pickle', folder), value, 'unpickleObject after pickleObject')


# ---------------------------------------------------------------------------------- verbosity

LEVELS = ['Silent', 'Quiet', 'Normal', 'Informative', 'Verbose']


def verbosity_case():
    level = st.one_of(st.sampled_from(LEVELS), st.integers(0, 4), st.sampled_from(('Wrong', 7, -1)))
    call = st.tuples(st.sampled_from(('Quiet', 'Normal', 'Informative', 'Info', 'Verbose', 'Never', 'Unknown', 1, 2, 3, 4)), st.sampled_from((True, False, 0, 1, 2)), st.booleans())
    return st.lists(st.one_of(st.tuples(st.just('set'), level), st.tuples(st.just('debug'), st.booleans()), st.tuples(st.just('print'), call)), max_size=10)


def run_verbosity(ops, rec):
    numbers = {'Quiet': 1, 'Normal': 2, 'Informative': 3, 'Info': 3, 'Verbose': 4, 'Never': 5, 'Unknown': 4}
    before = (G.verbosityLevel, G.verbosityString, G.debugFlag)
    rec.interesting(len({str(o) for o in ops}) >= 3)
    try:
        with quiet(): G.setVerbosity(2); G.setDebugFlag(False)
        level, debug = 2, False
        for kind, arg in ops:
            if kind == 'set':
                if arg in LEVELS: level = LEVELS.index(arg)
                elif arg in range(5): level = arg
                with quiet(): G.setVerbosity(arg)
                equal((G.verbosityLevel, G.verbosityString), (level, LEVELS[level]), f"setVerbosity({arg!r})")
            elif kind == 'debug':
                debug = arg
                with quiet(): G.setDebugFlag(arg)
                equal(G.debugFlag, debug, f"setDebugFlag({arg})")
            else:
                requested, increase, user = arg
                if debug and requested == 'Unknown': requested = 'Verbose'
                number = numbers.get(requested, requested) - int(increase)
                if not user and debug: number -= 1
                out, sys.stdout = sys.stdout, io.StringIO()
                try:
                    (G.vPrint if user else G.dPrint)(requested, increase, 'Hello', 'you')
                    text = sys.stdout.getvalue()
                finally: sys.stdout = out
                equal(text, 'Hello you\n' if level >= number else '', f"{'vPrint' if user else 'dPrint'}({requested!r}, {increase}) at verbosity level {level}, debug {debug}")
    finally:
        with quiet(): G.setDebugFlag(before[2])
        G.verbosityLevel, G.verbosityString = before[:2]


SUBS = [
    Sub('clean-text', text_case, run_clean, 6000, rule='at least three different characters'),
    Sub('accents', None, run_accent, 0, rule='the letter has an accent that is removed', exhaustive=_exhaustive_accents),
    Sub('safe-xml', xml_case, run_xml, 4000, rule='has a special character'),
    Sub('strip-punctuation', word_case, run_strip, 12000, rule='something was removed and something is left'),
    Sub('strip-examples', None, run_strip_example, 0, rule='all', exhaustive=strip_examples),
    Sub('string-endings', endings_case, run_endings, 2500, rule='an ending was removed'),
    Sub('string-adjustments', adjust_case, run_adjust, 5000, rule='at least two adjustments'),
    Sub('xml-helpers', element, run_xmlhelp, 3000, rule='has attributes and sub-elements'),
    Sub('file-compare', compare_case, run_compare, 3000, rule='two different files, the first with at least two lines'),
    Sub('xml-compare', xmlcompare_case, run_xmlcompare, 2500, rule='two different documents'),
    Sub('backups', backup_case, run_backup, 1500, rule='at least two backups'),
    Sub('peek', peek_case, run_peek, 2500, rule='at least two lines'),
    Sub('pickle', data_values, run_pickle, 1200, rule='a list or dictionary of several values'),
    Sub('verbosity', verbosity_case, run_verbosity, 2500, rule='at least three different operations'),
]
