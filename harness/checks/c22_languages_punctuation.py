"""C22: ISO 639-3 language look-ups and punctuation systems, against independent readings of the published XML tables."""
import os, glob, xml.etree.ElementTree as ET
from hypothesis import strategies as st
from core import *

PROPERTY = 'C22'


def setup():
    global ISO, ROWS, NAMES, PS, PMOD, PUNCT, ALLNAMES
    sut()
    from BibleOrgSys.Reference.ISO_639_3_Languages import ISO_639_3_Languages
    from BibleOrgSys.Reference import BiblePunctuationSystems as PMOD
    ISO = ISO_639_3_Languages().loadData()
    ROWS = {e.get('id'): e.attrib for e in ET.parse(os.path.join(REPO, 'BibleOrgSys/DataFiles/iso_639_3.xml')).getroot()}
    assert len(ROWS) > 7000
    NAMES = {}
    for c, r in ROWS.items(): NAMES.setdefault(r['name'].upper(), []).append(c)
    ALLNAMES = sorted(r['name'] for r in ROWS.values())
    PS = PMOD.BiblePunctuationSystems().loadData()
    PUNCT = {}
    for f in glob.glob(os.path.join(REPO, 'BibleOrgSys/DataFiles/PunctuationSystems/BiblePunctuationSystem_*.xml')):
        PUNCT[os.path.basename(f)[len('BiblePunctuationSystem_'):-4]] = {e.tag: e.text or '' for e in ET.parse(f).getroot() if e.tag != 'header'}
    assert len(PUNCT) >= 3


def run_code(case, rec):
    c = case['c']; r = ROWS[c]
    rec.interesting()
    check(ISO.isValidLanguageCode(c), c, 'not valid')
    equal(ISO.getLanguageName(c), r['name'], c, 'name'); equal(ISO.getScope(c), r['scope'], c, 'scope'); equal(ISO.getType(c), r['type'], c, 'type')
    equal(ISO.getPart1Code(c), r.get('part1_code'), c, 'part 1 code'); equal(ISO.getPart2Code(c), r.get('part2_code'), c, 'part 2 code')
    for n in (r['name'], r['name'].upper(), r['name'].lower()):
        if n.upper() in NAMES:
            got = ISO.getLanguageCode(n)
            check(got in NAMES[n.upper()], 'code of', n, 'is', got, 'not', NAMES[n.upper()])
    equal(len(ISO), len(ROWS), 'number of languages')


def cases_name():
    part = st.tuples(st.integers(0, 7999), st.integers(0, 12), st.integers(1, 9), st.sampled_from(['id', 'up', 'low', 'swap', 'title'])).map(
        lambda x: dict(id=str, up=str.upper, low=str.lower, swap=str.swapcase, title=str.title)[x[3]](ALLNAMES[x[0] % len(ALLNAMES)][x[1]:x[1]+x[2]]))
    return st.fixed_dictionaries(dict(t=st.one_of(part, part, part.map(lambda s: s + 'q'), st.sampled_from(['', ' ', '(', "'", 'Creole', 'SIGN LANGUAGE', 'ñ', 'é', 'ß', '-', '!', ',', 'eng', 'Greek', 'Hebrew']), st.text(max_size=4))))


def run_name(case, rec):
    t = case['t']; U = t.upper()
    hits = [n for n in NAMES if U in n]
    rec.interesting(0 < len(hits) < len(NAMES)); rec.label('none' if not hits else 'one' if len(hits) == 1 else 'several')
    got = ISO.getNameMatches(t)
    exp = sorted(hits)
    equal(sorted(x.upper() for x in got), exp, 'names with', t)
    for x in got: check(any(ROWS[c]['name'] == x for c in NAMES[x.upper()]), 'name', x, 'is not a published spelling')
    code = ISO.getLanguageCode(t)
    if U in NAMES: check(code in NAMES[U], 'code of', t, 'is', code)
    else: check(code is None, 'code of', t, 'is', code)
    if t not in ROWS:
        check(not ISO.isValidLanguageCode(t), t, 'is not a code')
        for f in ('getLanguageName', 'getScope', 'getType', 'getPart1Code', 'getPart2Code'):
            try: x = getattr(ISO, f)(t)
            except KeyError: continue
            check(not x, f, t, 'gives', x)


def cases_punct():
    return st.fixed_dictionaries(dict(ops=st.lists(st.tuples(st.integers(0, 9), st.sampled_from(['value', 'dict', 'names', 'in', 'len', 'system', 'bad system', 'bad value']), st.integers(0, 60), st.text('abcS', min_size=1, max_size=5)), min_size=1, max_size=8)))


def run_punct(case, rec):
    equal(sorted(PS.getAvailablePunctuationSystemNames()), sorted(PUNCT), 'punctuation systems'); equal(len(PS), len(PUNCT), 'number of systems')
    names = sorted(PUNCT)
    rec.interesting(len({o[0] % len(names) for o in case['ops']}) > 1)
    for i, op, k, t in case['ops']:
        n = names[i % len(names)]; d = PUNCT[n]
        s = PMOD.BiblePunctuationSystem(n)
        check(n in PS and PS.isValidPunctuationSystemName(n), n); equal(s.getPunctuationSystemName(), n, 'system name')
        key = sorted(d)[k % len(d)]
        if op == 'value': equal(s.getPunctuationValue(key), d[key], n, key)
        elif op == 'dict': equal(dict(s.getPunctuationDict()), d, n)
        elif op == 'names': equal(sorted(s.getAvailablePunctuationValueNames()), sorted(d), n)
        elif op == 'in': check(key in s, key, n); equal(t in s, t in d, n, t)
        elif op == 'len': equal(len(s), len(d), n)
        elif op == 'system': equal(dict(PS.getPunctuationSystem(n)), d, n)
        elif op == 'bad system':
            if t not in PUNCT: check(t not in PS and not PS.isValidPunctuationSystemName(t) and PS.getPunctuationSystem(t) is None, 'unknown system', t)
        elif t not in d:
            try: x = s.getPunctuationValue(t)
            except KeyError: continue
            check(not x, 'unknown value', t, 'is', x)


SUBS = [
    Sub('codes', None, run_code, 1, rule='every language', exhaustive=lambda: [dict(c=c) for c in sorted(ROWS)]),
    Sub('names', cases_name, run_name, 4000, rule='some, not all, names have the text'),
    Sub('punctuation', cases_punct, run_punct, 800, rule='queries of more than one system'),
]
