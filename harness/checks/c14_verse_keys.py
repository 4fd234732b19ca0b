"""C14: verse-reference key objects."""
from hypothesis import strategies as st
from core import *
import core

PROPERTY = 'C14'
SHAPES = ['V', 'V,V', 'V,V,V', 'V,V,V,V', 'V,V,V,V,V', 'V,V,V,V,V,V', 'V,V,V,V,V,V,V', 'V,V,V,V,V,V,V,V', 'V,V,V,V,V,V,V,V,V',
          'V-V', 'V-V,V', 'V-V,V,V', 'V-V,V,V,V', 'V-V,V,V,V,V', 'V,V-V', 'V,V-V,V-V', 'V,V,V-V,V-V', 'V-V,V,V-V', 'V-V,V,V,V-V',
          'V,V,V-V', 'V,V,V,V-V', 'V,V,V,V,V-V', 'V,V-V,V', 'V,V,V-V,V', 'V-V,V-V', 'V-V,V-V,V', 'V-V,V-V,V,V', 'V-V,V-V,V-V',
          'V-V,V-V,V-V,V-V']


def books():
    return sorted(sut().loadedBibleBooksCodes.getAllReferenceAbbreviations())


def setup():
    global BOOKS, VR, BBC
    from BibleOrgSys.Reference import VerseReferences as VR
    BBC = sut().loadedBibleBooksCodes
    import re
    BOOKS = [b for b in books() if re.fullmatch(VR.BBB_RE, b)]
    assert len(BOOKS) > 200


num = st.integers(1, 199) | st.integers(1, 30) | st.sampled_from([1, 9, 10, 19, 20, 99, 100, 101, 119, 150, 176, 199])
suffix = st.sampled_from(['', '', '', 'a', 'b', 'c', 'd'])


def simple_case():
    return st.fixed_dictionaries(dict(B=st.sampled_from(BOOKS), C=num, V=num,
                                      SI=suffix | st.integers(0, 999).map(str)))


def run_simple(case, rec):
    B, C, V, SI = case['B'], str(case['C']), str(case['V']), case['SI']
    isI = SI.isdigit()
    k = VR.SimpleVerseKey(B, C, V, SI)
    text = '%s_%s:%s%s' % (B, C, V, '!' + SI if SI else '')
    rec.interesting(bool(SI)); rec.label('index' if isI else 'suffix' if SI else 'plain')
    equal(k.getVerseKeyText(), text, 'getVerseKeyText')
    k2 = VR.SimpleVerseKey(text)
    keys = [k, k2, VR.SimpleVerseKey(B, int(C), int(V), SI)]
    if isI: keys.append(VR.SimpleVerseKey(B, C, V, int(SI)))
    f = VR.FlexibleVersesKey(text)
    fk = list(f)
    equal(len(fk), 1, 'parts of FlexibleVersesKey')
    keys.append(fk[0])
    for j, q in enumerate(keys):
        w = 'key %d of %s:' % (j, text)
        equal(q.getVerseKeyText(), text, w, 'text')
        equal((q.getBBB(), q.getChapterNumber(), q.getChapterNumStr(), q.getVerseNumber(), q.getVerseNumStr()), (B, C, C, V, V), w)
        equal((q.getChapterNumberInt(), q.getVerseNumberInt()), (int(C), int(V)), w)
        S, I = (None, SI) if isI else (SI, None)
        equal((q.getVerseSuffix(), q.getVerseIndex()), (S, I), w)
        equal((q.getBCV(), q.getBCVS(), q.getBCVI(), q.getCV(), q.getCVS(), q.getCVI()),
              ((B, C, V), (B, C, V, S), (B, C, V, I), (C, V), (C, V, S), (C, V, I)), w)
        equal((len(q), tuple(q[i] for i in range(4))), (4, (B, C, V, SI)), w)
        equal(q.getShortText(), '%s %s:%s%s' % (B, C, V, '!' + SI if isI else SI), w)
        equal([x.getVerseKeyText() for x in q], [text], w)
        equal([x.getVerseKeyText() for x in q.getIncludedVerses()], [text], w)
        check(q == k and not (q != k), w, 'equal keys compare unequal')
        equal((q.makeHash(), hash(q)), (k.makeHash(), hash(k)), w)
        osis = BBC.getOSISAbbreviation(B)
        if osis: equal(q.getOSISReference(), '%s.%s.%s' % (osis, C, V), w)
    try: k[4]
    except IndexError: pass
    else: raise Violation('index 4 accepted')


def pair_case():
    small = st.fixed_dictionaries(dict(B=st.sampled_from(['GEN', 'SA1', 'SA2', 'EZE', 'EZA']), C=st.sampled_from([1, 11, 2, 12, 121]),
                                       V=st.sampled_from([1, 11, 2, 21, 111]), SI=st.sampled_from(['', 'a', 'b', '1', '11'])))
    return st.tuples(small, small).map(list)


def run_pair(case, rec):
    ks = [VR.SimpleVerseKey(c['B'], str(c['C']), str(c['V']), c['SI']) for c in case]
    same = case[0] == case[1]
    rec.interesting(not same and sum(case[0][x] != case[1][x] for x in 'BCV') + (case[0]['SI'] != case[1]['SI']) == 1)
    check((ks[0] == ks[1]) == same, 'equality of', case)
    check((ks[0] != ks[1]) == (not same), 'inequality of', case)
    equal(ks[0].makeHash() == ks[1].makeHash(), same, 'hash keys of', case)
    equal(len({ks[0], ks[1]}), 1 if same else 2, 'set of', case)


@st.composite
def list_case(draw):
    shape = draw(st.sampled_from(SHAPES))
    B, C = draw(st.sampled_from(BOOKS)), draw(num)
    n = shape.count('V')
    # strictly increasing verse numbers, with occasional same-verse suffix steps in lists (5a,5c)
    steps = draw(st.lists(st.integers(1, 3) | st.integers(1, 14), min_size=n, max_size=n))
    v, out = 0, []
    start = draw(st.integers(0, 40) | st.integers(0, 199 - sum(steps)) if sum(steps) < 199 else st.just(0))
    for s in steps:
        v = min(v + s if v else start + s, 199)
        out.append([v, draw(suffix)])
    return dict(B=B, C=C, shape=shape, vs=out)


def model(case):
    """text, list of parts; each part = ('V', v) or ('R', v1, v2)"""
    seps = case['shape'].replace('V', '')
    return [list(p) for p in case['shape'].split(',')], seps


def fmt(v): return '%d%s' % (v[0], '!' + v[1] if v[1] else '')


def expand(case):
    included, parts, i = [], [], 0
    for p in case['shape'].split(','):
        if p == 'V':
            a = case['vs'][i]; i += 1
            included.append((a[0], a[1])); parts.append('V')
        else:
            a, b = case['vs'][i], case['vs'][i + 1]; i += 2
            included.append((a[0], a[1]))
            included += [(n, '') for n in range(a[0] + 1, b[0])]
            included.append((b[0], b[1])); parts.append('R')
    return included, parts


def run_list(case, rec):
    vs = [tuple(v) for v in case['vs']]
    i = 0
    for p in case['shape'].split(','):        # ranges must go forward (or step by suffix within one verse)
        if p == 'V': i += 1
        else:
            a, b = vs[i], vs[i + 1]; i += 2
            if b <= a: raise Discard()
            if a[0] == b[0]: rec.label('range within one verse')
    it = iter(vs)
    text = '%s_%d:' % (case['B'], case['C'])
    for ch in case['shape']: text += fmt(next(it)) if ch == 'V' else ch
    rec.label(case['shape']); rec.interesting(case['shape'].count('V') > 1)
    want = ['%s_%d:%s' % (case['B'], case['C'], fmt(v)) for v in expand(case)[0]]
    f = VR.FlexibleVersesKey(text)
    equal([k.getVerseKeyText() for k in f.getIncludedVerses()], want, 'included verses of', text)
    shape = case['shape']
    if '-' not in shape and len(vs) > 1:
        k = VR.SimpleVersesKey(text)
        equal([q.getVerseKeyText() for q in k], want, 'SimpleVersesKey iteration', text)
        equal([q.getVerseKeyText() for q in k.getIncludedVerses()], want, 'SimpleVersesKey', text)
        equal(k.getVerseKeyText(), text, 'SimpleVersesKey round trip')
        equal(k.getShortText(), ', '.join('%s %d:%d%s' % (case['B'], case['C'], v[0], v[1]) for v in vs), 'short text')
        check(k == VR.SimpleVersesKey(text), 'SimpleVersesKey equality')
        equal(f.getVerseKeyText(), text, 'FlexibleVersesKey text')
    if shape == 'V-V':
        k = VR.VerseRangeKey(text)
        equal([q.getVerseKeyText() for q in k], want, 'VerseRangeKey iteration', text)
        equal(k.getVerseKeyText(), text, 'VerseRangeKey round trip')
        equal(k.getShortText(), '%s %d:%d%s-%s %d:%d%s' % (case['B'], case['C'], *vs[0], case['B'], case['C'], *vs[1]), 'short')
        check(k == VR.VerseRangeKey(text), 'VerseRangeKey equality')
        equal(f.getVerseKeyText(), text, 'FlexibleVersesKey text')
    if shape == 'V-V,V':
        equal(f.getVerseKeyText(), text, 'FlexibleVersesKey text')


@st.composite
def chapter_case(draw):
    n = draw(st.integers(2, 3))
    return dict(B=draw(st.sampled_from(BOOKS)), kind=draw(st.sampled_from(['list', 'range'])),
                cv=[[draw(num), draw(num), draw(suffix)] for _ in range(n)])


def run_chapter(case, rec):
    B, cv = case['B'], case['cv']
    rec.label(case['kind'])
    key = lambda c, v, s: '%s_%d:%d%s' % (B, c, v, '!' + s if s else '')
    if case['kind'] == 'list':
        text = key(*cv[0]) + ''.join(';' + key(*x)[len(B) + 1:] for x in cv[1:])
        k = VR.SimpleVersesKey(text)
        want = [key(*x) for x in cv]
        rec.interesting()
        equal([q.getVerseKeyText() for q in k], want, 'iteration of', text)
        equal([q.getVerseKeyText() for q in VR.FlexibleVersesKey(text).getIncludedVerses()], want, text)
        again = VR.SimpleVersesKey(k.getVerseKeyText()) if k.getVerseKeyText().count(';') == len(cv) - 1 else None
        if again is not None:
            equal(k.getVerseKeyText(), text, 'round trip')
            check(again == VR.SimpleVersesKey(text), 'equality')
    else:
        a, b = cv[0], cv[1]
        a, b = sorted([a, b])
        if b[0] - a[0] > 6: b[0] = a[0] + b[0] % 6 + 1
        if a[0] == b[0] and a[1] == b[1] or b[0] > 199: raise Discard()
        text = key(*a) + '–' + key(*b)[len(B) + 1:]
        k = VR.VerseRangeKey(text)
        rec.interesting()
        got = list(k.getIncludedVerses())
        equal(got[0].getVerseKeyText(), key(*a), 'first verse of', text)
        equal(got[-1].getVerseKeyText(), key(*b), 'last verse of', text)
        seq = [(int(q.getChapterNumber()), int(q.getVerseNumber())) for q in got]
        for p, q in zip(seq, seq[1:]):
            check(q == (p[0], p[1] + 1) or q == (p[0] + 1, 1), 'verses out of sequence in', text, p, q)
        equal(k.getVerseKeyText(), text if a[0] != b[0] else key(*a) + '-' + key(*b)[len(B) + 1:].split(':')[1], 'round trip')
        equal([q.getVerseKeyText() for q in k], [q.getVerseKeyText() for q in got], 'iteration')


@st.composite
def bad_case(draw):
    B, C, V = draw(st.sampled_from(BOOKS)), draw(num), draw(num)
    how = draw(st.sampled_from(['junk', 'sep', 'zero', 'big', 'suffix', 'tail', 'head', 'case', 'space', 'backwards', 'same', 'index']))
    V2 = draw(num)
    if how == 'junk': t = draw(st.text(st.sampled_from('GENSA12_:,;-–!ab .0'), max_size=14))
    elif how == 'sep':
        a, b = draw(st.sampled_from([('.', '.'), (' ', ':'), ('_', '.'), ('_', '_'), (':', ':'), ('', ':')]))
        t = '%s%s%d%s%d' % (B, a, C, b, V)
    elif how == 'zero': t = draw(st.sampled_from(['%s_0:%d' % (B, V), '%s_%d:0' % (B, C), '%s_0%d:%d' % (B, C, V), '%s_%d:0%d' % (B, C, V)]))
    elif how == 'big': t = draw(st.sampled_from(['%s_%d:%d' % (B, C + 199, V), '%s_%d:%d' % (B, C, V + 199), '%s_1%03d:1' % (B, C)]))
    elif how == 'suffix': t = '%s_%d:%d%s' % (B, C, V, draw(st.sampled_from(['a', '!e', '!z', '!ab', '!A', '!1a', '!!', '!a!1'])))
    elif how == 'index': t = '%s_%d:%d!%d' % (B, C, V, 1000 + V2)
    elif how == 'tail': t = '%s_%d:%d%s' % (B, C, V, draw(st.sampled_from([' ', ',', ';', '-', ':', '.', ':1', ',a', ', 5'])))
    elif how == 'head': t = draw(st.sampled_from([' ', 'X', '1', '_'])) + '%s_%d:%d' % (B, C, V)
    elif how == 'case': t = '%s_%d:%d' % (B.lower(), C, V)
    elif how == 'space': t = '%s_%d: %d' % (B, C, V)
    elif how == 'backwards':
        lo, hi = sorted([V, V2])
        t = '%s_%d:%d-%d' % (B, C, hi, lo) if draw(st.booleans()) or hi == lo else '%s_%d:%d–%d:%d' % (B, C + 0, hi, C, lo)
    else: t = '%s_%d:%d-%d' % (B, C, V, V)
    return dict(text=t, how=how)


import re


def well_formed(t):
    n = r'(?:1[0-9][0-9]|[1-9][0-9]?)'
    v = n + r'(?:!(?:[a-d]|[0-9]{1,3})?)?'
    return bool(re.match(r'^[A-Z][A-Z1][A-Z1-6]_%s(?::%s(?:[-,]%s)*(?:[;–]%s:%s)*)?$' % (n, v, v, n, v), t))


def run_bad(case, rec):
    t = case['text']
    rec.label(case['how'])
    if case['how'] == 'junk' and well_formed(t): raise Discard()
    rec.interesting(case['how'] != 'junk' or len(t) > 4)
    for cls in (VR.SimpleVerseKey, VR.SimpleVersesKey, VR.VerseRangeKey, VR.FlexibleVersesKey):
        try: k = cls(t)
        except TypeError: continue
        raise Violation('%s accepted %r as %r' % (cls.__name__, t, k.getShortText()))
    # wrong constructor arguments
    for args in (('XXX', '1', '1'), ('GE', '1', '1'), ('GEN', '1234', '1'), ('GEN', '1', '1234'), ('GEN', '', '1'), ('GEN', '1', ''),
                 ('GEN', '1', '1', 'ab'), ('GEN', '1 ', '1'), ('GEN', '1', '1', ',')):
        try: VR.SimpleVerseKey(*args)
        except TypeError: continue
        raise Violation('SimpleVerseKey accepted %r' % (args,))


SUBS = [
    Sub('simple', simple_case, run_simple, 4000, rule='non-trivial: has a suffix letter or an index'),
    Sub('pairs', pair_case, run_pair, 3000, rule='non-trivial: the two keys differ in exactly one of book, chapter, verse, suffix'),
    Sub('lists', list_case, run_list, 6000, shards=2, rule='non-trivial: more than one verse number (all 29 supported list/range shapes)'),
    Sub('chapters', chapter_case, run_chapter, 2500, rule='non-trivial: two or three chapter:verse places'),
    Sub('malformed', bad_case, run_bad, 2500, rule='non-trivial: a near-miss of a valid reference (not random junk)'),
]


def probe_chapter():
    k = VR.VerseRangeKey('GEN_18')
    try: got = [q.getVerseKeyText() for q in k]
    except AttributeError as e: raise Violation(str(e))


PROBES = [Probe('whole-chapter', "a whole-chapter range key (VerseRangeKey('GEN_18')) is accepted but its verses cannot be listed (AttributeError)", probe_chapter)]
