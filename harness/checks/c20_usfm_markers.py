"""C20: the USFM 2 and USFM 3 marker tables, and splitting texts into their markers, against models read from the XML tables and built with the text."""
import os, logging, xml.etree.ElementTree as ET
from hypothesis import strategies as st
from core import *

PROPERTY = 'C20'
NOTEISH = ('Footnote', 'Cross-reference')


def setup():
    global T, MODS, ROWS, BY, NUM
    G = sut()
    from BibleOrgSys.Reference import USFM2Markers as M2, USFM3Markers as M3
    MODS = {2: M2, 3: M3}
    T = {2: M2.USFM2Markers().loadData(), 3: M3.USFM3Markers().loadData()}
    ROWS, BY, NUM = {}, {}, {}
    for v in (2, 3):
        root = ET.parse(os.path.join(REPO, 'BibleOrgSys/DataFiles/USFM%dMarkers.xml' % v)).getroot()
        ROWS[v] = [{s.tag: s.text for s in e} for e in root.findall('USFMMarker')]
        assert len(ROWS[v]) > 120
        BY[v] = {}   # every marker, numbered or not -> its row
        NUM[v] = {}  # raw marker -> its numbered forms
        for r in ROWS[v]:
            BY[v][r['marker']] = r
            NUM[v][r['marker']] = [numbered(r['marker'], i + 1) for i in range(int(r['highestNumberSuffix']))] if r['highestNumberSuffix'] != 'None' else []
        for r in ROWS[v]:
            for n in NUM[v][r['marker']]: BY[v].setdefault(n, r)


def numbered(m, n): return '%s%d%s' % (m[:-2], n, m[-2:]) if m.endswith(('-s', '-e')) else '%s%d' % (m, n)


# ---------------------------------------------------------------- every marker
def all_markers(): return [dict(v=v, m=m) for v in (2, 3) for m in BY[v]]


def run_marker(case, rec):
    v, m = case['v'], case['m']; t, r = T[v], BY[v][m]
    rec.interesting(); rec.label('numbered' if m != r['marker'] else 'as in table', r['level'])
    L = 'USFM%d' % v
    check(m in t and t.isValidMarker(m), L, m, 'not valid')
    equal(t.toRawMarker(m), r['marker'], L, m, 'raw marker')
    nums = NUM[v][r['marker']]
    equal(t.toStandardMarker(m), nums[0] if nums and m == r['marker'] else m, L, m, 'standard marker')
    equal((bool(t.isNewlineMarker(m)), bool(t.isInternalMarker(m)), bool(t.isNoteMarker(m))), tuple(r['level'] == x for x in ('Newline', 'Internal', 'Note')), L, m, 'level')
    equal(bool(t.isDeprecatedMarker(m)), r['deprecated'] == 'Yes', L, m, 'deprecated')
    equal(bool(t.isCompulsoryMarker(m)), r['compulsory'] == 'Yes', L, m, 'compulsory')
    equal(bool(t.isNumberableMarker(m)), r['highestNumberSuffix'] != 'None', L, m, 'numberable')
    equal(bool(t.isNestingMarker(m)), r['nests'] == 'Yes', L, m, 'nesting')
    equal(bool(t.isPrinted(m)), r['printed'] == 'Yes', L, m, 'printed')
    equal(t.getMarkerClosureType(m), dict(No='N', Always='A', Optional='O', Self='S')[r['closed']], L, m, 'closure')
    equal(t.getMarkerContentType(m), r['hasContent'][0], L, m, 'content')
    equal(t.markerOccursIn(m), r['occursIn'], L, m, 'occurs in')
    equal(t.getMarkerEnglishName(m), r['nameEnglish'], L, m, 'name'); equal(t.getMarkerDescription(m), r.get('description'), L, m, 'description')


def lists(v):
    """the list queries -> what they should give"""
    rows = ROWS[v]; raw = lambda f: [r['marker'] for r in rows if f(r)]
    newline = raw(lambda r: r['level'] == 'Newline')
    std = lambda ms: [n for m in ms for n in (NUM[v][m] or [m])]
    out = {}
    t = T[v]
    out['newline Raw'] = (t.getNewlineMarkersList('Raw'), newline)
    out['newline Combined'] = (t.getNewlineMarkersList('Combined'), [x for m in newline for x in [m] + NUM[v][m]])
    out['newline Numbered'] = (t.getNewlineMarkersList('Numbered'), std(newline))
    out['newline CanonicalText'] = (t.getNewlineMarkersList('CanonicalText'), [x for x in std(newline) if BY[v][x]['occursIn'] == 'Canonical Text'])
    out['internal'] = (t.getInternalMarkersList(), raw(lambda r: r['level'] == 'Internal'))
    out['note'] = (t.getNoteMarkersList(), raw(lambda r: r['level'] == 'Note'))
    left_out = NOTEISH if v == 3 else NOTEISH + ('Numbering', 'Acrostic verse')
    chars = raw(lambda r: r['level'] == 'Internal' and r['occursIn'] not in left_out)
    for bs in (False, True):
        for end in (False, True):
            for nest in (False, True):
                for num in (False, True):
                    exp = []
                    for m in chars:
                        for x in [m] + (NUM[v][m] if num else []):
                            for plus in ('', '+') if nest else ('',):
                                for star in ('', '*') if end else ('',): exp.append(('\\' if bs else '') + plus + x + star)
                    out['character', bs, end, nest, num] = (t.getCharacterMarkersList(includeBackslash=bs, includeEndMarkers=end, includeNestedMarkers=nest, expandNumberableMarkers=num), exp)
    out['occurs in'] = (t.getOccursInList(), list(dict.fromkeys(r['occursIn'] for r in rows)))
    return out


def run_lists(case, rec):
    v = case['v']; rec.interesting()
    for _ in range(2):  # asking again gives the same again
        for k, (got, exp) in lists(v).items():
            equal(sorted(got), sorted(exp), 'USFM%d' % v, 'list', k)
    equal(len(T[v]), sum(1 + len(NUM[v][m]) for m in NUM[v]), 'number of markers')
    equal(sorted(T[v][i] for i in range(sum(len(x) or 1 for x in NUM[v].values()))), sorted(n for m in NUM[v] for n in (NUM[v][m] or [m])), 'markers by index')


# ---------------------------------------------------------------- texts which are no markers
def cases_unknown():
    near = st.tuples(st.sampled_from(['s', 'q', 'p', 'mt', 'qt', 'li', 'nd', 'h', 'toc', 'pi', 'tc', 'v']), st.sampled_from(['0', '5', '6', '9', '10', '01', ' ', '*', '+', 'x', '-s', '', '1a'])).map(''.join)
    return st.fixed_dictionaries(dict(v=st.sampled_from([2, 3]), t=st.one_of(near, near.map(lambda s: '\\' + s), near.map(str.upper), st.text('abcdefghimnopqrstuvwx123-+*\\', max_size=4), st.text(max_size=5))))


def run_unknown(case, rec):
    v, m = case['v'], case['t']; t = T[v]
    known = m in BY[v]
    rec.interesting(not known); rec.label('known' if known else 'unknown')
    equal(bool(t.isValidMarker(m)), known, 'valid', m); equal(m in t, known, 'in', m)
    if known: return run_marker(dict(v=v, m=m), rec)
    for f in ('isNewlineMarker', 'isInternalMarker', 'isNoteMarker', 'isDeprecatedMarker', 'isCompulsoryMarker', 'isNumberableMarker', 'isNestingMarker', 'isPrinted', 'getMarkerClosureType', 'getMarkerContentType'):
        try: got = getattr(t, f)(m)
        except KeyError: continue
        check(not got, f, m, 'gives', got)
    for f in ('toRawMarker', 'toStandardMarker', 'markerOccursIn', 'getMarkerEnglishName', 'getMarkerDescription'):
        try: got = getattr(t, f)(m)
        except KeyError: continue
        raise Violation('%s(%r) gives %r for an unknown marker' % (f, m, got))


# ---------------------------------------------------------------- splitting a text
def tokens():
    word = st.one_of(st.sampled_from(['', 'word', ' two words ', 'א', '*', 'a*b ', 'lemma|x="1"', '+', '- ', '1:2 ', 'ŋ. ', '«a»']), st.text('abc ,.*+|é"', max_size=8))
    char = st.sampled_from(['nd', 'add', 'wj', 'w', 'bk', 'f', 'fr', 'ft', 'fq', 'fqa', 'fv', 'x', 'xo', 'xt', 'fig', 'ior', 'qs', 'tc1', 'tcr2', 'zcustom', 'k', 'fe', 'it', 'ndx'])
    nl = st.sampled_from(['p', 'q1', 'q', 's', 's2', 'v', 'c', 'li1', 'b', 'mt2', 'h', 'pi'])
    return st.lists(st.tuples(st.sampled_from('oooccncnpmt'), char, nl, word), max_size=9)


def cases_split(): return st.fixed_dictionaries(dict(v=st.sampled_from([2, 3, 3]), initial=st.sampled_from(['', '', 'begin ', 'a*', ' ', 'x+y ', 'ŋ']), toks=tokens(), last=st.sampled_from([None, None, 'nd', 'f', 'q1', '+nd']),
                                                        inc=st.booleans(), verify=st.booleans()))


def run_split(case, rec):
    v = case['v']; text = case['initial']; out = []; cx = []
    for kind, c, n, w in case['toks']:
        ix = len(text)
        if kind == 'o': m, x, full = c, ' ', '\\%s ' % c; cx = [c]
        elif kind == 'n': m, x, full = n, ' ', '\\%s ' % n; cx = []
        elif kind == 'c': m, x, full = c, '*', '\\%s*' % c; cx = []
        elif kind == 'p': m, x, full = c, '+', '\\+%s ' % c; cx = cx + [c]
        elif kind == 'm':
            if v == 2 and not cx: continue  # only the USFM 3 splitter copes with a nested end marker which ends nothing
            m, x, full = c, '-', '\\+%s*' % c; cx = cx[:-1]
        else: text += w; (out[-1].__setitem__(5, out[-1][5] + w) if out else None); continue
        text += full + w
        out.append([m, ix, x, full, cx, w])
    if case['last']:
        m = case['last'].lstrip('+'); ix = len(text); plus = case['last'] != m
        cx = cx + [m] if plus else [] if BY[v].get(m, {}).get('level') == 'Newline' else [m]
        out.append([m, ix, '+' if plus else '', '\\' + case['last'], cx, '']); text += '\\' + case['last']
    rec.interesting(len(out) > 2); rec.label('nested' if any(len(o[4]) > 1 for o in out) else 'flat')
    with quiet(): got = T[v].getMarkerListFromText(text, includeInitialText=case['inc'], verifyMarkers=case['verify'])
    first = text[:out[0][1]] if out else text
    shift = 0
    if case['inc'] and first and out:
        equal(tuple(got[0]), (None, 0, None, None, None, 1, first), 'initial text of', text); got = got[1:]; shift = 1
    equal([[g[0], g[1], g[2], g[3], g[6]] for g in got], [[o[0], o[1], o[2], o[3], o[5]] for o in out], 'markers of', text)
    equal([list(g[4]) for g in got], [o[4] for o in out], 'contexts in', text)
    for j, (o, g) in enumerate(zip(out, got)):
        exp, vague = None, False
        if o[2] in (' ', '+') and o[4]:
            depth = len(o[4])
            for k in range(j + 1, len(out)):
                c2 = out[k][4]
                if len(c2) < depth or c2[depth-1] != o[0]: exp = k + shift; break
                # the same marker opened again at the same level: which of the two is meant by "closed" is open
                if out[k][2] in (' ', '+', '') and len(c2) == depth: vague = True; break
        if not vague: equal(g[5], exp, 'end of', o[3], 'in', text)
    # the text can be put together again
    if out: equal(first + ''.join(g[3] + g[6] for g in got), text, 'all parts together')


# ---------------------------------------------------------------- removing and replacing fields
def cases_fields():
    m = st.sampled_from(['nd', 'add', 'w', 'f', 'x', 'fig', 'wj', 'ndx', 'k', 'bk'])
    w = st.one_of(st.sampled_from(['', 'word', ' two words ', 'nd', ' ', 'א*', '*']), st.text('abc ,*é', max_size=6))
    return st.fixed_dictionaries(dict(v=st.sampled_from([2, 3]), closed=st.sampled_from([True, False, None]), m=m, first=w,
                                      toks=st.lists(st.tuples(m, st.booleans(), w, w, st.sampled_from([None, None, None, 'nd', 'it'])), max_size=6)))


def run_fields(case, rec):
    M, v, closed = case['m'], case['v'], case['closed']
    text = exp = case['first']; hit = 0; other = []
    toks = case['toks']
    for i, (m, ended, inside, after, nested) in enumerate(toks):
        if closed is True and m == M: ended = True           # "expects a close marker"
        if closed is False and m == M: ended = False
        if nested and closed is not True: nested = None
        if nested == M or (m == M and closed is True and False): nested = None
        body = inside + ('\\+%s %s\\+%s*' % (nested, 'in', nested) if nested else '')
        whole = '\\%s ' % m + body + ('\\%s*' % m if ended else '') + after
        text += whole
        if m == M:
            hit += 1
            exp += after if ended else ''
        else: exp += whole
    rec.interesting(hit > 0); rec.label('closed %s' % closed)
    with quiet(): got = MODS[v].removeUSFMCharacterField(M, text, closed)
    equal(got, exp, 'removing', M, 'closed', closed, 'from', text)
    # replacing
    text = case['first']; exp = case['first']
    groups = [[['nd', 'add'], '<b>', '</b>'], [['w'], '', ''], [['k', 'wj', 'bk'], '{', '}']]
    rep = {m: (o, c) for ms, o, c in groups for m in ms}
    for m, ended, inside, after, nested in toks:
        o, c = rep.get(m, ('\\%s ' % m, '\\%s*' % m))
        no, nc = rep.get(nested, ('\\+%s ' % nested, '\\+%s*' % nested)) if nested else ('', '')
        text += '\\%s ' % m + inside + ('\\+%s in\\+%s*' % (nested, nested) if nested else '') + ('\\%s*' % m if ended else '') + after
        exp += o + inside + (no + 'in' + nc if nested else '') + (c if ended else '') + after
    with quiet(): got = MODS[v].replaceUSFMCharacterFields([(tuple(ms), o, c) for ms, o, c in groups], text)
    equal(got, exp, 'replacing in', text)


def run_sets(case, rec):
    rec.interesting()
    for v in (2, 3):
        t = T[v]; fn, xr, al = t.getTypicalNoteSets('fn'), t.getTypicalNoteSets('xr'), t.getTypicalNoteSets('All')
        equal(list(al), list(fn) + list(xr), 'note sets'); equal(t.getTypicalNoteSets(), al)
        for s, occurs, main in ((fn, 'Footnote', 'fr'), (xr, 'Cross-reference', 'xo')):
            for x in s:
                equal(x[0], main, 'first field of', x)
                for m in x:
                    b = m.rstrip('*')
                    check(b in BY[v] and BY[v][b]['occursIn'] == occurs, 'USFM%d' % v, m, 'in a', occurs, 'set')


SUBS = [
    Sub('every marker', None, run_marker, 1, rule='every marker of both tables', exhaustive=all_markers),
    Sub('lists', None, run_lists, 1, rule='every list of both tables', exhaustive=lambda: [dict(v=2), dict(v=3)]),
    Sub('note sets', None, run_sets, 1, rule='all', exhaustive=lambda: [{}]),
    Sub('other texts', cases_unknown, run_unknown, 2500, rule='the text is not a marker'),
    Sub('splitting', cases_split, run_split, 6000, rule='more than two markers'),
    Sub('fields', cases_fields, run_fields, 4000, rule='the text has the field to remove'),
]
