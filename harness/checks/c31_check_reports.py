"""C31: the reports of checking a Bible count and list exactly what the Bible contains."""
import re, itertools, xml.etree.ElementTree as ET
from collections import Counter
from hypothesis import strategies as st
from core import *
import gen_usfm as g
import loaders as ld

PROPERTY = 'C31'
TITLES = {'mt1', 'mt2', 'mt3', 'mt4'}
HEADINGS = ('s1', 's2', 's3', 's4', 'qa')


def setup():
    global G, PRINTED
    import types
    G = sut()
    G.commandLineArguments = types.SimpleNamespace(export=False)
    PRINTED = {'v~', 'p~', 'c~'}
    for row in ET.parse(REPO + '/BibleOrgSys/DataFiles/USFM3Markers.xml').getroot():
        if row.tag != 'USFMMarker' or row.findtext('printed') != 'Yes': continue
        m, n = row.findtext('marker'), row.findtext('highestNumberSuffix')
        PRINTED.add(m)
        if n != 'None': PRINTED.update(m + str(i + 1) for i in range(int(n)))


def checked(case, order=None):
    with TempDir() as d, quiet():
        ld.write_usfm(d, case)
        bible = ld.load_usfm(d)
        bible.check()
        return bible, bible.getCheckResults(*([order] if order else []))


def words_of(text):
    """Certain words (only letters) of a printed text, and everything that may be one."""
    out = Counter()
    for w in re.split(r'[\s–—]+', text):
        core_ = w.strip('“«„"‘¿¡‹\'([{<,.”»’›?)!;:]}>%…।')
        if core_.isalpha(): out[core_] += 1
    return out


def totals(d, key='Total'):
    d = dict(d or {key: 0})
    t = d.pop(key)
    equal(t, sum(d.values()), 'total of', short(d))
    return d


def expected(bk):
    """Everything that the reports of one book should contain."""
    rows = g.model(bk)
    B = bk['BBB']
    newline = [m for m, *_ in rows if m not in ('v~', 'p~', 'cl¤')]
    listed = ['[%s]' % B] + [m + ('*' if len(list(k)) > 1 else '') for m, k in itertools.groupby(newline)]
    internal, inside_notes, chars, words = Counter(), Counter(), Counter(), Counter()
    functional = Counter()
    lists = {k: [] for k in ('Title Lines', 'Section Heading Lines', 'Descriptive Heading Lines', 'Section Cross-reference Lines', 'Footnote Lines', 'Cross-reference Lines')}
    intro = {k: [] for k in ('Main Title Lines', 'Section Heading Lines', 'Outline Title Lines', 'Outline Entry Lines')}
    leaders = Counter()
    for m, om, adj, clean, extras, C, V in rows:
        at = f'{B} {C}:{V} '
        name = {'c': 'Chapters', 'v': 'Verses', 'id': 'Book ID', 'h': 'Book Header', 'p': 'Paragraphs', 'r': 'Section Cross-References'}.get(m)
        if name: functional[name] += 1
        if m != 'cl¤': internal.update(re.findall(r'\\(\+?[a-z0-9]+\*?)', adj))
        printed = m in PRINTED
        if printed: chars.update(clean)
        if printed and m not in ('c', 'v'): words += words_of(clean)
        for typ, ix, txt, ctxt in extras:
            if typ in ('fn', 'xr', 'en'):
                inside_notes.update(re.findall(r'\\(\+?[a-z0-9]+\*?)', txt))
                words += words_of(ctxt)
                if printed: chars.update(ctxt)
            if typ in ('fn', 'xr'):
                functional['Footnotes' if typ == 'fn' else 'Cross-References'] += 1
                caller = txt.split(' ')[0]
                leaders['Footnotes' if typ == 'fn' else 'Cross-References'] += 1
                leaders["%s leader '%s'" % ('Footnote' if typ == 'fn' else 'Cross-reference', caller)] += 1
                lists['Footnote Lines' if typ == 'fn' else 'Cross-reference Lines'].append(at + "'%s'" % (txt if len(txt) <= 80 else txt[:70] + '…' + txt[-5:]))
        if m in TITLES: lists['Title Lines'].append(f"{at}Main Title {m[2:]}: '{adj}'")
        if m in HEADINGS: lists['Section Heading Lines'].append(at + ('' if m == 's1' else f'({m}) ') + f"'{adj}'")
        if m == 'd': lists['Descriptive Heading Lines'].append(f"{at}'{adj}'")
        if m == 'r': lists['Section Cross-reference Lines'].append(f"{at}'{adj}'")
        for key, names in (('Main Title Lines', 'imt1 imt2'), ('Section Heading Lines', 'is1 is2'), ('Outline Title Lines', 'iot'), ('Outline Entry Lines', 'io1 io2')):
            if m in names.split(): intro[key].append(at + ('' if m in ('imt1', 'is1', 'iot', 'io1') else f'({m}) ') + f"'{adj}'")
    return dict(newline=Counter(newline), listed=listed, internal=internal, inside_notes=inside_notes, chars=chars, words=words, functional=functional, lists=lists, intro=intro, leaders=leaders)


def no_place(lines):
    """Lines of the introduction are numbered with the structure marks; their places are compared elsewhere (the index)."""
    return [re.sub(r'^(\S+) -1:\d+ ', r'\1 -1 ', x) for x in lines]


def compare(r, w, what):
    u = r['USFMs']
    newline = totals(u['All Newline Marker Counts'])
    equal(newline, dict(w['newline']), 'line markers of', what)
    equal(u['Modified Marker List'], w['listed'], 'list of line markers of', what)
    equal(totals(u.get('All Text Internal Marker Counts')), dict(w['internal']), 'markers in the text of', what)
    equal(totals(u.get('All Footnote and Cross-Reference Internal Marker Counts')), dict(w['inside_notes']), 'markers in the notes of', what)
    equal(u['Functional Marker Counts'], dict(w['functional']), 'functional counts of', what)
    named = {'Space' if c == ' ' else 'NBSpace' if c == '\xa0' else c: n for c, n in w['chars'].items()}
    equal(totals(r['Characters']['All Character Counts']), named, 'characters of', what)
    letters = Counter()
    for c, n in totals(r['Characters']['Letter Counts']).items(): letters[c if len(c) > 1 and c in ('Space', 'NBSpace') else c.casefold()] += n
    want = Counter()
    for c, n in w['chars'].items():
        if c in ' -' or c.isalpha(): want['Space' if c == ' ' else c.casefold()] += n
    equal(dict(letters), dict(want), 'letters of', what)
    equal(totals(r['Characters'].get('Punctuation Counts')), {k: n for k, n in named.items() if k not in ('Space', '-') and not (len(k) == 1 and k.isalnum())}, 'punctuation of', what)
    got = totals(r.get('Words', {}).get('All Word Counts'), '--Total--') if r.get('Words') else {}
    equal({k: n for k, n in got.items() if k.isalpha()}, dict(w['words']), 'words of', what)
    folded = Counter()
    for k, n in got.items(): folded[k.lower()] += n
    equal(totals(r.get('Words', {}).get('Case Insensitive Word Counts'), '--Total--') if r.get('Words') else {}, dict(folded), 'words in lower case of', what)
    for part, keys in (('Headings', ['Title Lines', 'Section Heading Lines', 'Descriptive Heading Lines', 'Section Cross-reference Lines']), ('Notes', ['Footnote Lines', 'Cross-reference Lines'])):
        for k in keys: equal(no_place(r.get(part, {}).get(k, [])), no_place(w['lists'][k]), k, 'of', what)
    for k in w['intro']: equal(no_place(r.get('Introduction', {}).get(k, [])), no_place(w['intro'][k]), 'introduction', k, 'of', what)
    equal(r.get('Notes', {}).get('Leader Counts', {}), dict(w['leaders']), 'note callers of', what)


def run_reports(case, rec):
    bible, res = checked(case)
    wants = {bk['BBB']: expected(bk) for bk in case}
    books = [B for B in bible.getBookList()]
    equal([B for B in res['ByBook'] if B != 'All Books'], books, 'books reported')
    for B in books: compare(res['ByBook'][B], wants[B], B)
    both = None
    for B in books:
        w = wants[B]
        if both is None: both = {k: (dict((kk, list(v)) for kk, v in x.items()) if k in ('lists', 'intro') else x[:] if isinstance(x, list) else Counter(x)) for k, x in w.items()}
        else:
            for k, x in w.items():
                if k in ('lists', 'intro'):
                    for kk in x: both[k][kk] += x[kk]
                else: both[k] = both[k] + x
    compare(res['ByBook']['All Books'], both, 'all books')
    for part in ('Headings', 'Notes', 'Introduction'):
        for k, v in res['ByBook']['All Books'].get(part, {}).items():
            if k.endswith('Lines'): equal(res['ByCategory'][part][k], v, 'by category', part, k)
    rec.interesting(both['internal'] and both['inside_notes'] and len(both['words']) > 5)
    rec.label('%d books' % len(books), *(k for k in both['lists'] if both['lists'][k]))


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(g.BOOKS), min_size=1, max_size=3, unique=True))
    return [draw(g.book(BBB=B, max_chapters=2, max_verses=4, repeats=True, swaps=True)) for B in names]


# ---------------------------------------------------------------- faults at known places
FAULTS = ['empty heading', 'heading period', 'repeated', 'closing', 'opening', 'missing verse', 'double verse', 'chapter', 'range', 'trailing', 'leading', 'strange', 'anchor', 'unclosed', 'mt period', 'cross anchor']
ERRORS = {'USFMs', 'Versification Errors', 'Characters', 'Words', 'Headings', 'Notes', 'Speech Marks', 'Introduction', 'Controls'}


def uniq(i):
    """A word that no other number gives."""
    s = ''
    i += 26
    while i: s = 'bcdfghklmnprstvz'[i % 16] + 'aeiou'[i % 5] + s; i //= 16
    return s


@st.composite
def faulty(draw):
    B = draw(st.sampled_from(['MAT', 'GEN', 'PSA', 'ROM', 'REV']))
    n = [0]
    def words(k):
        n[0] += k
        return ' '.join(uniq(n[0] - j) for j in range(k))
    faults = draw(st.lists(st.sampled_from(FAULTS), max_size=4, unique=True))
    if 'opening' in faults and 'closing' in faults: faults.remove('closing')
    chapters = []
    for c in range(draw(st.integers(2 if 'chapter' in faults else 1, 3))):
        vs = [dict(n=str(v + 1), text=words(draw(st.integers(2, 4))) + '.', para=v == 0 or draw(st.integers(0, 2)) == 0, head=None,
                   note=draw(st.integers(0, 3)) == 0, faults=[]) for v in range(draw(st.integers(3, 6)))]
        for v in vs:
            if v['para'] and draw(st.booleans()): v['head'] = words(2)
        chapters.append(dict(n=str(c + 1), verses=vs))
    title, want = 'Matthew', []
    free = [(c, v) for c in range(len(chapters)) for v in range(len(chapters[c]['verses']))]
    def place(ok=lambda c, v: True):
        l = [x for x in free if ok(*x)]
        if not l: return None
        x = draw(st.sampled_from(l)); free.remove(x)
        return x
    last = lambda c, v: v == len(chapters[c]['verses']) - 1
    if 'chapter' in faults:
        k = draw(st.integers(1, len(chapters) - 1))
        add = draw(st.integers(1, 5))
        for ch in chapters[k:]: ch['n'] = str(int(ch['n']) + add)
        want.append(['Versification Errors', '', f"{B} ('{chapters[k]['n']}' after '{chapters[k - 1]['n']}') USFM chapter numbers out of sequence in %WORK% Bible book"])
    opened = None
    for f in faults:
        if f == 'mt period':
            title = 'Matthew.'
            want.append(['Headings', 'Possible Heading Errors', f'{B} -1:3 mt1 title ends with a period: Matthew.'])
            continue
        if f == 'chapter': continue
        x = place((lambda c, v: 0 < v and not last(c, v)) if f in ('missing verse',) else (lambda c, v: v > 0 and last(c, v)) if f == 'range' else
                  (lambda c, v: chapters[c]['verses'][v]['head']) if 'head' in f else (lambda c, v: True))
        if not x: continue
        c, v = x; ch = chapters[c]; ve = ch['verses'][v]; C, V = ch['n'], ve['n']
        before = ch['verses'][v - 1]['n'] if v else '0'
        at = f'{B} {C}:{V} '
        if f == 'empty heading':
            ve['head'] = ''
            want += [['Headings', 'Possible Heading Errors', f'{B} {C}:%{c},{v}% Missing heading text for marker s1'], ['USFMs', 'Newline Marker Errors', f"{B} {C}:%{c},{v}% Marker 's1' is empty"]]
        elif f == 'heading period':
            ve['head'] += '.'
            want.append(['Headings', 'Possible Heading Errors', f"{B} {C}:%{c},{v}% s1 heading ends with a period: {ve['head']}"])
        elif f == 'repeated':
            w = words(1)
            ve['text'] = f"{w.capitalize()} {w} {ve['text']}"
            want.append(['Words', 'Possible Repeated Word Errors', f'{at}Have possible repeated word with {w.capitalize()} {w}'])
        elif f == 'closing':
            ve['text'] += '”'
            want.append(['Speech Marks', 'Possible Matching Errors', f"{B}_{C}:{V} Unexpected '”' speech closing character"])
        elif f == 'opening':
            ve['text'] = '“' + ve['text']; opened = (c, v)
        elif f == 'missing verse': ve['gone'] = True
        elif f == 'double verse': ve['double'] = words(3) + '.'
        elif f == 'range':
            ve['n'] = f'{V}-{before}'
            want.append(['Versification Errors', '', f'{B} {C} ({V}-{before}) USFM verse range out of sequence in Bible book'])
        elif f == 'trailing':
            ve['text'] = words(1) + ' , ' + ve['text']
            want.append(['Characters', 'Possible Character Errors', f"{at}Misplaced ',' (COMMA) word trailing character"])
        elif f == 'leading':
            ve['text'] = words(1) + '( ' + ve['text']
            want.append(['Characters', 'Possible Character Errors', f"{at}Misplaced '(' (LEFT PARENTHESIS) word leading character"])
        elif f == 'strange':
            w = words(2).replace(' ', '#')
            ve['text'] = w + ' ' + ve['text']
            want.append(['Characters', 'Possible Character Errors', f"{at}Invalid '#' (NUMBER SIGN) word-building character (0x0023)"])
        elif f in ('anchor', 'cross anchor'):
            ve['note'] = False
            ve['bad'] = ['f', 'fr', 'ft'] if f == 'anchor' else ['x', 'xo', 'xt']
            ve['badtext'] = words(2)
            want.append(['Notes', 'Footnote Errors', f"{at}{'Footnote' if f == 'anchor' else 'Cross-reference'} anchor reference seems not to match: '99:98'"])
        elif f == 'unclosed':
            ve['text'] = '\\nd ' + ve['text']
            want += [['USFMs', 'Internal Marker Errors', f"{at}These markers ['nd'] appear not to be closed in ['nd']"], ['USFMs', 'Internal Marker Errors', f"{at}Marker(s) ['nd'] don't appear to be closed in v~: {ve['text']}"]]
    lines = [['id', '', g.USFM_ABBREV[B] + ' test'], ['h', '', 'Matthew'], ['toc1', '', 'Matt'], ['mt1', '', title]]
    flat = []
    for c, ch in enumerate(chapters):
        lines.append(['c', ch['n'], ''])
        prev = '0'
        for v, ve in enumerate(ch['verses']):
            if ve['head'] is not None: lines.append(['s1', '', ve['head']])
            for w in want: w[2] = w[2].replace(f'%{c},{v}%', prev)
            if ve['para']: lines.append(['p', '', ''])
            if ve.get('gone'):
                want.append(['Versification Errors', '', f"{B} {ch['n']} Missing USFM verse number(s) between '{prev}' and '{ch['verses'][v + 1]['n'].split('-')[0]}' in Bible book"])
                continue
            t = ve['text']
            first = ve['n'].split('-')[0]
            if ve['note']: t += f"\\f + \\fr {ch['n']}:{first} \\ft {words(2)}.\\f*"
            if ve.get('bad'): t += '\\%s + \\%s 99:98 \\%s %s.\\%s*' % (ve['bad'][0], ve['bad'][1], ve['bad'][2], ve['badtext'], ve['bad'][0])
            lines.append(['v', ve['n'], t]); flat.append((c, v, ch['n'], ve['n'], ve['para'] or ve['head'] is not None or (v > 0 and ch['verses'][v - 1].get('gone') and ch['verses'][v - 1]['para'])))
            prev = ve['n']
            if ve.get('double'):
                lines.append(['v', ve['n'], ve['double']]); flat.append((c, -1, ch['n'], ve['n'], False))
                want.append(['Versification Errors', '', f"{B} {ch['n']} ('{ve['n']}' after '{ve['n']}') USFM verse numbers out of sequence in Bible book"])
    if opened:
        c, v = opened
        i = next(j for j, x in enumerate(flat) if x[:2] == (c, v))
        nxt = next((x for x in flat[i + 1:] if x[4]), None)
        open_at = f"(opened at {flat[i][2]}:{flat[i][3]}:v)'"
        want.append(['Speech Marks', 'Possible Matching Errors', f"{B}_{nxt[2]}:{nxt[3]} Unclosed speech marks matching '“ {open_at}" if nxt else f"{B}_{flat[-1][2]}:{flat[-1][3]} Unclosed ['“ {open_at}] speech marks at end of book"])
    return dict(B=B, lines=lines, want=want, faults=faults)


def normal(cat, s):
    if cat == 'Speech Marks' and 'end of book' not in s: s = re.sub(r"' before .*", "'", s)
    if cat == 'USFMs': s = re.sub(r"('s1') (has no content|should always have text)", r'\1 is empty', s)
    return s


def run_faults(case, rec):
    B = case['B']
    with TempDir() as d, quiet():
        with open(f'{d}/{g.NR[B]}{g.USFM_ABBREV[B]}xyz.usfm', 'wt', encoding='utf-8') as f:
            for m, n, t in case['lines']: f.write(f'\\{m}' + (f' {n}' if n else '') + (f' {t}' if t else '') + '\n')
        bible = ld.load_usfm(d)
        bible.check()
        bible.getVersification()
        r = bible.getCheckResults()['ByBook'][B]
    got = []
    for cat in r:
        if cat not in ERRORS: continue
        for key, l in ([('', r[cat])] if isinstance(r[cat], list) else r[cat].items()):
            if cat == 'Words' and key == 'Possible Word Errors': continue
            if cat.endswith('Errors') or key.endswith('Errors'): got += [[cat, key, normal(cat, x)] for x in l]
    want = sorted([c, k, s.replace('%WORK%', bible[B].workName)] for c, k, s in case['want'])
    equal(sorted(got), want, 'errors reported')
    # the list by priority has one entry for each of the others (except of the verse numbers), at the same place
    places = Counter()
    for c, k, s in want:
        m = re.match(r'^[A-Z0-9]{3}[ _](-?\d+):(\S+) ', s)
        if m and c != 'Words' and not s.endswith("closed in ['nd']"): places[(B, m.group(1), m.group(2))] += 1
    equal(dict(Counter(p[2] for p in r.get('Priority Errors', []))), dict(places), 'places of priority errors')
    rec.label(*case['faults']); rec.interesting(len(want) > 1)


SUBS = [
    Sub('reports', cases, run_reports, 300, rule='formatting markers, notes and more than 5 different words', shards=4),
    Sub('faults', faulty, run_faults, 1500, rule='more than one error to be reported', shards=4),
]
