"""C23: the low-level file readers return every marked field of a file, in order

The generator builds a file from structured fields (marker, how the marker ends, text, continuation
lines, blank and comment lines), so the expected result is known by construction and never parsed.
"""
import os
from pathlib import Path

from hypothesis import strategies as st

from core import Sub, TempDir, check, equal, quiet, short, sut

PROPERTY = 'C23'


def setup():
    global SFMFile, USFMFile, ESFMFile, ControlFiles, TextFile
    sut()
    from BibleOrgSys.InputOutput import SFMFile as s, USFMFile as u, ESFMFile as e, ControlFiles as c, TextFile as t
    SFMFile, USFMFile, ESFMFile, ControlFiles, TextFile = s, u, e, c, t


# ---------------------------------------------------------------------------------- generators

MARKERS = ('id', 'h', 'c', 'v', 'p', 'q1', 's1', 'rem', 'lx', 'ge', 'og', 'mn', '_sh', 'toc1', 'ps', 'v1-2', 'mt', 'x_y', 'é', 'P')
ODD = '  \\*#=|"\'/\t\u00a0\u2028\x0b\x0c\x85~\ufeff'
CHARS = st.one_of(st.sampled_from('abcdeZ019.,;:-'), st.sampled_from(ODD), st.sampled_from('éßשא本😀ﬁİ'))
TEXT = st.text(CHARS, min_size=0, max_size=12)


@st.composite
def field(draw, usfm):
    kind = draw(st.sampled_from('tttttteec' + ('aS' if usfm else '')))
    marker = draw(st.sampled_from(MARKERS))
    text = draw(TEXT)
    if kind == 'e': return {'m': marker, 'sep': '', 't': ''}
    if kind == 't': return {'m': marker, 'sep': ' ', 't': text}
    if kind == 'c': return {'m': marker, 'sep': '', 't': '\\' + draw(st.sampled_from(('add', 'w', 'f', 'nd*', ''))) + ' ' + text}
    if kind == 'a': return {'m': marker + '*', 'sep': '', 't': text}
    if kind == 'S': return {'m': marker + '\\*', 'sep': '', 't': text}


@st.composite
def sfm_file(draw, usfm=False, leading=True):
    items = []
    if leading and draw(st.integers(0, 5)) == 0:
        for _ in range(draw(st.integers(1, 2))): items.append({'k': 'c', 't': draw(continuation(usfm))})
    for _ in range(draw(st.integers(0, 9))):
        k = draw(st.sampled_from('fffffffccb#' + ('s' if usfm == 'esfm' else '')))
        if k == 'f': items.append({'k': 'f', **draw(field(bool(usfm)))})
        elif k == 'c':
            if items and any(i['k'] == 'f' for i in items): items.append({'k': 'c', 't': draw(continuation(usfm))})
        elif k == 'b': items.append({'k': 'b', 't': ''})
        elif k == 's': items.append({'k': 'b', 't': ' ' * draw(st.integers(1, 3))})
        else: items.append({'k': '#', 't': '#' + draw(TEXT)})
    markers = sorted({i['m'] for i in items if i['k'] == 'f'})
    return {'items': items, 'eol': draw(st.sampled_from(('\n', '\n', '\r\n', '\r'))), 'bom': draw(st.booleans()),
            'end': draw(st.sampled_from((True, True, False))),
            'ignore': draw(st.lists(st.sampled_from(markers + ['zz']), max_size=2, unique=True)) if draw(st.booleans()) else []}


def continuation(usfm):
    first = 'abcZ1.é本*=|"' + ('' if usfm == 'esfm' else ' \t')
    return st.builds(lambda a, b: a + b, st.sampled_from(first), TEXT)


def render(case):
    lines = []
    for i in case['items']:
        lines.append('\\' + i['m'] + i['sep'] + i['t'] if i['k'] == 'f' else i['t'])
    text = case['eol'].join(lines) + (case['eol'] if case['end'] and lines else '')
    return ('\ufeff' if case['bom'] else '') + text


def write(folder, text, encoding='utf-8', name='file.sfm'):
    path = os.path.join(folder, name)
    with open(path, 'wb') as f: f.write(text.encode(encoding))
    return path


def expected(case):
    """[marker, [pieces]] of every field, ignored ones left out"""
    result, current = [], None
    for i in case['items']:
        if i['k'] == 'f':
            current = [i['m'], [i['t']]]
            if i['m'] not in case['ignore']: result.append(current)
        elif i['k'] == 'c' and current is not None: current[1].append(i['t'])
    return result


def matches(got, want):
    """Continuation lines are joined with a space; after an empty field the space may be left out"""
    if len(got) != len(want): return False
    for (m, t), (wm, pieces) in zip(got, want):
        if m != wm: return False
        forms = {pieces[0]}
        for piece in pieces[1:]: forms = {f + ' ' + piece for f in forms} | {piece for f in forms if not f}
        if t not in forms: return False
    return True


def rec_file(case, rec):
    kinds = [i['k'] for i in case['items']]
    rec.interesting(kinds.count('f') >= 2)
    rec.label('continuations', 'c' in kinds)
    rec.label('ignored', bool(case['ignore']))
    rec.label('leading text', bool(kinds) and kinds[0] == 'c')
    rec.label('bom', case['bom'])


def run_reader(make):
    def run(case, rec):
        rec_file(case, rec)
        with TempDir() as tmp, quiet():
            path = write(tmp, render(case))
            reader = make()
            reader.read(path, ignoreSFMs=case['ignore'] or None)
        got = [tuple(x) for x in reader.lines]
        want = expected(case)
        check(matches(got, want), f"{type(reader).__name__}: the fields read differ: {short(got)} instead of {short(want)} (from {short(render(case))})")
    return run


@st.composite
def encoded_case(draw):
    case = draw(sfm_file())
    enc = draw(st.sampled_from(('latin-1', 'cp1252', 'utf-16', 'utf-8')))
    case['encoding'] = enc
    case['bom'] = False
    safe = lambda s: s if enc in ('utf-16', 'utf-8') else ''.join(c if ord(c) < 0x80 or 0xa0 <= ord(c) <= 0xff else 'é' for c in s)
    case['reader'] = draw(st.sampled_from(('sfm', 'usfm')))
    for i in case['items']:
        i['t'] = safe(i['t'])
    return case


def run_encoded(case, rec):
    rec_file(case, rec)
    if case['encoding'] == 'utf-8' and render(case)[:1] == '\ufeff': return
    with TempDir() as tmp, quiet():
        path = write(tmp, render(case), case['encoding'])
        reader = SFMFile.SFMLines() if case['reader'] == 'sfm' else USFMFile.USFMFile()
        reader.read(path, ignoreSFMs=case['ignore'] or None, encoding=case['encoding'])
    want = expected(case)
    if case['reader'] == 'usfm' and any('*' in i['m'] for i in case['items'] if i['k'] == 'f'): return
    check(matches(reader.lines, want), f"{type(reader).__name__} ({case['encoding']}): the fields read differ: {short(reader.lines)} instead of {short(want)}")


# ------------------------------------------------------------------------------------- records

@st.composite
def records_case(draw):
    key = draw(st.sampled_from(('lx', 'og', 'mn', 'Mk')))
    fields = ['ge', 'ps', 'x', 'de', 'src']
    change = [[a, b] for a, b in draw(st.lists(st.tuples(st.sampled_from(('de', 'src', 'old')), st.sampled_from(('def', 'new'))), max_size=2, unique_by=lambda t: t[0]))]
    keychange = draw(st.sampled_from((None, None, None, 'ky')))
    if keychange: change.append([keychange, key])
    ignore = draw(st.lists(st.sampled_from(('ge', 'ps', 'x', 'zz')), max_size=2, unique=True)) if draw(st.booleans()) else []
    entries = draw(st.lists(st.sampled_from(('word', 'skip', 'Two', '')), max_size=2, unique=True)) if draw(st.booleans()) else []
    items = []

    def add(m, t):
        items.append({'k': 'f', 'm': m, 'sep': ' ' if t else '', 't': t})
        for _ in range(draw(st.sampled_from((0, 0, 0, 1, 2)))): items.append({'k': 'c', 't': draw(continuation(False))})
        if draw(st.integers(0, 5)) == 0: items.append({'k': draw(st.sampled_from('b#')), 't': ''})
        if items[-1]['k'] == '#': items[-1]['t'] = '# note'

    if draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 3))): add(draw(st.sampled_from(('_sh', '_date', 'hdr'))), 'header ' + draw(TEXT))
    for _ in range(draw(st.integers(0, 5))):
        add(draw(st.sampled_from((key, keychange))) if keychange else key,
            draw(st.sampled_from(('word', 'skip', 'Two', '', 'a b', 'word'))) if draw(st.booleans()) else draw(TEXT))
        for _ in range(draw(st.integers(0, 4))): add(draw(st.sampled_from(fields)), draw(TEXT))
    for i in items:
        if i['k'] == 'f' and i['sep'] == '' and i['t']: i['sep'] = ' '
    return {'items': items, 'key': key, 'givekey': draw(st.sampled_from((True, True, True, False))), 'change': change, 'ignore': ignore, 'entries': entries,
            'eol': draw(st.sampled_from(('\n', '\r\n'))), 'bom': draw(st.booleans()), 'end': draw(st.booleans()), 'structure': draw(st.sampled_from(('list', 'dict')))}


def run_records(case, rec):
    change = {a: b for a, b in reversed(case['change'])}
    fields = []
    for i in case['items']:
        if i['k'] == 'f': fields.append([change.get(i['m'], i['m']), i['t']])
        elif i['k'] == 'c': fields[-1][1] += ' ' + i['t']
    key = case['key']
    if not case['givekey']:  # the first marker that isn't ignored
        key = next((m for m, t in fields if m not in case['ignore']), None)
    records = []
    for m, t in fields:
        if m == key or not records: records.append([])
        records[-1].append((m, t))
    want = []
    for r in records:
        if r[0][1] in case['entries']: continue
        kept = [f for f in r if f[0] not in case['ignore']]
        if kept: want.append(kept)
    rec.interesting(len(records) >= 2)
    rec.label('header', bool(records) and records[0][0][0] != key)
    rec.label('key assumed', not case['givekey'])
    rec.label('left out', len(want) < len(records))
    with TempDir() as tmp, quiet():
        path = write(tmp, render(case))
        db = SFMFile.SFMRecords()
        db.read(path, case['key'] if case['givekey'] else None, ignoreSFMs=case['ignore'] or None, ignoreEntries=case['entries'] or None,
                changePairs=[tuple(p) for p in case['change']] or None)
    got = [[tuple(f) for f in r] for r in db.records]
    equal(got, want, f"SFMRecords (key {key}): the records read differ")
    if want:
        small, large, markers, values = db.analyze()
        equal((small, large), (min(map(len, want)), max(map(len, want))), 'SFMRecords.analyze: smallest and largest record')
        seen = {}
        for r in want:
            for m, t in r: seen.setdefault(m, {})[t] = True
        equal(list(markers), list(seen), 'SFMRecords.analyze: markers')
        equal({m: list(v) for m, v in values.items()}, {m: list(v) for m, v in seen.items()}, 'SFMRecords.analyze: values')
    if want and all(r[0][0] == key for r in want):
        with quiet(): d = db.copyToDict(case['structure'])
        w = {}
        for r in want: w[r[0][1]] = list(r[1:]) if case['structure'] == 'list' else dict(r[1:])
        equal(d, w, f"SFMRecords.copyToDict({case['structure']})")
        equal(list(d), list(w), f"SFMRecords.copyToDict({case['structure']}): order of the keys")


# ------------------------------------------------------------------------------- control files

@st.composite
def control_case(draw):
    lines = []
    name = st.builds(lambda a, b: a + b, st.sampled_from('abXé本'), st.text(st.sampled_from('abcZ 0#.é"'), max_size=6)).map(str.strip)
    value = st.one_of(st.sampled_from(('True', 'yes', 'ON', 'on # comment', 'no', 'False', 'oFF#x', 'maybe', '', '0', 'True story', '#true')), TEXT.map(str.strip))
    names = draw(st.lists(name, min_size=1, max_size=5, unique=True))
    for _ in range(draw(st.integers(0, 9))):
        k = draw(st.sampled_from('sssssb#xn'))
        pad = lambda: draw(st.sampled_from(('', '', ' ', '\t', '  ')))
        if k == 's': lines.append([draw(st.sampled_from(names)), draw(value), pad(), pad(), pad(), pad()])
        elif k == 'b': lines.append('')
        elif k == '#': lines.append('#' + draw(st.sampled_from(names)) + '=' + draw(value))
        elif k == 'x': lines.append(draw(st.sampled_from(names)))
        else: lines.append(pad() + '=' + draw(value))
    return {'lines': lines, 'before': {n: draw(value) for n in draw(st.lists(st.sampled_from(names), max_size=1))},
            'eol': draw(st.sampled_from(('\n', '\r\n'))), 'end': draw(st.booleans())}


def run_controls(case, rec):
    lines, want = [], dict(case['before'])
    for line in case['lines']:
        if isinstance(line, str): lines.append(line); continue
        name, value, a, b, c, d = line
        lines.append(a + name + b + '=' + c + value + d)
        want.setdefault(name, value)
    rec.interesting(len(want) >= 2)
    rec.label('repeated', sum(isinstance(x, list) for x in case['lines']) > len(want) - len(case['before']))
    text = case['eol'].join(lines) + (case['eol'] if case['end'] and lines else '')
    with TempDir() as tmp, quiet():
        path = write(tmp, text, name='controls.txt')
        got = dict(case['before'])
        ControlFiles.readControlFile(tmp, 'controls.txt', got)
        equal(got, want, f"readControlFile: settings of {short(text)}")
        again = dict(case['before'])
        ControlFiles.readControlFile(tmp, 'controls.txt', again, haveLog=False)
        equal(again, want, f"readControlFile without log: settings of {short(text)}")
        for name, value in want.items():
            v = value.split('#', 1)[0].rstrip().lower()
            w = True if v in ('true', 'yes', 'on') else False if v in ('false', 'no', 'off') else None
            equal(ControlFiles.booleanControl(name, want), w, f"booleanControl for {name}={value!r}")
        equal(ControlFiles.booleanControl('not there', want), False, 'booleanControl for a setting that is not there')
        items = ['first']
        ControlFiles.readListFile(tmp, 'controls.txt', items)
        wl = ['first'] + list(dict.fromkeys(l for l in lines if l and not l.startswith('#')))
        equal(items, wl, f"readListFile of {short(text)}")


# ----------------------------------------------------------------------------------- text file

PIECE = st.text(st.sampled_from('ab \né本\u2028'), max_size=5)


@st.composite
def text_case(draw):
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.sampled_from('rrrrsa'))
        if k == 'r': ops.append(['r', draw(st.text(st.sampled_from('ab é'), min_size=1, max_size=2)), draw(PIECE), draw(st.sampled_from((None, None, 1, 2)))])
        else: ops.append([k])
    return {'text': draw(st.text(st.sampled_from('aab b\né本'), max_size=20)), 'ops': ops}


def run_text(case, rec):
    rec.interesting(len(case['ops']) >= 2)
    with TempDir() as tmp, quiet():
        path = write(tmp, case['text'], name='t.txt')
        t = TextFile.TextFile(folderpath=tmp, filename='t.txt')
        text = saved = case['text']
        equal(t.fileText, text, 'TextFile: text loaded')
        for op in case['ops']:
            if op[0] == 'r':
                text = text.replace(op[1], op[2]) if op[3] is None else text.replace(op[1], op[2], op[3])
                t.replace(*op[1:])
                equal(t.fileText, text, f"TextFile.replace{tuple(op[1:])}")
            elif op[0] == 's':
                t.save()
                saved = text
            else:
                t.saveAs(folderpath=tmp, filename='u.txt')
                equal(Path(tmp, 'u.txt').read_bytes().decode(), text, 'TextFile.saveAs: text written')
            equal(Path(tmp, 't.txt').read_bytes().decode(), saved, f"TextFile: the file after {op}")
        t.save()
        equal(Path(tmp, 't.txt').read_bytes().decode(), text, 'TextFile.save: text written')


SUBS = [
    Sub('usfm', lambda: sfm_file('usfm'), run_reader(lambda: USFMFile.USFMFile()), 6000, rule='at least two fields'),
    Sub('esfm', lambda: sfm_file('esfm'), run_reader(lambda: ESFMFile.ESFMFile()), 6000, rule='at least two fields'),
    Sub('sfm-lines', sfm_file, run_reader(lambda: SFMFile.SFMLines()), 5000, rule='at least two fields'),
    Sub('encodings', encoded_case, run_encoded, 3000, rule='at least two fields'),
    Sub('records', records_case, run_records, 6000, rule='at least two records'),
    Sub('controls', control_case, run_controls, 3000, rule='at least two settings'),
    Sub('text-file', text_case, run_text, 2000, rule='at least two operations'),
]
