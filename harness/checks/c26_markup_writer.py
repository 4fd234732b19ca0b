"""C26: MLWriter – random documents and call histories, against the list of tokens that were asked for."""
import os, re, html, logging, xml.etree.ElementTree as ET
from html.parser import HTMLParser
from hypothesis import strategies as st
from core import *

PROPERTY = 'C26'
COMBINED = ('p', 'a', 'b', 'em', 'i', 'sup', 'sub', 'span')
INSIDE = COMBINED[1:]


def setup():
    global G, W, X, XL, root
    G = sut()
    from BibleOrgSys.InputOutput import MLWriter as W
    from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtra as X, InternalBibleExtraList as XL
    logging.disable(logging.NOTSET); root = logging.getLogger()


class Errors(logging.Handler):
    """counts the error messages given while a call runs"""
    def __init__(self): super().__init__(logging.ERROR); self.n = 0
    def emit(self, record): self.n += 1

    def __enter__(self): self.old = root.handlers[:]; root.handlers[:] = [self]; return self
    def __exit__(self, *a): root.handlers[:] = self.old


# ---------------------------------------------------------------- escaping
TEXT = st.text(st.one_of(st.sampled_from('&<>"\'; aZé‘א𝄞'), st.characters(min_codepoint=32, exclude_categories=('Cs', 'Cc'))), max_size=25)
ESC = st.lists(st.one_of(st.sampled_from(['&', '<', '>', '"', '&amp;', '&lt;', "'", 'a', ' ', 'x;', '&&']), TEXT), max_size=8).map(''.join)


def cases_escape():
    return st.fixed_dictionaries(dict(t=ESC, cf=st.booleans(), xs=st.lists(st.tuples(st.integers(0, 40), st.text('ab &<', min_size=1, max_size=6)), max_size=4)))


def unescape(s): return s.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&amp;', '&')


def run_escape(case, rec):
    t = case['t']
    rec.interesting(any(c in t for c in '&<>"'))
    for cf in (False, True):
        e = W.MLWriter.escape_characters(t, cf)
        check(not re.search('[<>"]|&(?!amp;|lt;|gt;|quot;|apos;)', e), t, 'escaped to', e)
        equal(unescape(e), t, 'escape and back')
        if t.strip(): equal(ET.fromstring('<a b="%s">%s</a>' % (e, e)).text, t, 'XML text')
    xs = XL()
    where = sorted(min(i, len(t)) for i, _ in case['xs'])
    for i, (_, n) in zip(where, case['xs']): xs.append(X('fn', i, n, n.strip() or 'a', 'test'))
    with quiet(): e, ys = W.MLWriter.escape_characters_with_extras(t, xs, case['cf'])
    equal(unescape(e), t, 'escape with extras and back')
    equal(len(ys or []), len(xs), 'extras')
    for i, x, y in zip(where, xs, ys or []):
        rec.label('extra moved' if len(W.MLWriter.escape_characters(t[:i])) != i else 'extra')
        equal(unescape(e[:y.index]), t[:i], 'position of an extra in the escaped text')
        check(e == '' or not re.match('(amp|lt|gt|quot);', e[y.index:]) or t[i:].startswith(e[y.index:][:3]), e, y.index, 'inside an escape')
        equal(y.myType, x.myType, 'type')


# ---------------------------------------------------------------- documents
NAME = st.sampled_from(['a', 'p', 'b', 'em', 'i', 'sup', 'sub', 'span', 'div', 'verse', 'para', 'h1', 'usx', 'x-y', 'ns:e', 'längd'])
XNAME = st.sampled_from(['a', 'p', 'b', 'div', 'verse', 'para', 'usx', 'x-y', 'längd', 'span'])
GOOD = st.lists(st.one_of(st.sampled_from(['word', ' ', '  ', "it's", 'שָׁלוֹם', '¶', 'λόγος', '&amp;', '&lt;b&gt;', '&quot;', '.', '𝄞', 'a;b']), st.text('abc xyz', min_size=1, max_size=30)),
                min_size=1, max_size=6).map(''.join).filter(lambda s: s.strip())
AVAL = st.one_of(GOOD, st.integers(0, 200), st.sampled_from(['GEN 1:1', "'", '&apos;', '=', '/']))
ATTRS = st.one_of(st.none(), st.none(), st.dictionaries(st.sampled_from(['id', 'class', 'sid', 'x-a', 'number', 'Ü']), AVAL, min_size=1, max_size=4).map(lambda d: [[k, v] for k, v in d.items()]))


def cases_doc(hist):
    op = st.one_of(
        st.tuples(st.just('open'), NAME, ATTRS, st.sampled_from([None, None, None, True, False])),
        st.tuples(st.just('opentext'), NAME, ATTRS, GOOD), st.tuples(st.just('openclose'), NAME, ATTRS, GOOD), st.tuples(st.just('openclose'), NAME, ATTRS, GOOD),
        st.tuples(st.just('self'), NAME, ATTRS), st.tuples(st.just('text'), GOOD, st.sampled_from([None, None, True, False])), st.tuples(st.just('comment'), GOOD.filter(lambda s: '--' not in s)),
        st.tuples(st.just('nl'), st.integers(1, 3)), st.tuples(st.just('close')), st.tuples(st.just('close')), st.tuples(st.just('removenl'), st.booleans()),
        st.tuples(st.just('section'), st.sampled_from(['Header', 'Main', 'None'])), st.tuples(st.just('position')), st.tuples(st.just('long'), st.integers(300, 1200)))
    return st.fixed_dictionaries(dict(html=st.booleans(), mode=st.sampled_from(['All', 'All', 'None', 'Header', 'NLSpace', 'default']), indent=st.sampled_from([2, 2, 0, 3]), eol=st.sampled_from('llw'),
                                      bom=st.booleans(), noauto=st.booleans(), selfspace=st.booleans(), auto=st.booleans(), finalnl=st.booleans(), aform=st.sampled_from(['list', 'dict', 'tuple']),
                                      folder=st.booleans(), ops=st.lists(op, max_size=hist)))


def build(case, w, folder):
    """makes the calls; returns the tokens [kind, …, glued to the next one, depth]"""
    A = lambda a: None if a is None else dict(a) if case['aform'] == 'dict' else (a[0][0], str(a[0][1])) if case['aform'] == 'tuple' and len(a) == 1 else [tuple(x) for x in a]
    toks, stack, positions = [], ['root'], []
    H = case['html']

    def tok(kind, *x, glue=False): toks.append([kind, *x, dict(glue=glue, ended=True, nl=0, depth=len(stack))])

    w.writeLineOpen('root'); toks.append(['open', 'root', [], dict(glue=False, nl=0, depth=0)])
    flat = []
    for o in case['ops']: flat += [('text', 'long text ' * (o[1] // 10), None)] if o[0] == 'long' else [o]
    for o in flat:
        k = o[0]; d = len(stack)
        info = dict(glue=False, nl=0, depth=d)
        if k == 'open':
            w.writeLineOpen(o[1], A(o[2]), o[3]) if o[3] is not None else w.writeLineOpen(o[1], A(o[2]))
            info['glue'] = o[3] if o[3] is not None else H and o[1] in COMBINED
            toks.append(['open', o[1], o[2] or [], info]); stack.append(o[1])
        elif k == 'opentext':
            w.writeLineOpenText(o[1], o[3], A(o[2])); toks.append(['open', o[1], o[2] or [], dict(info, glue=True)])
            toks.append(['text', o[3], info]); stack.append(o[1])
        elif k == 'openclose':
            n = w.writeLineOpenClose(o[1], o[3], A(o[2])); info['glue'] = H and o[1] in INSIDE
            toks += [['open', o[1], o[2] or [], dict(info, glue=True)], ['text', o[3], dict(info, glue=True)], ['close', o[1], info]]
        elif k == 'self': w.writeLineOpenSelfclose(o[1], A(o[2])); toks.append(['self', o[1], o[2] or [], info])
        elif k == 'text':
            w.writeLineText(o[1], noNL=o[2]) if o[2] is not None else w.writeLineText(o[1])
            info['glue'] = o[2] if o[2] is not None else H and stack[-1] in COMBINED
            toks.append(['text', o[1], info])
        elif k == 'comment': w.writeLineComment(o[1]); toks.append(['comment', o[1], info])
        elif k == 'nl':
            w.writeNewLine(o[1]); toks[-1][-1]['nl'] += o[1]; toks[-1][-1]['glue'] = False
        elif k == 'close':
            if len(stack) == 1: continue
            t = stack.pop(); w.writeLineClose(t); toks.append(['close', t, dict(info, glue=H and t in INSIDE, depth=len(stack))])
        elif k == 'removenl':
            i = toks[-1][-1]
            if case['mode'] in ('All', 'default') and not i['glue'] and not i['nl'] and not i.get('flushed') and not i.get('removed'):
                w.removeFinalNewline(o[1]) if o[1] else w.removeFinalNewline()
                i['removed'] = True
                i['glue'] = o[1]  # without suppressing it, the indent of the next line stays
                if not o[1]: i['indent only'] = True
        elif k == 'section': w.setSectionName(o[1])
        elif k == 'position': positions.append((w.getFilePosition(), len(toks))); toks[-1][-1]['flushed'] = True
    if case['auto']:
        with quiet(): w.autoClose()
    else:
        for t in reversed(stack): w.writeLineClose(t)
        w.close(writeFinalNL=case['finalnl'])
    while stack:
        t = stack.pop(); toks.append(['close', t, dict(glue=H and t in INSIDE, nl=0, depth=len(stack))])
    return toks, positions


def token_text(t, case):
    k = t[0]
    attrs = ''.join(' %s="%s"' % (a, v) for a, v in t[2]) if k in ('open', 'self') else ''
    return dict(open=lambda: '<%s%s>' % (t[1], attrs), close=lambda: '</%s>' % t[1], self=lambda: '<%s%s%s/>' % (t[1], attrs, ' ' if case['selfspace'] else ''),
                text=lambda: t[1], comment=lambda: '<!-- %s -->' % t[1])[k]()


def run_doc(case, rec):
    H = case['html']
    rec.interesting(len(case['ops']) > 3); rec.label('HTML' if H else 'XML', case['mode'])
    with TempDir() as d, Errors() as errors:
        path = os.path.join(d, 'x.xml')
        args = ('x.xml', d) if case['folder'] else (path,)
        w = W.MLWriter(*args, outputType='HTML') if H else W.MLWriter(*args)
        if case['mode'] != 'default': w.setHumanReadable(case['mode'], case['indent'])
        w.spaceBeforeSelfcloseTag = case['selfspace']
        w.start(lineEndings=case['eol'], noAutoXML=case['noauto'], writeBOM=case['bom'])
        toks, positions = build(case, w, d)
        equal(errors.n, 0, 'error messages about a correct document')
        raw = open(path, 'rb').read()
    check(raw.startswith(b'\xef\xbb\xbf') == case['bom'], 'BOM', raw[:9])
    data = raw.decode('utf-8-sig')
    nl = '\n' if case['eol'] == 'l' else '\r\n'
    if nl == '\r\n': check(not re.search('(?<!\r)\n', data), 'bare newline')
    else: check('\r' not in data, 'carriage return')
    decl = '<?xml version="1.0" encoding="utf-8"?>'
    if not H and not case['noauto']: check(data.startswith(decl), 'XML declaration', data[:60])
    body = data[len(decl):] if data.startswith(decl) else data
    check(H or case['noauto'] or data.startswith(decl), 'declaration')
    # 1. the bytes: every token, once, in order, with only white space added where that is allowed
    pos = len(body) - len(body.lstrip()); ends = []
    for i, t in enumerate(toks):
        want = token_text(t, case)
        check(body.startswith(want, pos), 'token', want, 'but the file has', body[pos:pos+60])
        pos += len(want); ends.append(pos)
        m = re.compile(r'\s*').match(body, pos)
        gap = m.group()
        nxt = toks[i+1] if i + 1 < len(toks) else None
        inf = t[-1]
        if nxt and nxt[0] == 'text': gap = gap[:len(gap)-(len(nxt[1]) - len(nxt[1].lstrip()))] if nxt[1] != nxt[1].lstrip() else gap
        if nxt and inf['glue']: equal(gap, '', 'white space added after', want)
        elif nxt and case['mode'] in ('All', 'default'):
            step = case['indent'] if case['mode'] == 'All' else 2
            depth = nxt[-1]['depth']
            ind = ' ' * step * depth
            exp = ('' if inf.get('removed') else nl) + nl * inf['nl'] + ind
            if not inf.get('was glued'): check(gap in (exp, nl * inf['nl'] if inf['nl'] else exp), 'layout after', want, 'is', gap, 'not', exp)
        pos += len(gap)
    check(body[pos:].strip() == '', 'left over', body[pos:])
    # 2. byte positions given out while writing
    off = len(raw) - len(data.encode()) ; start = len(data) - len(body)
    for p, n in positions:
        pre = raw[:p].decode('utf-8-sig')[start:]
        check(ends[n-1] <= len(pre) and (n == len(toks) or pre.rstrip() == body[:ends[n-1]].rstrip()), 'file position', p, 'after token', n)
    # 3. the parsed tree
    if not H:
        parsed = events(ET.fromstring(raw.decode('utf-8-sig').replace('ns:e', 'ns-e')))
        equal(parsed, merge(toks, 'ns:e'), 'parsed document')
    else:
        P = Collect(); P.feed(data); P.close()
        equal(squash(P.out), merge(toks), 'parsed document')


class Collect(HTMLParser):
    def __init__(self): super().__init__(convert_charrefs=True); self.out = []
    def handle_starttag(self, t, a): self.out.append(['open', t, sorted((k, v) for k, v in a)])
    def handle_startendtag(self, t, a): self.out += [['open', t, sorted((k, v) for k, v in a)], ['close', t]]
    def handle_endtag(self, t): self.out.append(['close', t])
    def handle_data(self, d): self.out.append(['text', d])


def squash(out):
    r = []
    for x in out:
        if x[0] == 'text':
            s = ' '.join(x[1].split())
            if not s: continue
            if r and r[-1][0] == 'text': r[-1][1] += ' ' + s; continue
            x = ['text', s]
        r.append(x)
    return [[x[0], x[1].replace(' ', '')] if x[0] == 'text' else x for x in r]


def events(el):
    out = [['open', el.tag, sorted(el.attrib.items())]]
    if el.text: out.append(['text', el.text])
    for c in el:
        out += events(c)
        if c.tail: out.append(['text', c.tail])
    return squash(out + [['close', el.tag]])


def merge(toks, ns=None):
    f = (lambda n: n.replace('ns:e', 'ns-e')) if ns else (lambda n: n.lower())
    g = (lambda n: n) if ns else (lambda n: n.lower())
    out = []
    for t in toks:
        if t[0] in ('open', 'self'): out.append(['open', f(t[1]), sorted((g(a), html.unescape(str(v))) for a, v in t[2])])
        if t[0] in ('close', 'self'): out.append(['close', f(t[1])])
        if t[0] == 'text': out.append(['text', html.unescape(t[1])])
    return squash(out)


# ---------------------------------------------------------------- wrong calls
BADTEXT = ['a < b', 'a > b', 'say "x"', 'AT&T', 'a & b', '&nosuch;', 'x &amp', 'ok &amp; & b', '&amp;&bad;', '']
BADNAME = ['', 'a<b', 'a>', 'a"b']


def cases_wrong():
    return st.fixed_dictionaries(dict(html=st.booleans(), strict=st.booleans(), opened=st.lists(st.sampled_from(['div', 'p', 'b', 'verse']), max_size=3),
                                      what=st.sampled_from(['close', 'extra close', 'unclosed', 'text', 'tag', 'attr name', 'attr value', 'twice', 'removenl', 'eol', 'mode', 'type']),
                                      x=st.integers(0, 9), call=st.integers(0, 3), before=st.text('abc ', min_size=1, max_size=9).filter(lambda s: s.strip())))


def run_wrong(case, rec):
    what, x = case['what'], case['x']
    rec.interesting(); rec.label(what)
    with TempDir() as d, Errors() as errors:
        old = G.strictCheckingFlag; G.strictCheckingFlag = case['strict']
        try: w = W.MLWriter('x.xml', d, 'HTML' if case['html'] else 'XML')
        finally: G.strictCheckingFlag = old
        refused = False
        try:
            if what == 'eol': w.start(lineEndings='xmac'[x % 4] if x % 4 else 'x')
            elif what == 'mode': w.setHumanReadable(['all', 'Some', '', 'NONE'][x % 4])
            elif what == 'type': w.setOutputType(['xml', 'PDF', '', 'html'][x % 4])
            else:
                w.start()
                w.writeLineOpen('root')
                for t in case['opened']: w.writeLineOpen(t)
                w.writeLineText(case['before'])
                equal(errors.n, 0, 'errors before the mistake')
                if what == 'close': w.writeLineClose(['section', 'rooot', 'x', 'ul'][x % 4])
                elif what == 'extra close':
                    for t in reversed(['root'] + case['opened']): w.writeLineClose(t)
                    equal(errors.n, 0, 'errors before the mistake')
                    w.writeLineClose('root')
                elif what == 'unclosed': w.close()
                elif what == 'twice': w.start()
                elif what == 'removenl':
                    if case['call'] % 2: w.setHumanReadable('None'); w.writeLineText('more')
                    else: w.getFilePosition()
                    w.removeFinalNewline()
                elif what == 'text':
                    b = BADTEXT[x % len(BADTEXT)]
                    b = case['before'] + b if b else b
                    [lambda: w.writeLineText(b), lambda: w.writeLineOpenText('q', b), lambda: w.writeLineOpenClose('q', b, ('a', 'b')), lambda: w.writeLineComment(b)][case['call']]()
                elif what == 'tag':
                    b = BADNAME[x % 4]
                    [lambda: w.writeLineOpen(b), lambda: w.writeLineOpenText(b, 'x'), lambda: w.writeLineOpenClose(b, 'x'), lambda: w.writeLineOpenSelfclose(b)][case['call']]()
                else:
                    b = BADNAME[x % 4]
                    a = (b, 'v') if what == 'attr name' else ('n', b)
                    a = [a, [('k', 'w'), a], {a[0]: a[1]}][x % 3]
                    [lambda: w.writeLineOpen('q', a), lambda: w.writeLineOpenText('q', 'x', a), lambda: w.writeLineOpenClose('q', 'x', a), lambda: w.writeLineOpenSelfclose('q', a)][case['call']]()
        except Violation: raise
        except Exception: refused = True
        finally:
            try: w.close()
            except Exception: pass
        check(refused or errors.n, 'a mistake was neither refused nor reported:', what)
        if case['strict']: check(refused, 'a mistake was not refused in strict mode:', what)


SCRIPT = '''
import sys, os
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import core; core.ensure_environment(); core.sut()
from BibleOrgSys.InputOutput.MLWriter import MLWriter
w = MLWriter('x.xml', sys.argv[3]); w.start(); w.writeLineOpen('r'); w.writeLineOpenClose('t', chr(233)+chr(0x5d0)+chr(0x1d11e)); w.autoClose()
'''


def run_locale(case, rec):
    import subprocess, sys
    rec.interesting()
    with TempDir() as d:
        with open(os.path.join(d, 's.py'), 'w') as f: f.write(SCRIPT)
        env = dict(os.environ, LC_ALL=case['locale'], PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', LANG=case['locale'])
        r = subprocess.run([sys.executable, os.path.join(d, 's.py'), REPO, os.path.join(VERIF, 'harness'), d], env=env, capture_output=True, timeout=120)
        try: text = ET.parse(os.path.join(d, 'x.xml')).find('t').text
        except Exception as e: raise Violation('file written in the %s locale cannot be read: %r %s' % (case['locale'], e, r.stderr[-300:]))
        equal(text, '\u00e9\u05d0\U0001d11e', 'text written in the locale', case['locale'])


SUBS = [
    Sub('other locales', None, run_locale, 1, rule='every case', exhaustive=lambda: [dict(locale=x) for x in ('POSIX', 'C.UTF-8')]),
    Sub('escapes', cases_escape, run_escape, 4000, rule='the text has a character to escape'),
    Sub('documents', lambda: cases_doc(25), run_doc, 4000, rule='more than three calls'),
    Sub('long documents', lambda: cases_doc(120), run_doc, 400, rule='more than three calls'),
    Sub('wrong calls', cases_wrong, run_wrong, 1500, rule='every case'),
]
