"""Independent models of the reference tables, read straight from the XML sources in /repo with ElementTree."""
import os, glob, functools
import xml.etree.ElementTree as ET
from core import REPO

DATA = os.path.join(REPO, 'BibleOrgSys', 'DataFiles')
TYPES = ('edition', 'revision', 'translation', 'original')


@functools.lru_cache(None)
def book_orders():
    d = {}
    for f in sorted(glob.glob(os.path.join(DATA, 'BookOrders', 'BibleBookOrder_*.xml'))):
        d[os.path.basename(f)[len('BibleBookOrder_'):-4]] = [b.text for b in sorted(ET.parse(f).getroot().findall('book'), key=lambda b: int(b.get('id')))]
    return d


class Book:
    """Chapters of one book: `n` as stated, `verses` {chapter: number of verses} (a few tables skip or shift chapters)."""
    def __init__(self, n, verses):
        self.n, self.verses = n, verses
        self.regular = list(verses) == list(range(1, n + 1))
    def get(self, c): return self.verses.get(c, 0)
    def list(self): return list(self.verses.values())


@functools.lru_cache(None)
def versifications():
    """name → (CV: {BBB: Book}, omitted: {BBB: [(c,v)]})"""
    d = {}
    for f in sorted(glob.glob(os.path.join(DATA, 'VersificationSystems', 'BibleVersificationSystem_*.xml'))):
        cv, om = {}, {}
        for b in ET.parse(f).getroot().findall('BibleBookVersification'):
            B = b.find('referenceAbbreviation').text
            n = int(b.find('numChapters').text)
            verses = {}
            for e in b.findall('numVerses'):
                verses[int(e.get('chapter'))] = int(e.text)
                if e.get('omittedVerses'):
                    for v in e.get('omittedVerses').split(','):
                        om.setdefault(B, []).append((int(e.get('chapter')), int(v)))
            cv[B] = Book(n, verses)
        d[os.path.basename(f)[len('BibleVersificationSystem_'):-4]] = (cv, om)
    return d


@functools.lru_cache(None)
def org_systems():
    """extended name → dict of values"""
    d = {}
    for e in ET.parse(os.path.join(DATA, 'BibleOrganisationalSystems.xml')).getroot().findall('BibleOrganisationalSystem'):
        x = {'type': e.get('type')}
        for c in e:
            if c.tag in ('name', 'derivedFrom', 'usesText'): x.setdefault(c.tag, []).append(c.text)
            elif c.tag == 'includesBooks': x[c.tag] = c.text.split()
            elif c.tag in ('publicationDate', 'versificationSystem', 'punctuationSystem', 'bookOrderSystem', 'booksNamesSystem', 'referenceAbbreviation', 'languageCode'):
                assert c.tag not in x or c.tag == 'publicationDate', (x, c.tag)
                x[c.tag] = c.text
        ra = x['referenceAbbreviation']
        d[ra if ra.endswith('_' + x['type']) else ra + '_' + x['type']] = x
    return d


def find_org(name):
    d = org_systems()
    if name in d: return name
    for t in TYPES:
        for k, x in d.items():
            if x['referenceAbbreviation'] == name and x['type'] == t: return k
    return None


def base_value(name, key, seen=()):
    """A value of a system by name: its own, else of the (first) text it uses that has one."""
    d = org_systems()
    k = find_org(name)
    if k is None or k in seen: return None
    x = d[k]
    if key in x: return x[key]
    for t in reversed(TYPES):
        for u in x.get('usesText', []):
            r = base_value(u + '_' + t if find_org(u) == k else u, key, seen + (k,))
            if r is not None: return r
    return None


def org_value(name, key):
    d = org_systems()
    x = d[find_org(name)]
    if key in x: return x[key]
    if x['type'] == 'original': return None
    for u in x.get('usesText', []):
        r = base_value(u, key)
        if r is not None: return r
    if 'derivedFrom' in x:
        return base_value(x['derivedFrom'][0], key)
    return None
