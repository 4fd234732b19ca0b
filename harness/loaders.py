"""Helpers that load generated books into the code under test (import only after core.sut())."""
import os
import gen_usfm as g


def write_usfm(folder, books, name='xyz', eol='\n', bom=False, encoding='utf-8'):
    os.makedirs(folder, exist_ok=True)
    for bk in books:
        B = bk['BBB']
        with open(os.path.join(folder, f'{g.NR[B]}{g.USFM_ABBREV[B]}{name}.usfm'), 'wb') as f:
            f.write((b'\xef\xbb\xbf' if bom else b'') + g.render(bk, eol).encode(encoding))
    return folder


def load_usfm(folder, name='xyz'):
    from BibleOrgSys.Formats.USFMBible import USFMBible
    b = USFMBible(folder, name)
    b.loadBooks()
    return b


def book_from_lines(lines, B, bible_class=None):
    """One book fed line by line (as any importer does)."""
    from BibleOrgSys.Bible import Bible, BibleBook
    bible = Bible()
    bible.name = bible.abbreviation = 'xyz'
    bible.objectTypeString, bible.objectNameString = 'USFM3', 'test'
    bk = BibleBook(bible, B)
    bk.objectNameString, bk.objectTypeString = 'test book', 'USFM3'
    for m, t in lines: bk.addLine(m, t)
    bible.stashBook(bk)
    if not bk._processedFlag: bk.processLines()
    return bible, bk
