#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


I = 'BibleOrgSys/Internals/'
F = 'BibleOrgSys/Formats/'
R = 'BibleOrgSys/Reference/'
M = 'BibleOrgSys/Misc/'

prop('C01', 'Loading a USFM Bible keeps every word of every line, in order and in its place',
     'After loading a Bible book written in USFM, the loaded book holds exactly the text of the file: every line\'s text under its own marker, in file order, each verse\'s text under its own chapter and verse number (including bridges, suffixes and repeated verses), with nothing lost, duplicated, moved or invented apart from the documented normalisations (white space at line ends, straight quote pairs, unnumbered markers getting the digit 1, paragraph text split from its paragraph marker). Loading the same book via a folder, via a single line-by-line feed or via the ESFM reader yields the same content.',
     ['inputs'], 'all well-formed USFM books: any marker mix, chapters, verses, verse bridges, empty lines, headings, lists, poetry, introductions, Unicode text',
     'No stable test loads any Bible book; the data-dependent tests need Bible files that are not in the repository.',
     [F+'USFMBible.py', F+'USFMBibleBook.py', F+'ESFMBibleBook.py', 'BibleOrgSys/InputOutput/USFMFile.py', I+'InternalBibleBook.py'],
     [('addLine / processLines', I+'InternalBibleBook.py'), ('loadUSFMBibleBook', F+'USFMBibleBook.py')])
prop('C02', 'Notes, cross-references and character formatting separate exactly from text',
     'For every line of a loaded book, the clean text is the line without notes, figures, word attributes and character formatting, while the full text gives back the original line exactly; each note or other extra (also one attached to a chapter or verse number) is kept once, in order, with its type, its own text and the position in the text where it stood, and its clean text is its words without markers and without its caller.',
     ['inputs'], 'all texts with any number and order of footnotes, endnotes, cross-references, figures, words with attributes and nested or adjacent character markers',
     'No stable test reaches the note extraction code.',
     [I+'InternalBibleBook.py', I+'InternalBibleInternals.py'],
     [('__processLineFix', I+'InternalBibleBook.py'), ('InternalBibleEntry.getFullText', I+'InternalBibleInternals.py')])
prop('C03', 'Every loaded book has properly opened and closed structure markers',
     'In every loaded book each structural section (headers, introduction, chapters list, each chapter, verse, paragraph, poetry or list level) that is opened is closed exactly once, before the next one of its kind opens and before the end of the book (a paragraph may run on across a chapter boundary), a section heading is never inside a paragraph, and closing markers never appear without their opening one; adding this structure changes neither the text nor its order.',
     ['inputs'], 'all books, whatever the order of headings, introductions, chapters, verses, paragraphs, poetry and lists',
     'No stable test loads any book.',
     [I+'InternalBibleBook.py'], [('addNestingMarkers', I+'InternalBibleBook.py')])
prop('C04', 'The chapter/verse index finds every line of a book exactly once',
     'Looking up any chapter and verse of a loaded book returns exactly the lines of that verse (each verse of a bridge finds the bridge), every line of the book is reachable from exactly one index entry, lines before chapter 1 are numbered in order, the headings and paragraph starts that introduce a verse go with that verse, and a chapter or verse that is not in the book is reported as missing.',
     ['inputs'], 'all loadable books and all chapter/verse numbers',
     'No stable test builds an index.',
     [I+'InternalBibleIndexes.py', I+'InternalBibleBook.py'],
     [('InternalBibleBookCVIndex.makeBookCVIndex', I+'InternalBibleIndexes.py'), ('InternalBibleBookCVIndex.getVerseEntries', I+'InternalBibleIndexes.py')])
prop('C05', 'The section index divides a book into consecutive, complete sections',
     'The section index of a book lists its sections in book order without overlap: the headers, the introduction sections, and each part headed by a section heading (or each chapter where there are none), each starting at its heading with the heading\'s text and the references of its first and last verse or part verse. Every verse and heading is in exactly one section, and looking up a section gives exactly its lines.',
     ['inputs'], 'all loadable books with any placement of section headings',
     'No stable test builds a section index.',
     [I+'InternalBibleIndexes.py'], [('InternalBibleBookSectionIndex.makeBookSectionIndex', I+'InternalBibleIndexes.py')])
prop('C06', 'Verse text, context and range queries return exactly the requested verses',
     'Asking a loaded Bible for a verse, a chapter, a whole book or a range of verses (also across chapters) returns exactly the lines of the verses asked for, in order, with the list of the structural markers open at that point; verse text queries return exactly that verse\'s words; a missing book, chapter or verse is reported rather than answered with other text.',
     ['inputs', 'histories'], 'all loaded Bibles, all references and ranges, in any order of queries',
     'No stable test loads a Bible.',
     [I+'InternalBible.py', I+'InternalBibleBook.py', I+'InternalBibleIndexes.py'],
     [('getContextVerseData / getContextVerseDataRange / getVerseText', I+'InternalBible.py')])
prop('C07', 'The reported versification of a book matches its chapters and verses',
     'For every loaded book the reported versification gives, for each chapter, its last verse number, and exactly the omitted, combined (bridged) and reordered verses that the book contains; the number of chapters and verses reported, and the discovered counts of verses, headings, notes, figures and words, are those of the same text.',
     ['inputs'], 'all loadable books with any verse numbering: gaps, bridges, suffixed verses, out-of-order verses, missing chapters',
     'No stable test reaches these functions.',
     [I+'InternalBibleBook.py'], [('getVersification', I+'InternalBibleBook.py')])
prop('C08', 'Searching a Bible finds every occurrence and nothing else',
     'A text search returns every place, and only those places, where the search text occurs in the chosen books, markers, chapters and verses under the chosen options (case, whole words, introductions, headings, notes, word by word), each with its right book, chapter, verse and surrounding text.',
     ['inputs', 'configurations'], 'all loaded Bibles, all search texts and all combinations of search options',
     'No stable test runs a search.',
     [I+'InternalBible.py'], [('findText', I+'InternalBible.py')])
prop('C09', 'Saving and restoring a Bible as a pickle gives back the same Bible',
     'A Bible or book saved as a pickle (single object or packaged pickled Bible, with or without metadata) and loaded again has the same books, entries, notes, indexes, names and settings, and can be queried and exported with identical results.',
     ['inputs', 'histories'], 'all loadable Bibles',
     'No stable test pickles a Bible.',
     [F+'PickledBible.py', I+'InternalBible.py', I+'InternalBibleBook.py', 'BibleOrgSys/BibleWriter.py'],
     [('toPickledBible / loadBooks', F+'PickledBible.py'), ('pickleBook', I+'InternalBibleBook.py')])
prop('C10', 'Exporting to USFM 2, USFM 3 or ESFM and loading that again gives the same Bible',
     'A Bible exported as USFM 2, USFM 3 or ESFM loads again with the same books, chapters, verses, paragraphs, headings, text and notes as the original, and exporting that again gives the same files.',
     ['inputs'], 'all loadable Bibles whose content the format can express',
     'No stable test exports anything.',
     ['BibleOrgSys/BibleWriter.py', F+'USFMBible.py', F+'ESFMBible.py'], [('toUSFM2 / toUSFM3 / toESFM', 'BibleOrgSys/BibleWriter.py')])
prop('C11', 'XML exports carry the verse text faithfully and can be loaded again',
     'USX 2 and 3, USFX, OSIS, Zefania, Haggai and OpenSong exports are well-formed XML that hold each verse\'s text exactly once under the right book, chapter and verse, without codes, notes or headings in it. Loading exported USX or Zefania files again gives back the same books, chapters, verses and verse text, as long as the text has no notes, character formatting, word attributes or verse bridges.',
     ['inputs'], 'all loadable Bibles, including special XML characters, notes, poetry, headings and verse bridges',
     'No stable test exports or imports these formats.',
     ['BibleOrgSys/BibleWriter.py', F+'USXXMLBible.py', F+'USFXXMLBible.py', F+'OSISXMLBible.py', F+'ZefaniaXMLBible.py', F+'HaggaiXMLBible.py', F+'OpenSongXMLBible.py'],
     [('toUSXXML … toOpenSongXML', 'BibleOrgSys/BibleWriter.py')])
prop('C12', 'Plain-text and Bible-program module exports carry every verse to its right place',
     'Each verse-per-line, text and Bible-program module export (theWord, MySword, MyBible, e-Sword, EasyWorship, Forge VPL, plain text, Drupal, SwordSearcher, BCV files, pseudo-USFM) holds every non-empty verse of the Bible exactly once, under the right book, chapter and verse number, with all of its text (without notes and formatting) and no heading or text of another verse. Bridged verses, verses starting with or continued by paragraphs, poetry and lists, and verses missing from the Bible or from the versification do not shift, drop or duplicate other verses. Loading a theWord, MySword, e-Sword, MyBible, EasyWorship, Forge, Drupal or SwordSearcher export of an unbridged (for the first four also prose) Bible with its own importer gives back the same verse texts.',
     ['inputs'], 'all loadable Bibles',
     'No stable test exports or imports these formats.',
     ['BibleOrgSys/BibleWriter.py', F+'theWordBible.py', F+'MySwordBible.py', F+'MyBibleBible.py', F+'ESwordBible.py', F+'VPLBible.py', F+'DrupalBible.py', F+'ForgeForSwordSearcherBible.py'],
     [('totheWord … toVPL', 'BibleOrgSys/BibleWriter.py')])
prop('C13', 'Exporting is repeatable, complete and leaves the Bible unchanged',
     'Every text, document, web, module and XML exporter can be run on any loaded USFM Bible, alone or after other exporters in any order, without changing the loaded Bible, and repeating it gives the same files (apart from times and archives). The web pages have matching tags, unique ids, links that lead somewhere, and hold every verse text at its verse; the Markdown and LaTeX documents hold the (plain-word) verse texts in order. The word lists agree in all four formats and count every word of titles, introductions, section headings, verses and notes exactly.',
     ['inputs', 'histories'], 'all loadable Bibles, all exporters and sequences of them',
     'No stable test exports anything.',
     ['BibleOrgSys/BibleWriter.py'], [('BibleWriter.to*', 'BibleOrgSys/BibleWriter.py')])
prop('C14', 'Verse keys parse, compare, order, list and iterate references consistently',
     'A single, multiple or ranged verse key made from any well-formed reference string or tuple gives back exactly that book, chapter, verse, suffix and index in every accessor, order, comparison, containment test and textual form (and making a key from its own text gives an equal key with an equal hash); lists and ranges expand to exactly their verses in order; malformed references are refused rather than turned into another reference.',
     ['inputs'], 'all well-formed and near-miss reference strings, tuples, lists and ranges',
     'Only interactive demonstrations exercise the keys; no stable test does.',
     [R+'VerseReferences.py'], [('SimpleVerseKey, SimpleVersesKey, VerseRangeKey, FlexibleVersesKey', R+'VerseReferences.py')],
     technique='property-based testing (Hypothesis) against an independent reference model of reference parsing and expansion',
     note='random structured references and near-misses; about 18 000 cases per quick run')
prop('C15', 'Human-typed Bible references parse to exactly the verses they name',
     'Any reference string built from book names or abbreviations, chapters, verses, verse lists and ranges parses to exactly the list of verses it names, expands to exactly the verses between the end points, reports references that are outside the versification as not valid, and round-trips through its OSIS and readable forms.',
     ['inputs'], 'all reference strings the documented syntax allows, over all books of the organisational system',
     'The stable tests check two short fixed lists of good and bad strings.',
     [R+'BibleReferences.py'], [('parseReferenceString', R+'BibleReferences.py')])
prop('C16', 'Book codes and their numbers, abbreviations and sorting are consistent',
     'For every book code the number, OSIS, USFM, USX, Swete, Bible program and other abbreviations and the chapter counts are those of the published table; every lookup from an abbreviation, number or English name text gives back the book it belongs to, and never another one; sorting any list of book codes or references gives the documented order with nothing lost.',
     ['inputs'], 'all book codes, all abbreviations and texts, all lists of references',
     'The stable tests look up a handful of codes and check only non-emptiness of most tables.',
     [R+'BibleBooksCodes.py', R+'Converters/BibleBooksCodesConverter.py', 'BibleOrgSys/BibleOrgSysGlobals.py'], [('BibleBooksCodes', R+'BibleBooksCodes.py')],
     technique='property-based testing (Hypothesis) and exhaustive enumeration against a model read independently from the XML table',
     note='all books exhaustively; random texts and reference lists')
prop('C17', 'Book orders and organisational systems follow their published definitions',
     'For every book order and organisational system, positions, previous and next books, book lists, containment, inherited settings, chapter and verse numbers and absolute verse numbers agree with the published tables, are mutually inverse, and do not depend on which other systems were used before.',
     ['inputs', 'histories'], 'all systems, all books, all queries in any order',
     'The stable tests make a few calls on one system each.',
     [R+'BibleOrganisationalSystems.py', R+'BibleBookOrders.py'], [('BibleOrganisationalSystem', R+'BibleOrganisationalSystems.py'), ('BibleBookOrderSystem', R+'BibleBookOrders.py')])
prop('C18', 'Versification systems decide validity and expand ranges exactly',
     'For every versification system, chapter counts, verse counts, omitted verses and the validity of any reference are those of the published table, and expanding a range gives exactly the references from the first to the last in order, within and across chapters and books, or refuses it.',
     ['inputs'], 'all 26 systems, all references and ranges',
     'The stable tests make a few calls on one or two systems.',
     [R+'BibleVersificationSystems.py'], [('isValidBCVRef, expandCVRange', R+'BibleVersificationSystems.py')])
prop('C19', 'Book names and abbreviations of every language find the right book',
     'For every language system each default name, abbreviation and alternative input finds its own book (also with another form of its leading number or word), any shortening that only one of the listed books has finds that book, and an ambiguous or unknown text finds nothing but what the general book codes make of it. Over all systems an exact name is found before a longer one, and the names, abbreviations and divisions given out for a book are the published ones.',
     ['inputs'], 'all language systems, all names and shortenings, arbitrary texts',
     'The stable tests look up a few names.',
     [R+'BibleBooksNames.py', R+'Converters/BibleBooksNamesConverter.py'], [('expandBibleNamesInputs, BibleBooksNamesSystem', R+'BibleBooksNames.py')])
prop('C20', 'USFM markers and their classifications agree with the marker table',
     'For every USFM marker the kind, level, numbering, closing, nesting and content classifications and the number-to-standard-form conversions agree with the published marker table, and splitting any text into its markers finds each marker of the text, once, in order, with its position and its text.',
     ['inputs'], 'all markers, all texts with markers',
     'The stable tests call each function for a few markers and mostly print the results.',
     [R+'USFM3Markers.py', R+'USFM2Markers.py'], [('USFM3Markers', R+'USFM3Markers.py')])
prop('C21', 'Reference-data converters turn every XML table into the same data everywhere',
     'Every reference-data converter reads any valid table of its kind without losing or changing an entry, refuses or reports invalid ones, and its Python data, pickle and JSON exports hold the same information as the XML source.',
     ['inputs'], 'all reference tables: the shipped ones and generated variants',
     'Most converters have no stable test, those that have only count entries.',
     [R+'Converters/BibleBooksCodesConverter.py', R+'Converters/BibleVersificationSystemsConverter.py', R+'Converters/BibleBookOrdersConverter.py', R+'Converters/BibleOrganisationalSystemsConverter.py', R+'Converters/BibleBooksNamesConverter.py', R+'Converters/BiblePunctuationSystemsConverter.py', R+'Converters/USFM3MarkersConverter.py', R+'Converters/ISO_639_3_LanguagesConverter.py'],
     [('importDataToPython, exportDataToJSON, pickle', R+'Converters/BibleBooksCodesConverter.py')])
prop('C22', 'Language codes and punctuation systems answer exactly as published',
     'For every language code and name the lookups by code, exact name and part of a name return exactly the published languages with their scope and type; every punctuation system gives its published characters.',
     ['inputs'], 'all languages, arbitrary texts, all punctuation systems',
     'The stable tests make a few calls.',
     [R+'ISO_639_3_Languages.py', R+'BiblePunctuationSystems.py'], [('ISO_639_3_Languages', R+'ISO_639_3_Languages.py')])
prop('C23', 'The low-level file readers return every marked field of a file, in order',
     'The USFM, ESFM and standard-format line and record readers return every field of a file in order with its marker and its complete text, joining continuation lines, leaving out only the ignored markers, splitting records at the key marker, and coping with byte-order marks, blank lines and any line endings; control files give back exactly the settings written in them.',
     ['inputs'], 'all files of these formats',
     'No stable test reads such a file.',
     ['BibleOrgSys/InputOutput/USFMFile.py', 'BibleOrgSys/InputOutput/ESFMFile.py', 'BibleOrgSys/InputOutput/SFMFile.py', 'BibleOrgSys/InputOutput/ControlFiles.py'],
     [('SFMLines, SFMRecords, USFMFile', 'BibleOrgSys/InputOutput/SFMFile.py')])
prop('C24', 'Bible files and Bible formats in a folder are recognised correctly',
     'In a folder of USFM (or USX) book files named after one template, the filename finders return exactly the book files, each with its right book and in book order, whatever other files and folders are there; in strict mode files with other contents are left out. In a folder (or its only subfolder with data) holding a Bible in one of the known formats, the unknown-Bible search names that format and autoloading gives that class with those books; web pages, TeX, Markdown, plain text, word lists and unrelated files are not taken for a Bible, and searching changes no file.',
     ['inputs', 'configurations'], 'all folders: naming templates, extra files, formats',
     'The stable tests only check construction and printing on an absent folder.',
     ['BibleOrgSys/InputOutput/USFMFilenames.py', 'BibleOrgSys/InputOutput/USXFilenames.py', 'BibleOrgSys/UnknownBible.py'],
     [('USFMFilenames', 'BibleOrgSys/InputOutput/USFMFilenames.py'), ('UnknownBible.search', 'BibleOrgSys/UnknownBible.py')])
prop('C25', 'General text and file helpers do exactly what they document for any input',
     'The shared helpers (file name and ID cleaning, word punctuation stripping, accents, string adjustments, XML escaping, XML tree helpers, file comparison, peeking, pickling, backups, verbosity) give the documented result for every input: idempotent where they clean, invertible where they encode, and total on all strings.',
     ['inputs'], 'all strings and files',
     'One helper has a single-value test.',
     ['BibleOrgSys/BibleOrgSysGlobals.py'], [('makeSafeFilename … pickleObject', 'BibleOrgSys/BibleOrgSysGlobals.py')])
prop('C26', 'The markup writer produces well-formed documents with exactly the given content',
     'Any sequence of open, close, text and element calls made on the XML/HTML writer in a valid order produces a well-formed document that parses back to exactly the same tree of elements, attributes and text, in every formatting mode; calls in an invalid order are refused or reported.',
     ['inputs', 'histories'], 'all documents, attribute and text values, formatting modes',
     'No stable test uses the writer.',
     ['BibleOrgSys/InputOutput/MLWriter.py'], [('MLWriter', 'BibleOrgSys/InputOutput/MLWriter.py')])
prop('C27', 'Malformed USFM never crashes loading, checking, searching or plain exports',
     'Loading, indexing, querying, checking and searching a Bible whose files hold damaged, truncated or arbitrary USFM or bytes, and exporting it as plain text, USFM, ESFM, HTML, Markdown, TeX, word lists or modules, finishes without an exception and in bounded time (unfoldingWord alignment milestones and the XML exports of USX, OSIS, USFX and Zefania excepted). Other books and the chapters before the damage load exactly as without it, and the words of a verse with damaged character or note markers stay in that verse or its notes.',
     ['inputs'], 'arbitrary text files in place of USFM books',
     'No stable test loads a Bible.',
     [F+'USFMBibleBook.py', I+'InternalBibleBook.py', 'BibleOrgSys/InputOutput/USFMFile.py', 'BibleOrgSys/BibleWriter.py'], [('loadUSFMBibleBook, check, findText, exporters', F+'USFMBibleBook.py')])
prop('C28', 'Greek, Hebrew and old-spelling helpers preserve letters as documented',
     'Removing accents, vowel points, cantillation or metegs, checking for consonants, transliterating and modernising old spellings remove or change exactly the documented marks and letters, keep all others in order, and are idempotent where they normalise.',
     ['inputs'], 'all Greek, Hebrew and English texts',
     'No stable test covers these modules.',
     ['BibleOrgSys/OriginalLanguages/Hebrew.py', 'BibleOrgSys/OriginalLanguages/Greek.py', R+'OldBiblicalEnglish.py'], [('Hebrew, Greek', 'BibleOrgSys/OriginalLanguages/Hebrew.py')])

prop('C29', 'Verse-per-line and simple XML Bibles load every verse at its place',
     'Loading a well-formed VPL, CSV, Unbound, Drupal, Forge (SwordSearcher), YET, OpenSong, VerseView, Haggai or Zefania file yields exactly the books, chapters and verses in it, in order, each verse with its own text and under its own reference. Added words, words of Jesus, italics, paragraph signs, poetry lines, Psalm titles, headings, notes and metadata lines which the format documents become the corresponding markers, notes and settings at that place, and nothing else is added to a verse or lost from it.',
     ['inputs'], 'all files of these formats',
     'No stable test loads a Bible.',
     [F+x+'.py' for x in ('VPLBible', 'CSVBible', 'UnboundBible', 'DrupalBible', 'ForgeForSwordSearcherBible', 'YETBible', 'OpenSongXMLBible', 'VerseViewXMLBible', 'HaggaiXMLBible', 'ZefaniaXMLBible')], [('load', F+'VPLBible.py')])

prop('C30', 'unfoldingWord alignments are read exactly and never change the text',
     'A USFM Bible with word alignment milestones and word attributes, in any well-formed arrangement over lines, verses and paragraphs, loads as the same verses, paragraphs, notes and words as without them. The alignments of a book list, in order, each chapter and verse with exactly the original words of each group (all nested levels, with lemma, Strong number, morphology and occurrence) and exactly the translated words aligned to them, joining separated parts of the same group.',
     ['inputs'], 'all aligned texts',
     'No stable test loads a Bible.',
     [F+'USFMBibleBook.py', I+'InternalBibleBook.py'], [('USFMBibleBook.load, cleanUWalignments', F+'USFMBibleBook.py')])
prop('C31', 'Check reports count and list exactly what a Bible contains',
     'The check report of a book counts every line marker, character marker, printed character and word exactly once, and lists every title, heading, section reference, introduction heading, outline entry, footnote and cross-reference exactly once, in order and at its place; the report for all books is the sum of the reports of the books. A well-formed book gives no errors, and each fault put into it (empty or unfinished headings, repeated words, unbalanced speech marks, misplaced or strange characters, unclosed markers, wrong note anchors, missing, repeated or reversed verse and chapter numbers) is reported once, at its place.',
     ['inputs'], 'all loadable books, and all such books with faults',
     'No stable test checks a Bible.',
     [I+'InternalBibleBook.py', I+'InternalBible.py'], [('checkBook, getCheckResults', I+'InternalBibleBook.py'), ('check, getCheckResults', I+'InternalBible.py')])

prop('C32', 'Project packages give exactly the books and settings inside them',
     'Loading a Paratext 7 or Paratext 8 project, a Digital Bible Library bundle or a Scripture Burrito gives all the books that the package lists (for a DBL bundle, those of its default list, in its order), each exactly as the plain USFM or USX importer loads the same file. The settings, names and abbreviations, book names, versifications (verse counts, mappings, omitted verses), spellings, autocorrections, licences and other supplied metadata are exactly those in the files of the package, however those files are laid out.',
     ['inputs'], 'all packages of these kinds',
     'No stable test loads a package.',
     [F+'PTX7Bible.py', F+'PTX8Bible.py', F+'DBLBible.py', F+'ScriptureBurritoBible.py'],
     [('loadPTX7ProjectData, preload, loadBooks', F+'PTX7Bible.py'), ('loadPTX8ProjectData, preload, loadBooks', F+'PTX8Bible.py'), ('loadDBLMetadata, loadBooks', F+'DBLBible.py'), ('loadSBMetadata, loadBooks', F+'ScriptureBurritoBible.py')])


prop('C33', 'Comparing two versions of the same books reports exactly the differences',
     'Comparing two versions of the same book (say a translation and its back translation) line by line reports, with chapter, verse and marker and in that order, exactly the lines whose counts of quote marks, punctuation, digits or notes differ, the forbidden strings and patterns of either version (less the combinations allowed for that version), brackets that are never closed or opened in their paragraph, lines that only one version has, and nothing else. Dividing the matching lines into segments and words and checking them against a file of corresponding words reports exactly the segments with too few corresponding words. Comparing two USFM files counts their lines, chapters and verses, and reports which is newer, bigger or longer, chapters or verses out of order and merge conflicts.',
     ['inputs'], 'all pairs of books and of USFM files',
     'No stable test covers the comparison of Bibles.',
     ['BibleOrgSys/Misc/CompareBibles.py', 'BibleOrgSys/Misc/USFMBookCompare.py'],
     [('compareBibles, compareBooksPedantic, segmentizeLine, segmentizeBooks, loadWordCompares, analyzeWords', 'BibleOrgSys/Misc/CompareBibles.py')])

def main():
    na = []
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            p['files'] = list(p['files'])
            for x in p['files']: assert os.path.exists(os.path.join('/repo', x)), x
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])),
                               ensure_ascii=False) + '\n')
            claimed = glob.glob(os.path.join(HERE, 'harness', 'checks', p['id'].lower() + '_*.py'))
            if claimed and not p['na']:
                checks.append(dict(property=p['id'], quick_cmd='./run_check.sh %s quick' % p['id'],
                                   thorough_cmd='./run_check.sh %s thorough' % p['id'],
                                   technique=p['technique'] or 'property-based testing (Hypothesis generators, independent oracle)',
                                   level='exploration', level_note=p['note'] or 'generated inputs; see DESIGN.md for generators and oracle'))
            else:
                na.append(dict(property=p['id'], reason=p['na'] or 'the check for it is not written yet (it is work in progress, not beyond the technique)'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


main()
