From 326afb3d4b1bb68ba1530e13e3ab054bf8dc9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 001/217] fix: SimpleVersesKey took the wrong groups for verses
 6 to 9 of a list

---
 BibleOrgSys/Reference/VerseReferences.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 7ca2e7b..b9c59e3 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -605,7 +605,7 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -656,9 +656,9 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
@@ -685,10 +685,10 @@ class SimpleVersesKey():
             V3, S3 = match.group(7), match.group(8) if match.group(8) else ''
             V4, S4 = match.group(9), match.group(10) if match.group(10) else ''
             V5, S5 = match.group(11), match.group(12) if match.group(12) else ''
-            V6, S6 = match.group(12), match.group(13) if match.group(13) else ''
-            V7, S7 = match.group(14), match.group(15) if match.group(15) else ''
-            V8, S8 = match.group(16), match.group(17) if match.group(17) else ''
-            V9, S9 = match.group(18), match.group(19) if match.group(19) else ''
+            V6, S6 = match.group(13), match.group(14) if match.group(14) else ''
+            V7, S7 = match.group(15), match.group(16) if match.group(16) else ''
+            V8, S8 = match.group(17), match.group(18) if match.group(18) else ''
+            V9, S9 = match.group(19), match.group(20) if match.group(20) else ''
             if BBB not in BibleOrgSysGlobals.loadedBibleBooksCodes:
                 logging.error( "SimpleVersesKey: Invalid {!r} book code".format( self.BBB ) )
             if BibleOrgSysGlobals.strictCheckingFlag:
-- 
2.43.0


From 23bae778d6b443c2287a9c3a85cfc0afba76145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 002/217] fix: VerseRangeKey never returned for reversed or
 same-verse ranges and lost the first suffix

---
 BibleOrgSys/Reference/VerseReferences.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index b9c59e3..97c767a 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -889,13 +889,13 @@ class VerseRangeKey():
             V = V1
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Expanding range from {} to {}…".format( self.rangeStart.getShortText(), self.rangeEnd.getShortText() ) )
-            assert int(V2)>int(V1) or S2!=S1
-            while True:
+            if int(V2)<int(V1) or (V2==V1 and S2==S1): # It's not a range so we'd never get to the end
+                logging.error( "VerseRangeKey: Invalid range {!r}".format( referenceString ) )
+                return False
+            while int(V) < int(V2)-1:
                 V = str( int(V) + 1 )
-                if V==V2:
-                    self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
-                    break
                 self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+            self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
             self.keyType = 'V-V'
             return True
         match = re.search( CHAPTER_RANGE_RE, referenceString )
@@ -912,12 +912,16 @@ class VerseRangeKey():
             self.rangeStart = SimpleVerseKey( BBB, C1, V1, S1 )
             self.rangeEnd = SimpleVerseKey( BBB, C2, V2, S2 )
             self.verseKeysList = []
+            if (int(C2),int(V2)) < (int(C1),int(V1)): # It's not a range so we'd never get to the end
+                logging.error( "VerseRangeKey: Invalid range {!r}".format( referenceString ) )
+                return False
             C, V, S = C1, V1, S1
             while True:
                 if C==C2 and V==V2:
                     self.verseKeysList.append( SimpleVerseKey( BBB, C, V2, S2 ) )
                     break
-                self.verseKeysList.append( SimpleVerseKey( BBB, C, V ) )
+                self.verseKeysList.append( SimpleVerseKey( BBB, C, V, S ) )
+                S = '' # The suffix only applies to the first verse
                 V = str( int(V) + 1 )
                 if int(V)>222:
                     C,V = str( int(C) + 1 ), '1'
-- 
2.43.0


From 1857980e1160322c9b06d6429cb8f97686ff9ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 003/217] fix: SimpleVerseKey equality ignored the index (so
 equal keys had different hashes)

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index 97c767a..b194872 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -248,7 +248,7 @@ class SimpleVerseKey():
     def __eq__( self, other ):
         #if type( other ) is type( self ): return self.__dict__ == other.__dict__
         if type( other ) is type( self ):
-            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S
+            return self.BBB==other.BBB and self.C==other.C and self.V==other.V and self.S==other.S and self.I==other.I
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
-- 
2.43.0


From 1938426f33e76c62006027257d07b57f82809572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 004/217] fix: sortBCVReferences mis-sorted chapters over 99
 and verses over 149

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..ae9679f 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -723,13 +723,13 @@ class BibleBooksCodes:
             intC = int( C )
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(C) ); halt # Need to finish handling C
-        result = result * 100 + intC
+        result = result * 1000 + intC # PSA has more than 100 chapters
 
         try:
             intV = int( V.split('-')[0] ) # If it's a verse span e.g., 3-4, just take the first part
         except ValueError:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
-        result = result * 150 + intV
+        result = result * 1000 + intV # PSA 119 has more than 150 verses
 
         try:
             intS = {'a':0, 'b':1}[S.lower()] if S else 0
-- 
2.43.0


From 06af08d62be7030e302768e92c59fdf0336fdc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 005/217] fix: sortBCVReferences failed for the 4-tuples that
 it documents

---
 BibleOrgSys/Reference/BibleBooksCodes.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index ae9679f..d42f0d2 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -716,7 +716,6 @@ class BibleBooksCodes:
             S = ''
         except:
             BBB, C, V, S = BCVReferenceTuple
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, BCVReferenceTuple ); halt # Need to finish handling BCVReferenceTuple
         result = self.getReferenceNumber( BBB )
 
         try:
@@ -731,11 +730,8 @@ class BibleBooksCodes:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(V) ); halt # Need to finish handling V
         result = result * 1000 + intV # PSA 119 has more than 150 verses
 
-        try:
-            intS = {'a':0, 'b':1}[S.lower()] if S else 0
-        except ValueError:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(S) ); halt # Need to finish handling S
-        result = result * 10 + intS
+        intS = 'abcdefghijklmnopqrstuvwxyz'.index( S.lower() ) if S else 0
+        result = result * 30 + intS
 
         return result
     # end of BibleBooksCodes.BCVReferenceToInt
-- 
2.43.0


From 894d7521f9b535022564266acd2cbf62ff2e1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 006/217] fix: expandCVRange over three or more books started
 the middle books at the first verse number of the range

---
 BibleOrgSys/Reference/BibleVersificationSystems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..a287358 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -918,13 +918,13 @@ class BibleVersificationSystem:
                 for Cint in range( Cfirst, Clast+1 ):
                     Vlast = self.getNumVerses( BBB, str(Cint) )
                     if Cint==Cfirst: # We're on the first chapter
-                        startVint = V1int
+                        startVint = Vfirst
                         endVint = Vlast
                     else: # It's not the first chapter
                         startVint = 1
                         endVint = Vlast
                     for Vint in range( startVint, endVint+1 ):
-                        if Cint==C1int and Vint==V1int: S = S1
+                        if BBB==BBB1 and Cint==C1int and Vint==V1int: S = S1
                         else: S = ''
                         resultList.append( (BBB, str(Cint), str(Vint), S,) )
                 BBB, Cfirst, Vfirst = bookOrderSystem.getNextBookCode( BBB ), 1, 1
-- 
2.43.0


From 41c8c1e3dba16b3a44c7f4cc9ecb11cd03225981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 007/217] fix: absolute verse numbers of the first
 organisational system were used for every other one

---
 .../Reference/BibleOrganisationalSystems.py       | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..5938c3f 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -532,20 +532,21 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
+    __absoluteVerseDict = {} # Each system makes its own one when first needed
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
+        self.__absoluteVerseDict = {}
         accumulatedCount = 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                self.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -559,8 +560,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -576,8 +577,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
-- 
2.43.0


From 51143b60b728c1114d1ab9b8a0a4203556c11a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 008/217] fix: an organisational system that names itself as
 the text it uses could not be opened (endless recursion)

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 5938c3f..6d0b16f 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -238,8 +238,9 @@ class BibleOrganisationalSystems:
                 for possibleType in reversed( BibleOrgSysGlobals.ALLOWED_ORGANISATIONAL_TYPES ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'possibleType', possibleType )
                     for trySystemName in trySystemNames:
-                        if trySystemName == systemName: # Avoid infinite recursion
+                        if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: # Avoid infinite recursion
                             trySystemName += '_' + possibleType
+                            if self.getOrganisationalSystem( trySystemName, suppressErrors=True ) is thisSystem: continue
                         result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
-- 
2.43.0


From 9ada22ceb0ea2ab7bdb99246bfddbbc2cde956df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 009/217] fix: an organisational system with an unknown book
 order system could not be opened

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 6d0b16f..b7153ef 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -319,9 +319,11 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         punctuationSystemName = self.getOrganisationalSystemValue( 'punctuationSystem' )
         booksNamesSystemName = self.getOrganisationalSystemValue( 'booksNamesSystem' )
         dPrint( 'Never', DEBUGGING_THIS_MODULE, "Got organisation bits: BOS={}, VS={}, PS={}, BNS={}".format( bookOrderSystemName, versificationSystemName, punctuationSystemName, booksNamesSystemName ) )
+        bookOrderList = None # Stays None if the book order system is not known or not available
         if bookOrderSystemName and bookOrderSystemName!='None' and bookOrderSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} book order system".format( bookOrderSystemName ) )
             BibleBookOrderSystem.__init__( self, bookOrderSystemName )
+            bookOrderList = BibleBookOrderSystem.getBookOrderList( self )
         if versificationSystemName and versificationSystemName!='None' and versificationSystemName!='Unknown':
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "Uses {!r} versification system".format( versificationSystemName ) )
             BibleVersificationSystem.__init__( self, versificationSystemName )
@@ -334,9 +336,9 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         # Do some cross-checking
         myBooks = getOrganisationalSystemValue( 'includesBooks' )
-        if myBooks is not None:
+        if myBooks is not None and bookOrderList is not None:
             for BBB in myBooks:
-                if not BibleBookOrderSystem.containsBook( self, BBB ):
+                if BBB not in bookOrderList:
                     logging.error( _("Book {!r} is included in {} system but missing from {} book order system").format( BBB, self.__systemName, BibleBookOrderSystem.getBookOrderSystemName( self ) ) )
     # end of BibleOrganisationalSystem.__init__
 
-- 
2.43.0


From 9b434ca4aa8f36675452f46dbfd85763504dfd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 010/217] fix: getAbsoluteVerseNumber raised KeyError instead
 of returning None for a missing book or chapter

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index b7153ef..ac27e3d 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -564,7 +564,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         """
         C, V = int(C), int(V)
         if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
+        try: rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
+        except KeyError: return None # No such book or chapter in this system
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
-- 
2.43.0


From 458a43c038192dfb1eb33f8a4ddb36f9dfc52f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 011/217] fix: comparing two Bible entries, extras or extra
 lists raised AttributeError (they have no __dict__)

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index f0bc06a..5470769 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -413,7 +413,7 @@ class InternalBibleExtra:
 
 
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return all( getattr(self,name)==getattr(other,name) for name in self.__slots__ )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -492,7 +492,7 @@ class InternalBibleExtraList:
 
     def __len__( self ): return len( self.data )
     def __eq__( self, other ):
-        if type( other ) is type( self ): return self.__dict__ == other.__dict__
+        if type( other ) is type( self ): return all( getattr(self,name)==getattr(other,name) for name in self.__slots__ )
         return False
     def __ne__(self, other): return not self.__eq__(other)
 
@@ -645,7 +645,7 @@ class InternalBibleEntry:
         #for someKey, someItem in sorted( other.__dict__.items() ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'other', someKey, repr(someItem) )
         #halt
-        return isinstance( other, self.__class__ ) and self.__dict__ == other.__dict__
+        return isinstance( other, self.__class__ ) and all( getattr(self,name)==getattr(other,name) for name in self.__slots__ )
     def __ne__( self, other ):
         return not self.__eq__( other )
 
-- 
2.43.0


From bf2e11022371ba3729cf532574f30b086dca3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 012/217] fix: adding two InternalBibleEntryLists changed the
 first of them

---
 BibleOrgSys/Internals/InternalBibleInternals.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 5470769..15423c4 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -871,8 +871,9 @@ class InternalBibleEntryList:
         So we can use Python + operator to add lists (e.g., to combine verses)
         """
         assert isinstance( listToAppend, InternalBibleEntryList ), f"__add__ {type(listToAppend)=} {listToAppend=}"
-        self.data.extend( listToAppend )
-        return self
+        result = InternalBibleEntryList( self ) # so that we don't change our own list
+        result.extend( listToAppend )
+        return result
     # end of InternalBibleEntryList.__add__
 
 
-- 
2.43.0


From e1b7578d7725415a5f9ecd3f889602e5bd2497dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 013/217] fix: close an introduction that ends with an outline
 or a list

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index b1e1fb6..0ab15a5 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1661,6 +1661,7 @@ class InternalBibleBook:
             lastOpenMarker = _getLastOpenMarker()
             if lastOpenMarker=='iot' and marker not in OUR_INTRO_OUTLINE_MARKERS: _closeLastOpenMarker( 'iot' )
             if lastOpenMarker=='ilist' and marker not in OUR_INTRO_LIST_MARKERS: _closeLastOpenMarker( 'ilist' )
+            lastOpenMarker = _getLastOpenMarker() # So that the introduction is also closed if it ended with an outline or a list
             if lastOpenMarker=='list' and marker not in OUR_MAIN_TEXT_LIST_MARKERS and marker not in ('v~','p~'):
                 # This is more complex coz can cross v and c boundaries
                 dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"Shall we close '{marker}' given {_findNextRelevantListMarker(j)=} and {_findNextRelevantMarker(j)=} @ {self.BBB}_{C}:{V}" )
-- 
2.43.0


From 51000cbeadc03dcf534d9b72aa287238661207b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 014/217] fix: close the headers and introduction even when a
 paragraph is still open in them

---
 BibleOrgSys/Internals/InternalBibleBook.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0ab15a5..d599cc9 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1651,6 +1651,8 @@ class InternalBibleBook:
                 if 'headers' in openMarkers:
                     # for lMarker in openMarkers[::-1]: # Get a reversed copy (coz we are deleting members)
                     #     # print(f"1 {lMarker=}")
+                    while openMarkers[-1] != 'headers': # e.g., a paragraph in front matter
+                        _closeLastOpenMarker( withText=V if openMarkers[-1]=='v' else '' )
                     _closeLastOpenMarker( 'headers' )
                 _openMarker( 'intro' )
                 haveIntro += 1 # now 'true' but counted to detect errors
@@ -1670,8 +1672,10 @@ class InternalBibleBook:
 
             if marker == 'c':
                 # print( f"  At 'c' {self.BBB}_{C}:{V} with {lastOpenMarker=} {openMarkers=}" )
-                if lastOpenMarker=='headers' or lastOpenMarker=='intro':
-                    _closeLastOpenMarker( lastOpenMarker )
+                if 'headers' in openMarkers or 'intro' in openMarkers: # close it and any paragraphs, etc. still open inside it
+                    while openMarkers[-1] not in ('headers','intro'):
+                        _closeLastOpenMarker( withText=V if openMarkers[-1]=='v' else '' )
+                    _closeLastOpenMarker( openMarkers[-1] )
                     lastOpenMarker = _getLastOpenMarker()
                 # if 'headers' in openMarkers:
                 #     for lMarker in openMarkers[::-1]: # Get a reversed copy (coz we are deleting members)
-- 
2.43.0


From 21b98df52806423dd6e04b9446a9bab32ec93d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 015/217] fix: chapter lookups end where the chapter ends, and
 complete verse lookups give no duplicates

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 31 ++++++++-----------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index fae2409..4a63b82 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -273,14 +273,19 @@ class InternalBibleBookCVIndex:
         Raises a KeyError if the C key doesn't exist.
         """
         firstIndexEntry = self.__indexData[(C,'0')]
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()]
-        except KeyError: # presumably no more chapters
-            return self.givenBibleEntries[firstIndexEntry.getEntryIndex():]
+        return self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getChapterNextEntryIndex(C)]
     # end of InternalBibleBookCVIndex.getChapterEntries
 
 
+    def __getChapterNextEntryIndex( self, C:str ) -> int:
+        """
+        Given C (which must be in the index), return the index of the entry following the last entry for this chapter
+            (whatever the number of the following chapter, if any).
+        """
+        return max( indexEntry.getNextEntryIndex() for (ixC,_ixV),indexEntry in self.__indexData.items() if ixC==C )
+    # end of InternalBibleBookCVIndex.__getChapterNextEntryIndex
+
+
     def getVerseEntriesWithContext( self, CVkey:tuple[str,str], strict:bool|None=False, complete:bool|None=False ) -> tuple[InternalBibleEntryList,list[str]]:
         """
         Given C:V, return a 2-tuple containing
@@ -336,7 +341,8 @@ class InternalBibleBookCVIndex:
 
         # Now look for specific verses that match
         try:
-            indexEntries.append( self.__indexData[CVkey] )
+            if self.__indexData[CVkey] not in indexEntries: # might have just been found above (if complete)
+                indexEntries.append( self.__indexData[CVkey] )
         except KeyError:
             dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextB {self.workName} was unable to immediately find {self.BBB} {CVkey=}")
             if strict or CVkey[0]=='-1': # strict selection or else in the introduction (no verse ranges there)
@@ -428,18 +434,7 @@ class InternalBibleBookCVIndex:
         except KeyError as err:
             (logging.warning if C=='0' else logging.error)( f"getChapterEntriesWithContext {self.workName} couldn't get {self.BBB} ({C},0){f' from {self.__indexData.keys()}' if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag else ''}")
             raise err
-        try:
-            nextIndexEntry = self.__indexData[(str(int(C)+1),'0')]
-            return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-        except KeyError: # Couldn't find the next chapter
-            if C != '-1': # presumably no more chapters
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
-            # else it's a bit more complicated finding the introduction because mostly there's no chapter zero
-            try:
-                nextIndexEntry = self.__indexData[('1','0')]
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():nextIndexEntry.getEntryIndex()] ), firstIndexEntry.getContextList()
-            except KeyError: # give up and just return everything
-                return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():] ), firstIndexEntry.getContextList()
+        return InternalBibleEntryList( self.givenBibleEntries[firstIndexEntry.getEntryIndex():self.__getChapterNextEntryIndex(C)] ), firstIndexEntry.getContextList()
     # end of InternalBibleBookCVIndex.getChapterEntriesWithContext
 
 
-- 
2.43.0


From 1db11030b26c1fd244a540111eedda2211c700e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 016/217] fix: section index entries: len(), and sections that
 start a chapter with a verse bridge

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 4a63b82..6c8e20f 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -992,7 +992,7 @@ class InternalBibleBookSectionIndexEntry:
 
 
     def __len__( self ):
-        return len(__slots__)
+        return len( self.__slots__ )
     def __getitem__( self, keyIndex ):
         if isinstance( keyIndex, slice ): # Get the start, stop, and step from the slice
             cannot_handle_slice_yet # not done yet
@@ -1289,7 +1289,8 @@ class InternalBibleBookSectionIndex:
                 marker, text = entry.getMarker(), entry.getCleanText()
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"                  {marker}={text}" )
                 if marker == 'v': # e.g., if we encountered section heading but hadn't encountered the verse number yet
-                    if text != startV and '-' not in text: # Don't want to undo verse bridge work from above
+                    if '-' in text: text = text[:text.find('-')] # Don't want to undo verse bridge work from above
+                    if text != startV:
                         if DEBUGGING_THIS_MODULE or startV != '0':
                             dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"           Adjusting startV from {startV} to {text}" )
                         startV = text
-- 
2.43.0


From d5752b852cf24c0bc7bd2999809f4190e46fc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 017/217] fix: keep all sections when a verse contains more
 than one section heading

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 6c8e20f..b5a1c0b 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1299,8 +1299,11 @@ class InternalBibleBookSectionIndex:
                     # or could it mean that our nesting markers aren't inserted correctly ???
                     if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.strictCheckingFlag:
                         assert startV.isdigit()
-                    dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"           Adjusting startV from {startV} to {startV}b" )
-                    # So the previous entry should end with 'a'
+                    partLetter = 'b'
+                    while (startC,f'{startV}{partLetter}') in tempIndexData: # This verse contains more than one section heading
+                        partLetter = chr( ord(partLetter) + 1 )
+                    dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"           Adjusting startV from {startV} to {startV}{partLetter}" )
+                    # So the previous entry should end with 'a' (or whatever precedes our letter)
                     lastIndexEntryKey = list(tempIndexData.keys())[-1]
                     lastIndexEntry = tempIndexData[lastIndexEntryKey]
                     lStartC, lStartV, lEndC, lEndV, lStartIx, lEndIx, lReasonMarker, lSectionName, lContext = lastIndexEntry
@@ -1308,10 +1311,10 @@ class InternalBibleBookSectionIndex:
                         logging.warning( f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}" )
                     # if self.workName not in ('LEB','ULT','BSB','WEB'): # Why ??? ULT Psa 24:10 to Psa 25:0 , BSB Psa 1:1 ???, WEB SIR 51:0
                     #     assert lEndC==startC and lEndV==startV, f"makeBookSectionIndex: missing section? {self.workName} {self.BBB} section index start={startC}:{startV} lEnd={lEndC}:{lEndV}"
-                    lEndV += 'a'
+                    lEndV += chr( ord(partLetter) - 1 )
                     tempIndexData[(lStartC,lStartV)] = (lStartC, lStartV, lEndC, lEndV, lStartIx, lEndIx,
                                                             lReasonMarker, lSectionName, lContext)
-                    startV += 'b'
+                    startV += partLetter
                     break
 
             # Check that we don't overlap with the last entry
-- 
2.43.0


From c5da91784d89a71d85d0b66b8628fe525f816321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 018/217] fix: verse ranges across books looked for the second
 part in the first book and always failed

---
 BibleOrgSys/Internals/InternalBible.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..834055e 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -81,7 +81,7 @@ if __name__ == '__main__':
         sys.path.insert( 0, aboveAboveFolderpath )
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList, InternalBibleEntry, BOS_EXTRA_TYPES, BOS_EXTRA_MARKERS
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleEntryList, InternalBibleEntry, BOS_EXTRA_TYPES, BOS_EXTRA_MARKERS, getLeadingInt
 from BibleOrgSys.Internals.InternalBibleBook import BCV_VERSION
 from BibleOrgSys.Reference.VerseReferences import SimpleVerseKey
 from BibleOrgSys.Reference.BibleBooksCodes import BOOKLIST_OT39, BOOKLIST_NT27
@@ -2335,9 +2335,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             if endBBB == startBBB: # most common case
                 return self.books[startBBB].getContextVerseDataRange( startBCVReference, endBCVReference, strict=strict )
             else: # sometimes they can be different books
-                verseEntryList1, contextList1 = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,'999','999'), strict=strict )
-                verseEntryList2, _contextList2 = self.books[startBBB].getContextVerseDataRange( (endBBB,'1','1'), endBCVReference, strict=strict )
-                return verseEntryList1+verseEntryList2, contextList1
+                bookList = self.getBookList()
+                startIx, endIx = bookList.index( startBBB ), bookList.index( endBBB )
+                if startIx > endIx:
+                    raise KeyError( f"{endBBB} comes before {startBBB} in {self.name}" )
+                lastC = str( self.books[startBBB].getNumChapters() )
+                lastV = str( max( getLeadingInt( V.split('-')[-1] ) for C,V in self.books[startBBB]._CVIndex if C==lastC ) ) # The final verse isn't always the highest number
+                verseEntryList, contextList = self.books[startBBB].getContextVerseDataRange( startBCVReference, (startBBB,lastC,lastV), strict=strict )
+                for BBB in bookList[startIx+1:endIx]: # Any books in between, e.g., 2Sam in '1Sam 16:1–1Ki 2:11'
+                    for C,_numVerses in self.books[BBB].getVersification()[0]:
+                        if C != '-1': # Omit the book introduction
+                            verseEntryList += self.books[BBB].getContextVerseData( (BBB,C) )[0]
+                verseEntryList2, _contextList2 = self.books[endBBB].getContextVerseDataRange( (endBBB,'1','0'), endBCVReference, strict=strict )
+                return verseEntryList+verseEntryList2, contextList
         else:
             logging.warning( f"InternalBible.getContextVerseDataRange( {startBCVReference}, {endBCVReference}, {strict=} ): {self.name} doesn't have {startBBB}{'' if endBBB==startBBB else f' or {endBBB}'}" )
     # end of InternalBible.getContextVerseDataRange
-- 
2.43.0


From 8dfb9472991c58fc521da06ac020ddc3c95bf2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 019/217] fix: verse ranges failed for SimpleVerseKeys and
 inside verse bridges, ran on past the last chapter, and crashed when not
 strict

---
 BibleOrgSys/Internals/InternalBibleBook.py | 49 +++++++++++-----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index d599cc9..97ca3da 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5203,7 +5203,7 @@ class InternalBibleBook:
 
         # else we only need one verse
         if isinstance( BCVReference, tuple ):
-            assert len(BCVReference) == 3
+            assert len(BCVReference) in (3,4) # (B,C,V) or (B,C,V,S)
             C, V = BCVReference[1], BCVReference[2]
         else: # assume it's a SimpleVerseKey or similar
             C,V = BCVReference.getCV()
@@ -5248,10 +5248,10 @@ class InternalBibleBook:
         assert isinstance( verseEntryList, InternalBibleEntryList )
 
         # Now concatenate the verse lists for the following verses
-        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getC()
-        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getV()
-        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getC()
-        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getV()
+        startC = startBCVReference[1] if isinstance( startBCVReference, tuple ) else startBCVReference.getChapterNumber()
+        startV = startBCVReference[2] if isinstance( startBCVReference, tuple ) else startBCVReference.getVerseNumber()
+        endC = endBCVReference[1] if isinstance( endBCVReference, tuple ) else endBCVReference.getChapterNumber()
+        endV = endBCVReference[2] if isinstance( endBCVReference, tuple ) else endBCVReference.getVerseNumber()
 
         # dPrint( 'Info', DEBUGGING_THIS_MODULE, f"InternalBibleBook.getContextVerseData concatenating {self.workName} {self.BBB} from {startC}:{startV} to {endC}:{endV} {strict=}" )
         intC = int(startC)
@@ -5264,10 +5264,13 @@ class InternalBibleBook:
                 break
             # dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"    InternalBibleBook.getContextVerseData adding {intC}:{intV}" )
             strC, strV = str(intC), str(intV)
-            try:
-                thisVerseEntryList = self._CVIndex.getVerseEntries( (strC,strV), strict=False )
+            try: # Set strict=False and complete=True to include verse bridges and partial verses
+                thisVerseEntryList, _thisContextList = self._CVIndex.getVerseEntriesWithContext( (strC,strV), strict=False, complete=True )
                 assert isinstance( thisVerseEntryList, InternalBibleEntryList )
-                verseEntryList += thisVerseEntryList
+                alreadyGot = { id(entry) for entry in verseEntryList }
+                for entry in thisVerseEntryList:
+                    if id(entry) not in alreadyGot: # We might already have it, e.g., from a verse bridge
+                        verseEntryList.append( entry )
             except KeyError as kerr:
                 # dPrint( 'Normal', DEBUGGING_THIS_MODULE, f"    InternalBibleBook.getContextVerseData got KeyError with {strC}:{strV}" )
                 if startC == '-1': # This is expected, because LV doesn't have intros, so endV will be excessive
@@ -5276,26 +5279,22 @@ class InternalBibleBook:
                     break
                 else:
                     # We're in a chapter and may have reached the end
-                    if startC != endC:
-                        numVerses = self.getNumVerses( strC )
-                        if intV > numVerses:
-                            intC += 1
-                            intV = 0
-                            # Try again with the first verse of the next chapter
+                    numVerses = self.getNumVerses( strC ) # Gives None if there's no such chapter
+                    if intC < int(endC) and (numVerses is None or intV > numVerses):
+                        intC += 1
+                        intV = 0
+                        # Try again with the first verse of the next chapter
+                        try:
                             thisVerseEntryList = self._CVIndex.getVerseEntries( (str(intC),'0'), strict=True )
                             assert isinstance( thisVerseEntryList, InternalBibleEntryList )
                             verseEntryList += thisVerseEntryList
-                        else:
-                            if not strict:
-                                logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}) for {self.workName} {self.BBB} failed at {strC}:{strV}")
-                                halt
-                                break # return what we've got
-                            raise kerr
-                    else: # we're only doing one chapter
-                        if strict:
-                            raise kerr
-                        else: # Log it, but continue looping
-                            logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}, {strict=}) for {self.workName} {self.BBB} failed to find {strC}:{strV}")
+                        except KeyError:
+                            if strict: raise
+                            logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}, {strict=}) for {self.workName} {self.BBB} failed to find chapter {intC}")
+                    elif strict:
+                        raise kerr
+                    else: # Log it, but continue looping
+                        logging.critical( f"InternalBibleBook.getContextVerseData( {startBCVReference} to {endBCVReference}, {strict=}) for {self.workName} {self.BBB} failed to find {strC}:{strV}")
             intV += 1
         else:
             loop_safety_counter_too_small
-- 
2.43.0


From 4b67b84cbc93cc8bff47e2c6da57104286a53230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 020/217] fix: discovery always reported no figures and no
 lists

---
 BibleOrgSys/Internals/InternalBibleBook.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 97ca3da..193ef6f 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3304,18 +3304,16 @@ class InternalBibleBook:
             elif marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                 bkDict['haveParagraphMarkers'] = True
                 if text: bkDict['haveVerseText'] = True
+                if marker == 'li1': bkDict['haveLists'] = True
             elif marker in ('is1','ip','iot','io1'):
                 bkDict['haveIntroductoryMarkers'] = True
                 if text: bkDict['haveIntroductoryText'] = True
             elif marker == 'tr':
                 bkDict['haveTables'] = True
-            elif marker == 'li1':
-                bkDict['haveLists'] = True
 
             if lastMarker=='v' and (marker!='v~' or not text): bkDict['seemsFinished'] = False
             if text:
                 if '\\+' in text: bkDict['haveNestedUSFMarkers'] = True
-                bkDict['figuresCount'] += text.count( '\\fig ' )
                 if marker in BOS_PRINTABLE_MARKERS: # process this main text
                     countWordsForDiscover( marker, cleanText, 'main' )
                 #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Ignoring {} {}:{} {}={}".format( self.BBB, C, V, marker, repr(text) ) )
@@ -3342,6 +3340,8 @@ class InternalBibleBook:
                         if '\\xo' in extraText: bkDict['haveCrossReferenceOrigins'] = True
                         if cleanExtraText and cleanExtraText[-1] in '.።' or cleanExtraText.endswith('.”'):
                             xrefsPeriodCount += 1
+                    elif extraType=='fig':
+                        bkDict['figuresCount'] += 1
                     if extraType not in ('fig','ww'): # No useful words in those two extra types
                         countWordsForDiscover( extraType, cleanExtraText, 'extra' )
             lastMarker = marker
-- 
2.43.0


From 98a87d9261f70dfca171ecd2d6ed98543fba85a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 021/217] fix: section index asserted on a book whose only
 header line is the id line

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index b5a1c0b..b63f18a 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1452,7 +1452,7 @@ class InternalBibleBookSectionIndex:
                     endC, endV = lastC, lastV
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"endC={endC!r} endV={endV!r}" )
                     if self.workName not in ('LEB',):
-                        assert endV != '0', f"{self.workName} {self.BBB} section index {endC=} zero endV"
+                        assert endV != '0' or endC == '-1', f"{self.workName} {self.BBB} section index {endC=} zero endV" # -1:0 is just the id line
                     if lastSectionName:
                         if j-1 == savedJ \
                         or int(endC) < int(startC):# There's only one entry line
-- 
2.43.0


From 1ec8cdf24156c45dae0cbbdcfd9ba25a0e3c8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 022/217] fix: findText with a marker list failed on text
 before any paragraph and never found paragraph text

---
 BibleOrgSys/Internals/InternalBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 834055e..d570d08 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2534,7 +2534,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
@@ -2559,7 +2559,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                         # Get our text to search
                         origTextToBeSearched = lineEntry.getFullText() if optionsDict['includeExtrasFlag'] else cleanText
-                        if C != '0' and not optionsDict['includeMainTextFlag']:
+                        if C != '-1' and not ourMarkerList and not optionsDict['includeMainTextFlag']:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                                 origTextToBeSearched = ''
-- 
2.43.0


From a66a8df00e143d69370b33d39ba6e977ea5ed3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 023/217] fix: findText without main text failed on verse text
 and lost all but the first note of a line

---
 BibleOrgSys/Internals/InternalBible.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index d570d08..e2a44c9 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2563,17 +2563,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                                 origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
+                                if optionsDict['includeExtrasFlag'] and lineEntry.getExtras(): # we need to remove the main text
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
                                     for extra in lineEntry.getExtras():
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += ( ' ' if origTextToBeSearched else '' ) + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
-- 
2.43.0


From 6a5f08eb9341f717c68dc0a0a09e6d1945e8f6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 024/217] fix: caseless or accentless regular expression
 searches never matched upper-case or accented letters

---
 BibleOrgSys/Internals/InternalBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index e2a44c9..b28cfdf 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2517,8 +2517,9 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
+        if optionsDict['regexFlag']:
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
         if BibleOrgSysGlobals.debugFlag: assert searchLen
-- 
2.43.0


From 6e5bea9a9a4a3bd4a12336eaac0c04a398fe956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 025/217] fix: findText gave wrong positions and contexts after
 letters which change length when folded

---
 BibleOrgSys/Internals/InternalBible.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b28cfdf..3a7a44d 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2581,10 +2581,20 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         if optionsDict['ignoreDiacriticsFlag']: textToBeSearched = BibleOrgSysGlobals.removeAccents( textToBeSearched )
                         if optionsDict['caselessFlag']: textToBeSearched = textToBeSearched.lower()
                         textLen = len( textToBeSearched )
+                        if textLen != len( origTextToBeSearched ): # some letters changed length when adjusted, e.g., Æ -> AE or İ
+                            origIndexes = []
+                            for charIx,someChar in enumerate( origTextToBeSearched ):
+                                if optionsDict['ignoreDiacriticsFlag']: someChar = BibleOrgSysGlobals.removeAccents( someChar )
+                                if optionsDict['caselessFlag']: someChar = someChar.lower()
+                                origIndexes.extend( [charIx] * len(someChar) )
+                        else: origIndexes = None
 
                         if optionsDict['regexFlag']: # ignores wordMode flag
                             for match in compiledFindText.finditer( textToBeSearched ):
                                 ix, ixAfter = match.span()
+                                if origIndexes: # convert to indexes into the original text
+                                    ixAfter = origIndexes[ixAfter-1] + 1 if ixAfter>ix else origIndexes[ix] if ix<textLen else len(origTextToBeSearched)
+                                    ix = origIndexes[ix] if ix<textLen else len(origTextToBeSearched)
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                                     contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
@@ -2600,9 +2610,9 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
                         else: # not regExp
-                            ix = -1
+                            foundIx = -1
                             while True:
-                                ix = textToBeSearched.find( ourFindText, ix+1 )
+                                ix = foundIx = textToBeSearched.find( ourFindText, foundIx+1 )
                                 if ix == -1: break
                                 ixAfter = ix + searchLen
                                 if optionsDict['wordMode'] == 'Whole':
@@ -2616,6 +2626,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                     if ixAfter<textLen and textToBeSearched[ixAfter].isalpha(): continue
                                 elif optionsDict['wordMode'] == 'EndsLine':
                                     if ixAfter<textLen: continue
+                                if origIndexes: ix, ixAfter = origIndexes[ix], origIndexes[ixAfter-1] + 1 # convert to indexes into the original text
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
                                     contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
-- 
2.43.0


From 1a71ef9a1a8c4f462902bcb4d8d41b43c0ce63d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 026/217] fix: findText gave references of introduction lines
 that belong to other lines

---
 BibleOrgSys/Internals/InternalBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 3a7a44d..8f3186a 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2541,11 +2541,11 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         lastParagraphMarker = marker
 
                     marker, cleanText = lineEntry.getMarker(), lineEntry.getCleanText()
+                    if C == '-1' and marker != 'c': V = str( int(V) + 1 ) # All lines count (same as in the CV index)
                     if marker[0] == '¬': continue # we'll always ignore these added lines
                     if marker in ('headers','intro','chapters'): continue # we'll always ignore these added lines
                     if marker == 'c': C, V = cleanText, '0'
-                    elif marker == 'v': V = cleanText
-                    elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 )
+                    elif marker == 'v' and C != '-1': V = cleanText
                     if ourMarkerList:
                         if marker not in ourMarkerList and not (marker in ('v~','p~') and lastParagraphMarker in ourMarkerList):
                             continue
-- 
2.43.0


From 5d2c3638d20c2fc71cba67cfe48fb91b0cdf8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 027/217] fix: finding text in a part verse after verse 99
 (e.g., 105a) failed with a TypeError

---
 BibleOrgSys/Reference/VerseReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/VerseReferences.py b/BibleOrgSys/Reference/VerseReferences.py
index b194872..8582bdf 100755
--- a/BibleOrgSys/Reference/VerseReferences.py
+++ b/BibleOrgSys/Reference/VerseReferences.py
@@ -227,7 +227,7 @@ class SimpleVerseKey():
                 logging.error( "SimpleVerseKey: bad {!r} BBB in {}".format( BBB, (BBB,C,V,SI) ) ); raise TypeError
             if not isinstance( C, str ) or not 1<=len(C)<=3:
                 logging.error( "SimpleVerseKey: bad {!r} C in {}".format( C, (BBB,C,V,SI) ) ); raise TypeError
-            if not isinstance( V, str ) or not 1<=len(V)<=3:
+            if not isinstance( V, str ) or not ( 1<=len(V)<=3 or (len(V)==4 and V[:3].isdigit() and V[3].isalpha()) ): # Allow e.g., 105a
                 logging.error( "SimpleVerseKey: bad {!r} V in {}".format( V, (BBB,C,V,SI) ) ); raise TypeError
             if not isinstance( SI, str ) or not ( len(SI)<2 or (SI.isdigit() and len(SI)<=4) ):
                 logging.error( "SimpleVerseKey: bad {!r} S/I in {}".format( SI, (BBB,C,V,SI) ) ); raise TypeError
-- 
2.43.0


From 5484504fe7f4345439379ad6b17913e01fee7f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 028/217] fix: PickledBible.loadBooks loaded nothing from
 pickled Bibles with only one or two books

---
 BibleOrgSys/Formats/PickledBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..6485926 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -726,7 +726,7 @@ class PickledBible( Bible ):
             logging.critical( "PickledBible.loadBooks() failed" )
             return
 
-        if len( self.pickleVersionData['bookList'] ) > 2:
+        if self.pickleVersionData['bookList']:
             if BibleOrgSysGlobals.maxProcesses > 1 \
             and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
                 # Load all the books as quickly as possible
-- 
2.43.0


From c913155cea6d1f97accdc9879682b77eee4323ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 029/217] fix: books of a PickledBible did not know their Bible
 so section indexing failed

---
 BibleOrgSys/Formats/PickledBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 6485926..7bd90be 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -692,6 +692,7 @@ class PickledBible( Bible ):
                 return # We've already attempted to load this book
 
         self.books[BBB] = self._loadBookEssentials( BBB )
+        self.books[BBB].containerBibleObject = self # Not saved in the pickle but needed, e.g., to make section indexes
     # end of PickledBible.loadBook
 
 
-- 
2.43.0


From f0f7a7b9923c83c92d7dfbe820704ccccae98f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 030/217] fix: PickledBibleFileCheck failed with an IndexError
 when loading from one level down

---
 BibleOrgSys/Formats/PickledBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7bd90be..3a710a2 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -166,6 +166,7 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                     #somethingUpper = something.upper()
                     if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
                         foundSubfiles.append( something )
+                        foundProjects.append( tryFolderName )
                         numFound += 1
         except PermissionError: pass # can't read folder, e.g., system folder
 
-- 
2.43.0


From 90944c5dc1dde2318a210d4e60963153207b94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 031/217] fix: a PickledBible could not guess books from its
 book names

---
 BibleOrgSys/Formats/PickledBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 3a710a2..02717df 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -692,8 +692,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
-        self.books[BBB].containerBibleObject = self # Not saved in the pickle but needed, e.g., to make section indexes
+        bookObject = self._loadBookEssentials( BBB )
+        bookObject.containerBibleObject = self # Not saved in the pickle but needed, e.g., to make section indexes
+        self.stashBook( bookObject ) # also saves the book names
     # end of PickledBible.loadBook
 
 
-- 
2.43.0


From 04e7d1ac52635a811f46ade3f6c6145771ce1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:04 +0000
Subject: [PATCH 032/217] fix: pickling a Bible left it, and the unpickled
 Bible, unable to be exported (no genericBOS)

---
 BibleOrgSys/Internals/InternalBible.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 8f3186a..25f8d38 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1002,8 +1002,10 @@ class InternalBible:
         
         try: del self.XMLTree # No need to hold onto this XML source code
         except AttributeError: pass
-        try: del self.genericBOS # This is unpicklable for some reason
-        except AttributeError: pass
+        # The generic BOS and BRL are unpicklable for some reason, so put them aside (they're set up again when the unpickled Bible needs them)
+        putAsideDict = { attributeName:self.__dict__.pop( attributeName ) for attributeName in ('genericBOS','genericBRL','doneSetupGeneric')
+                            if attributeName in self.__dict__ }
+        if 'doneSetupGeneric' in putAsideDict: self.doneSetupGeneric = False
             # CRITICAL: BibleOrgSysGlobals: Unexpected error in pickleObject: <class '_pickle.PicklingError'> Can't pickle <class 'BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems'>: it's not the same object as BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems
             # CRITICAL: Can't pickle badAttribute='books' when pickling <class 'dict'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
             # CRITICAL: Can't pickle badAttribute='genericBOS' when pickling <class 'BibleOrgSys.Reference.BibleOrganisationalSystems.BibleOrganisationalSystem'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
@@ -1018,6 +1020,7 @@ class InternalBible:
                 # Ignore errors
             else: # it's some other attribute error in the loadBook function
                 raise
+        finally: self.__dict__.update( putAsideDict )
 
         return pResult
     # end of InternalBible.pickle
-- 
2.43.0


From 815663d2a43a95b53463365715b29b72824fa713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 033/217] fix: making a section index failed with a ValueError
 for a \ms1 section after or ending with a part verse (3b)

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index b63f18a..9fea6d6 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -1244,8 +1244,8 @@ class InternalBibleBookSectionIndex:
 
             # HAndle \ms1 specifics (v= doesn't occur before this)
             if reasonMarker=='ms1' and startC==endC:
-                startV = str( int(startV) + 1 )
-                if int(endV) < int(startV): endV = startV
+                startV = str( getLeadingInt(startV) + 1 )
+                if getLeadingInt(endV) < int(startV): endV = startV
 
             # Do some basic checking here
             if reasonMarker != 'c':
-- 
2.43.0


From 4bb61cb89f56782ed2f0b3a055b96a3b49fe4396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 034/217] =?UTF-8?q?fix:=20USFM=20and=20ESFM=20exports=20wr?=
 =?UTF-8?q?ote=20a=20\cl=20field=20before=20chapter=201=20as=20\cl=C2=A4?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 BibleOrgSys/BibleWriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..3b16782 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -688,6 +688,7 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker in ('c#','vp#',):
                     ignoredMarkers.add( pseudoMarker )
                     continue
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our internal marker for a cl field before chapter 1
                 #fullText = cleanText # (temp)
                 #dPrint( 'Never', DEBUGGING_THIS_MODULE, "toUSFM: pseudoMarker = {!r} fullText = {!r}".format( pseudoMarker, fullText ) )
                 if removeVerseBridges and pseudoMarker in ('v','c',):
@@ -855,6 +856,7 @@ class BibleWriter( InternalBible ):
                 if pseudoMarker in ('c#','vp#',):
                     # ignoredMarkers.add( pseudoMarker )
                     continue
+                if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our internal marker for a cl field before chapter 1
                 if pseudoMarker == 'usfm': # It was already in the file
                     addedUSFMversionField = True # Well, actually it will be added further down!
                 if pseudoMarker not in ('id','usfm') and not addedUSFMversionField:
@@ -1047,7 +1049,8 @@ class BibleWriter( InternalBible ):
                         #     vBridgeStartInt = vBridgeEndInt = None
 
                         if pseudoMarker == 'vp#': continue
-                        elif pseudoMarker in ('v','f','fr','x','xo',): # These fields should always end with a space but the processing will have removed them
+                        if pseudoMarker == 'cl¤': pseudoMarker = 'cl' # Our internal marker for a cl field before chapter 1
+                        if pseudoMarker in ('v','f','fr','x','xo',): # These fields should always end with a space but the processing will have removed them
                             #if self.doExtraChecking: assert value
                             # if pseudoMarker=='v' and 0 and removeVerseBridges:
                             #     vString = value
-- 
2.43.0


From c7f1d41db0a9e0d21199ae2aa4cb0f3edb26b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 035/217] fix: ESFM export wrote \ide and \rem lines before the
 \id line

---
 BibleOrgSys/BibleWriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 3b16782..9e8b8e6 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1004,7 +1004,7 @@ class BibleWriter( InternalBible ):
                 if 'id' not in initialMarkers:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write ID" )
                     myFile.write( '\\id {} — BibleOrgSys ESFM export v{}\n'.format( USFMAbbreviation.upper(), PROGRAM_VERSION ) )
-                if 'ide' not in initialMarkers:
+                if 'ide' not in initialMarkers and 'id' not in initialMarkers: # else they're written below after the id line
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write IDE" )
                     myFile.write( '\\ide UTF-8\n' )
                     if 'rem' not in initialMarkers:
@@ -1094,6 +1094,9 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, pseudoMarker, repr(ESFMLine) )
                     #if BBB=='GEN' and j > 20: halt
                     if ESFMLine: myFile.write( '{}\n'.format( ESFMLine ) )
+                    if pseudoMarker=='id' and 'ide' not in initialMarkers: # The id line must always come first
+                        myFile.write( '\\ide UTF-8\n' )
+                        if 'rem' not in initialMarkers: myFile.write( '\\rem ESFM v0.5 {}\n'.format( BBB ) )
                     if pseudoMarker in BOS_NESTING_MARKERS: # or pseudoMarker in ('ms','ms1','ms2','ms3','ms4'):
                         indentLevel += 1
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, indentLevel )
-- 
2.43.0


From d73fece3a929ea4b932a1de55b64dbdb87249174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 036/217] fix: loading an exported ESFM file took its nesting
 lines (\chapters, \v=) as chapters and verses

---
 BibleOrgSys/Formats/ESFMBibleBook.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESFMBibleBook.py b/BibleOrgSys/Formats/ESFMBibleBook.py
index 2939977..838f489 100755
--- a/BibleOrgSys/Formats/ESFMBibleBook.py
+++ b/BibleOrgSys/Formats/ESFMBibleBook.py
@@ -59,6 +59,7 @@ from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 from BibleOrgSys.Reference.USFM3Markers import OFTEN_IGNORED_USFM_HEADER_MARKERS
 from BibleOrgSys.InputOutput.ESFMFile import ESFMFile
+from BibleOrgSys.Internals.InternalBibleInternals import BOS_CUSTOM_NESTING_MARKERS
 from BibleOrgSys.Bible import Bible, BibleBook
 
 
@@ -467,7 +468,8 @@ class ESFMBibleBook( BibleBook ):
                 continue
 
             # Keep track of where we are for more helpful error messages
-            if marker=='c' and originalText: C, V = originalText.split()[0], '0'
+            if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=': continue # Ignore the nesting lines that toESFM writes
+            elif marker=='c' and originalText: C, V = originalText.split()[0], '0'
             elif marker=='v' and originalText:
                 V = originalText.split()[0]
                 if C == '-1': C = '1' # Some single chapter books don't have an explicit chapter 1 marker
-- 
2.43.0


From dabadfe246678d02b6203a5c039bdc5aafe5acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 037/217] fix: continuation lines after an empty marker in ESFM
 files got a leading space

---
 BibleOrgSys/InputOutput/ESFMFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index b03df82..bc66f27 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -128,7 +128,7 @@ class ESFMFile:
                                 oldmarker, oldtext = result.pop()
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
-                                result.append( (oldmarker, oldtext+' '+line) )
+                                result.append( (oldmarker, oldtext+' '+line if oldtext else line) )
                             continue
 
                     marker, text = splitUSFMMarkerFromText( line )
-- 
2.43.0


From 00ed5c7bf3c5776e4d233869c06b4e33fb13add2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 038/217] fix: ESFM export overwrote an ordinary \rem line with
 its own

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9e8b8e6..07ee586 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1020,7 +1020,7 @@ class BibleWriter( InternalBible ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write REM 2" )
                             myFile.write( '\\rem ESFM v0.5 {}\n'.format( BBB ) )
                         ESFMLine = ''
-                    elif j==2 and pseudoMarker=='rem':
+                    elif j==2 and pseudoMarker=='rem' and value.startswith( 'ESFM ' ): # Don't touch other remarks
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Write REM 3" )
                         if value != f'ESFM v0.5 {BBB}':
                             logger.info( "Updating {} ESFM rem line from {!r} to v0.5".format( BBB, value ) )
-- 
2.43.0


From 0d35875115f819356aa2b2191c9044df98cfb09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 039/217] fix: ESFM text starting with a character or note
 marker on its own line after an empty marker got a leading space

---
 BibleOrgSys/Formats/ESFMBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBibleBook.py b/BibleOrgSys/Formats/ESFMBibleBook.py
index 838f489..caf60a7 100755
--- a/BibleOrgSys/Formats/ESFMBibleBook.py
+++ b/BibleOrgSys/Formats/ESFMBibleBook.py
@@ -495,7 +495,7 @@ class ESFMBibleBook( BibleBook ):
                     loadErrors.append( _("{} {}:{} Found '\\{}' internal marker at beginning of line (with no text)").format( self.BBB, C, V, marker ) )
                     logging.warning( _("Found '\\{}' internal marker after {} {}:{} at beginning of line (with no text)").format( marker, self.BBB, C, V ) )
                 self.addPriorityError( 27, C, V, _("Found \\{} internal marker on new line in file").format( marker ) )
-                if not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
+                if lastText and not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
                 lastText +=  '\\' + marker + ' ' + text
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "{} {} {} Appended {}:{!r} to get combined line {}:{!r}".format( self.BBB, C, V, marker, text, lastMarker, lastText ) )
             elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
@@ -507,7 +507,7 @@ class ESFMBibleBook( BibleBook ):
                     loadErrors.append( _("{} {}:{} Found '\\{}' note marker at beginning of line (with no text)").format( self.BBB, C, V, marker ) )
                     logging.warning( _("Found '\\{}' note marker after {} {}:{} at beginning of line (with no text)").format( marker, self.BBB, C, V ) )
                 self.addPriorityError( 26, C, V, _("Found \\{} note marker on new line in file").format( marker ) )
-                if not lastText.endswith(' ') and marker!='f': lastText += ' ' # Not always good to add a space, but it's their fault! Don't do it for footnotes, though.
+                if lastText and not lastText.endswith(' ') and marker!='f': lastText += ' ' # Not always good to add a space, but it's their fault! Don't do it for footnotes, though.
                 lastText +=  '\\' + marker + ' ' + text
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "{} {} {} Appended {}:{!r} to get combined line {}:{!r}".format( self.BBB, C, V, marker, text, lastMarker, lastText ) )
             else: # the line begins with an unknown marker (ESFM doesn't allow custom markers)
-- 
2.43.0


From bf9cb47c8e79ed81d4d7f81fbc3306eff6799241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 040/217] fix: a line of a USFM or ESFM file starting with an
 endnote (\fe) was dropped

---
 BibleOrgSys/Formats/ESFMBibleBook.py | 2 +-
 BibleOrgSys/Formats/USFMBibleBook.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBibleBook.py b/BibleOrgSys/Formats/ESFMBibleBook.py
index caf60a7..594c6b0 100755
--- a/BibleOrgSys/Formats/ESFMBibleBook.py
+++ b/BibleOrgSys/Formats/ESFMBibleBook.py
@@ -498,7 +498,7 @@ class ESFMBibleBook( BibleBook ):
                 if lastText and not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
                 lastText +=  '\\' + marker + ' ' + text
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "{} {} {} Appended {}:{!r} to get combined line {}:{!r}".format( self.BBB, C, V, marker, text, lastMarker, lastText ) )
-            elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
+            elif marker in ('fe','fe*') or BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
             or marker and marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
                 if text:
                     loadErrors.append( _("{} {}:{} Found '\\{}' note marker at beginning of line with text: {!r}").format( self.BBB, C, V, marker, text ) )
diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..c770bbf 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -590,7 +590,7 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
                         if self.doExtraChecking: halt
-            elif BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
+            elif marker in ('fe','fe*') or BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
             or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
                 if text:
                     loadErrors.append( _("{} {}:{} Found '\\{}' note marker at beginning of line with text: {!r}").format( self.BBB, C, V, marker, text ) )
-- 
2.43.0


From 2ecf488f4e4be4fe4f5f240a07cf264bd54d354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 041/217] fix: USFM3 export wrote the \usfm version field in
 the first book only

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 07ee586..d3f9c82 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -809,7 +809,6 @@ class BibleWriter( InternalBible ):
         #assert controlDict and isinstance( controlDict, dict )
 
         # ignoredMarkers = set()
-        addedUSFMversionField = False
 
         # Adjust the extracted outputs
         for BBB,bookObject in self.books.items():
@@ -828,6 +827,7 @@ class BibleWriter( InternalBible ):
                     numC = numV = 0
 
             bookUSFM = ''
+            addedUSFMversionField = False
             # Prepend any important missing (header/title) fields
             if internalBibleBookData.contains( 'id', 1 ) is None:
                 bookUSFM += '\\id {} — BibleOrgSys USFM3 export v{}'.format( USFMAbbreviation.upper(), PROGRAM_VERSION )
-- 
2.43.0


From f1269d04f5b295fc66439c0a17e13205fc75c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 042/217] fix: a line of a USFM file starting with a character
 marker was dropped

---
 BibleOrgSys/Formats/USFMBibleBook.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c770bbf..5fbf21d 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -590,6 +590,9 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Never', debuggingThisFunction, 'USFM Para Markers', BibleOrgSysGlobals.USFMParagraphMarkers )
                         logging.critical( f"Programming error ¬ZALN: USFMBibleBook.load() lost '{self.workName}' {self.BBB}_{C}:{V} text after {lastMarker}='{lastText}': {marker}='{text}'" )
                         if self.doExtraChecking: halt
+                elif lastMarker:
+                    if lastText and not lastText.endswith(' '): lastText += ' ' # Not always good to add a space, but it's their fault!
+                    lastText +=  '\\' + marker + ' ' + text
             elif marker in ('fe','fe*') or BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker ) \
             or marker.endswith('*') and BibleOrgSysGlobals.loadedUSFMMarkers.isNoteMarker( marker[:-1] ): # the line begins with a note marker -- append it to the previous line
                 if text:
-- 
2.43.0


From 1dc9c7c3b4a1072649880737377c6964c60d41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 043/217] fix: XML escaping of text with notes was not written
 (USX export failed)

---
 BibleOrgSys/InputOutput/MLWriter.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..c697383 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -47,7 +47,7 @@ if __name__ == '__main__':
         sys.path.insert( 0, aboveAboveFolderpath )
 from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
-from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtraList
+from BibleOrgSys.Internals.InternalBibleInternals import InternalBibleExtra, InternalBibleExtraList
 
 
 LAST_MODIFIED_DATE = '2022-11-22' # by RJH
@@ -324,21 +324,15 @@ class MLWriter:
         if not extras: # We can use the simpler function
             return MLWriter.escape_characters( rawTextString, checkFirst ), extras
 
-        # Ok, we've got extras so we need to check more carefully
-        # Precounting might speed things up ??? (not profile tested yet)
-        escape_count = sum([rawTextString.count(c) for c in ESCAPE_MAP])
-        if escape_count == 0:
-            return MLWriter.escape_characters( rawTextString, checkFirst ), extras
-        else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
-
-        # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
-        char_strings, adjExtras = [], InternalBibleExtraList()
-        for ix,char in enumerate(rawTextString):
-            if char in ESCAPE_MAP:
-                dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{ix=} {char=}")
-        dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{rawTextString=} {char_strings=} {extras=} {adjExtras=}")
-        raise Exception("MLWriter: escape characters with extras NOT WRITTEN YET")
-        return ''.join(char_strings), adjExtras
+        # Ok, we've got extras so we need to escape them as well, and adjust their index numbers
+        adjExtras = InternalBibleExtraList()
+        for extraType,extraIndex,extraText,cleanExtraText in extras:
+            adjIndex = extraIndex + sum( len(ESCAPE_MAP[char])-1 for char in rawTextString[:extraIndex] if char in ESCAPE_MAP )
+            if extraType == 'ww': # the quotes around the attribute values are still needed
+                adjExtraText = extraText.replace( '&', '&amp;' ).replace( '<', '&lt;' ).replace( '>', '&gt;' )
+            else: adjExtraText = MLWriter.escape_characters( extraText )
+            adjExtras.append( InternalBibleExtra( extraType, adjIndex, adjExtraText, MLWriter.escape_characters( cleanExtraText ), '' ) )
+        return MLWriter.escape_characters( rawTextString, checkFirst ), adjExtras
     # end of MLWriter.escape_characters_with_extras static function
 
     def start( self, lineEndings:str='l', noAutoXML:bool=False, writeBOM:bool=False ) -> None:
-- 
2.43.0


From 593065eee82e0956933604f6470b507e953794fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 044/217] fix: markup writer wrote its files in the default
 encoding of the locale

---
 BibleOrgSys/InputOutput/MLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index c697383..f7bade3 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -356,7 +356,7 @@ class MLWriter:
             with open( self._outputFilePath, 'ab' ) as self.__outputFile: # Append binary bytes
                 self.__outputFile.write( b'\xef\xbb\xbf' )
                 #self.__outputFile.write( decode( codecs.BOM_UTF8 ) )
-        self.__outputFile = open( self._outputFilePath, 'at' ) # Append text mode
+        self.__outputFile = open( self._outputFilePath, 'at', encoding='utf-8' ) # Append text mode
         self._status = 'Open'
         self._currentColumn = 0
         if self._outputType=='XML' and not noAutoXML:
-- 
2.43.0


From a516f956bb58373e0beba9b45e74c73ae4471169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 045/217] fix: the unnumbered form of a deprecated numberable
 USFM marker (\ph) was not deprecated

---
 BibleOrgSys/Reference/USFM2Markers.py | 3 ++-
 BibleOrgSys/Reference/USFM3Markers.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..5e439ca 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -386,7 +386,8 @@ class USFM2Markers:
 
     def isDeprecatedMarker( self, marker ):
         """ Return True or False. """
-        return marker in self.__DataDict["deprecatedMarkersList"]
+        if marker not in self.__DataDict['combinedMarkerDict']: return False
+        return self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['deprecatedFlag']
 
 
     def isCompulsoryMarker( self, marker ):
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..8362f63 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -386,7 +386,8 @@ class USFM3Markers:
 
     def isDeprecatedMarker( self, marker ):
         """ Return True or False. """
-        return marker in self.__DataDict["deprecatedMarkersList"]
+        if marker not in self.__DataDict['combinedMarkerDict']: return False
+        return self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['deprecatedFlag']
 
 
     def isCompulsoryMarker( self, marker ):
-- 
2.43.0


From f7905009f4d672566da899aded3153b61e04ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 046/217] fix: list of character markers had the wrong numbered
 quotation milestones (qt-s1 for qt1-s)

---
 BibleOrgSys/Reference/USFM3Markers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 8362f63..ea71ac3 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -538,12 +538,15 @@ class USFM3Markers:
                     if includeNestedMarkers: result.append( nestedMarker + '*' )
                 if expandNumberableMarkers and self.isNumberableMarker( marker ):
                     for digit in range(1, int(self.__DataDict['rawMarkerDict'][self.toRawMarker(marker)]['highestNumberSuffix'])+1):
-                        str_digit = str(digit)
-                        result.append( adjMarker+str_digit )
-                        if includeNestedMarkers: result.append( nestedMarker+str_digit )
+                        if marker.endswith('-s') or marker.endswith('-e'): # milestones, e.g., qt1-s
+                            numberedMarker = f'{marker[:-2]}{digit}{marker[-2:]}'
+                        else: numberedMarker = f'{marker}{digit}'
+                        backslash = '\\' if includeBackslash else ''
+                        result.append( f'{backslash}{numberedMarker}' )
+                        if includeNestedMarkers: result.append( f'{backslash}+{numberedMarker}' )
                         if includeEndMarkers:
-                            result.append( adjMarker + str_digit + '*' )
-                            if includeNestedMarkers: result.append( nestedMarker + str_digit + '*' )
+                            result.append( f'{backslash}{numberedMarker}*' )
+                            if includeNestedMarkers: result.append( f'{backslash}+{numberedMarker}*' )
         return result
     # end of USFM3Markers.getCharacterMarkersList
 
-- 
2.43.0


From c484a4e0fd8dd35e7ac3b02fc6485264cb934f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 047/217] fix: text lines before the first field of an SFM,
 USFM or ESFM file are ignored as reported, not taken as fields

---
 BibleOrgSys/InputOutput/ESFMFile.py | 2 +-
 BibleOrgSys/InputOutput/SFMFile.py  | 2 +-
 BibleOrgSys/InputOutput/USFMFile.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index bc66f27..8012299 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -129,7 +129,7 @@ class ESFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line if oldtext else line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
diff --git a/BibleOrgSys/InputOutput/SFMFile.py b/BibleOrgSys/InputOutput/SFMFile.py
index 09c40b2..0b7e113 100755
--- a/BibleOrgSys/InputOutput/SFMFile.py
+++ b/BibleOrgSys/InputOutput/SFMFile.py
@@ -125,7 +125,7 @@ class SFMLines:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     lineAfterBackslash = line[1:]
                     si1 = lineAfterBackslash.find( ' ' )
diff --git a/BibleOrgSys/InputOutput/USFMFile.py b/BibleOrgSys/InputOutput/USFMFile.py
index fcec6a7..e78a605 100755
--- a/BibleOrgSys/InputOutput/USFMFile.py
+++ b/BibleOrgSys/InputOutput/USFMFile.py
@@ -177,7 +177,7 @@ class USFMFile:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Popped",oldmarker,oldtext)
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Adding", line, "to", oldmarker, oldtext)
                                 result.append( (oldmarker, oldtext+' '+line) )
-                            continue
+                        continue
 
                     marker, text = splitUSFMMarkerFromText( line )
                     if marker not in ignoreSFMs:
-- 
2.43.0


From 40d67501ea50c1620a44ab35284576154a2c7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 048/217] fix: a line of only spaces in an ESFM file became a
 field without a marker

---
 BibleOrgSys/InputOutput/ESFMFile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/ESFMFile.py b/BibleOrgSys/InputOutput/ESFMFile.py
index 8012299..66ffd96 100755
--- a/BibleOrgSys/InputOutput/ESFMFile.py
+++ b/BibleOrgSys/InputOutput/ESFMFile.py
@@ -115,7 +115,8 @@ class ESFMFile:
                     if line[0]=='#': continue # Just discard comment lines
 
                     while line and line[0]==' ': line = line[1:] # Remove leading spaces
-                    if line and line[0]!='\\': # Not a SFM line
+                    if not line: continue # Just discard lines of only spaces
+                    if line[0]!='\\': # Not a SFM line
                         if len(result)==0: # We don't have any SFM data lines yet
                             if BibleOrgSysGlobals.verbosityLevel > 2:
                                 logging.error( "Non-ESFM line in " + esfm_filename + " -- line ignored at #" + str(lineCount) )
-- 
2.43.0


From f4905a6f458f1e219e549df04ab711b836638da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 049/217] fix: SFMRecords.copyToDict failed when the record key
 was assumed by read

---
 BibleOrgSys/InputOutput/SFMFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/SFMFile.py b/BibleOrgSys/InputOutput/SFMFile.py
index 0b7e113..0da4c16 100755
--- a/BibleOrgSys/InputOutput/SFMFile.py
+++ b/BibleOrgSys/InputOutput/SFMFile.py
@@ -261,7 +261,7 @@ class SFMRecords:
 
                     if not key and marker not in ignoreSFMs:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '    Assuming', marker, 'to be the SFM key for', SFMFilepath)
-                        key = marker
+                        self.key = key = marker
                     if marker==key: # Save the previous record
                         if record and record[0][1] not in ignoreEntries: # Looks at the text associated with the first (record key) marker
                             strippedRecord = []
-- 
2.43.0


From 33817b18a1bd16228ec4fce1825203bb906899d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 050/217] fix: readListFile always failed with a NameError

---
 BibleOrgSys/InputOutput/ControlFiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/ControlFiles.py b/BibleOrgSys/InputOutput/ControlFiles.py
index 6317940..6d4105f 100755
--- a/BibleOrgSys/InputOutput/ControlFiles.py
+++ b/BibleOrgSys/InputOutput/ControlFiles.py
@@ -58,7 +58,7 @@ def readListFile( folder, filename, outputList, debug=False ):
         if not isinstance( outputList, list): raise ValueError('List expected here')
         oldlen = len( outputList )
 
-    if Controls['VerbosityLevel'] > 1: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '    Loading list file', filename + '…' )
+    vPrint( 'Info', DEBUGGING_THIS_MODULE, '    Loading list file', filename + '…' )
     lines = []
     with open( os.path.join( folder, filename ), encoding='utf-8' ) as myFile: # Automatically closes the file when done
         for line in myFile:
-- 
2.43.0


From c1e91c3e7815f80e2276c6a75423b2d3f84953d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 051/217] fix: TextFile read its file in the default encoding
 of the locale

---
 BibleOrgSys/InputOutput/TextFile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/TextFile.py b/BibleOrgSys/InputOutput/TextFile.py
index 148c748..7b523fd 100755
--- a/BibleOrgSys/InputOutput/TextFile.py
+++ b/BibleOrgSys/InputOutput/TextFile.py
@@ -70,7 +70,7 @@ class TextFile:
             logging.critical( "TextFile.__init__ seems to have too little or too much information: {} {} {}".format( filepath, folderpath, filename ) )
 
         if autoLoad:
-            with open( self.filepath, mode='rt', encoding=encoding ) as myFile: # Automatically closes the file when done
+            with open( self.filepath, mode='rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
                 self.fileText = myFile.read()
         else: self.fileText = None
         self.changed = False
-- 
2.43.0


From 3606b4d9865b91bd545a426736835be3d222444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 052/217] fix: peekIntoFile returned None instead of the list
 of lines for a file with fewer lines than requested

---
 BibleOrgSys/BibleOrgSysGlobals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..55b197e 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -717,6 +717,7 @@ def peekIntoFile( filenameOrFilepath, folderName=None, numLines:int=1, encoding:
                     if numLines==1: return line # Always returns the first line (string)
                     lines.append( line )
                     if lineNumber >= numLines: return lines # Return a list of lines
+            if numLines > 1: return lines # The file doesn't have that many lines
         except UnicodeDecodeError: # Could be binary or a different encoding
             #if not filepath.lower().endswith( 'usfm-color.sty' ): # Seems this file isn't UTF-8, but we don't need it here anyway so ignore it
             (logging.warning if DEBUGGING_THIS_MODULE or debugFlag else logging.info)( f"{'BibleOrgSysGlobals.' if debugFlag else ''}peekIntoFile: Seems we couldn't decode '{tryEncoding}' in {filepath}" )
-- 
2.43.0


From b17315be16d59351c73b32cfccdfff02b2470729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 053/217] fix: isBlank returned False for an empty string

---
 BibleOrgSys/BibleOrgSysGlobals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 55b197e..1d8a54f 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1206,7 +1206,7 @@ def isBlank( elementText ):
     # fnPrint( DEBUGGING_THIS_MODULE, "isBlank( {!r} )".format( elementText ) )
     if elementText is None: return True
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "isspace()", elementText.isspace() )
-    return elementText.isspace()
+    return not elementText or elementText.isspace()
 # end of BibleOrgSysGlobals.isBlank
 
 
-- 
2.43.0


From 2da25d2ee6814b57a406cf55b14d319b89034db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 054/217] fix: removeStringEndings removed the whole string for
 an empty ending

---
 BibleOrgSys/BibleOrgSysGlobals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 1d8a54f..1726227 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1297,7 +1297,7 @@ def removeStringEndings( originalText:str, endingsList:list[str] ) -> str:
     """
     newText = originalText
     for ending in endingsList:
-        if newText.endswith( ending ):
+        if ending and newText.endswith( ending ):
             newText = newText[:-len(ending)]
     return newText
 # end of BibleOrgSysGlobals.stripWordEndsPunctuation
-- 
2.43.0


From e340ca3883bf511e85efd0860fd6a2aa7221b2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 055/217] fix: fileCompare reported two identical files with
 "<verse eid" after a space as different

---
 BibleOrgSys/BibleOrgSysGlobals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 1726227..2b4c168 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -801,6 +801,7 @@ def fileCompare( filename1, filename2, folder1=None, folder2=None, printFlag=Tru
     with open( filepath1, 'rt', encoding='utf-8' ) as file1:
         for line in file1:
             lineCount += 1
+            line = line.replace(' <verse eid','<verse eid') # TEMP .................................................................
             if lineCount==1 and line[0]==BOM:
                 if printFlag and verbosityLevel > 2:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "      fileCompare: Detected Unicode Byte Order Marker (BOM) in file1" )
-- 
2.43.0


From ea60fd9ec000fb078695b84ffe2e6bf9d91564a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 056/217] fix: setVerbosity failed instead of reporting an
 invalid level

---
 BibleOrgSys/BibleOrgSysGlobals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 2b4c168..bfb9c22 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1466,7 +1466,7 @@ def setVerbosity( verbosityLevelParameter: str | int ) -> None:
         elif verbosityLevelParameter == 4:
             verbosityLevel = verbosityLevelParameter
             verbosityString = 'Verbose'
-        else: logging.error( "Invalid '" + verbosityLevelParameter + "' verbosity parameter" )
+        else: logging.error( f"Invalid '{verbosityLevelParameter}' verbosity parameter" )
 
     dPrint( 'Verbose', DEBUGGING_THIS_MODULE, '  Verbosity =', verbosityString )
     dPrint( 'Verbose', DEBUGGING_THIS_MODULE, '  VerbosityLevel =', verbosityLevel )
-- 
2.43.0


From c7570dc45e4ee043f84f5efaf83715e0873ba797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 057/217] fix: stripWordEndsPunctuation left punctuation at the
 ends of words like '(word.),'

---
 BibleOrgSys/BibleOrgSysGlobals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index bfb9c22..28ad3b2 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1286,7 +1286,8 @@ def stripWordEndsPunctuation( wordToken:str ) -> str:
     for startChar,endChar in MATCHING_OPENING_CHARACTERS.items():
         if wordToken.startswith(startChar) and wordToken.endswith(endChar) \
         and startChar not in wordToken[1:-1] and endChar not in wordToken[1:-1]:
-            wordToken = wordToken[len(startChar):-len(endChar)] # Remove front and back matching/opposite characters
+            # Remove front and back matching/opposite characters, and then any punctuation that was inside them, e.g., '(word.),'
+            return stripWordEndsPunctuation( wordToken[len(startChar):-len(endChar)] )
     return wordToken
 # end of BibleOrgSysGlobals.stripWordEndsPunctuation
 
-- 
2.43.0


From 25d33668b591275d10c5edf92215a9c0012eb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 058/217] fix: Hebrew final kaf was taken as a final qof, and
 final pe was missing

---
 BibleOrgSys/OriginalLanguages/Hebrew.py | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index 7b47d95..420e8c2 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -59,23 +59,23 @@ zayin = 'ז'
 het = 'ח'
 tet = 'ט'
 yod = 'י'
-kaf = 'כ'
+kaf = 'כ'; kafFinal = 'ך'
 lamed = 'ל'
 mem = 'מ'; memFinal = 'ם'
 nun = 'נ'; nunFinal = 'ן'
 samekh = 'ס'
 ayin = 'ע'
-pe = 'פ'
+pe = 'פ'; peFinal = 'ף'
 tsadi = 'צ'; tsadiFinal = 'ץ'
-qof = 'ק'; qofFinal = 'ך'
+qof = 'ק'
 resh = 'ר'
 sinShin = 'ש'
 taw = 'ת'
 normalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kaf, lamed, mem, nun, samekh, ayin, pe, tsadi, qof, resh, sinShin, taw, )
 assert len(normalConsonants) == 22
-finalConsonants = ( memFinal, nunFinal, tsadiFinal, qofFinal, )
+finalConsonants = ( kafFinal, memFinal, nunFinal, peFinal, tsadiFinal, )
 consonants = normalConsonants + finalConsonants
-allFinalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kaf, lamed, memFinal, nunFinal, samekh, ayin, pe, tsadiFinal, qofFinal, resh, sinShin, taw, )
+allFinalConsonants = ( alef, bet, gimel, dalet, he, waw, zayin, het, tet, yod, kafFinal, lamed, memFinal, nunFinal, samekh, ayin, peFinal, tsadiFinal, qof, resh, sinShin, taw, )
 
 
 # Vowel points
@@ -156,14 +156,14 @@ BOS_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'v'),
             (zayin+dageshOrMapiq,'zz'),(zayin,'z'),
             (het+dageshOrMapiq,'ħ'),(het,'ħ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'kk'),(kaf,'k'),
+            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'kk'),(kaf,'k'), (kafFinal+dageshOrMapiq,'kk'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'ll'),(lamed,'l'),
             (mem+dageshOrMapiq,'mm'),(mem,'m'), (memFinal+dageshOrMapiq,'mm'),(memFinal,'m'),
             (nun+dageshOrMapiq,'nn'),(nun,'n'), (nunFinal+dageshOrMapiq,'nn'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'f'),
+            (pe+dageshOrMapiq,'p'),(pe,'f'), (peFinal+dageshOrMapiq,'p'),(peFinal,'f'),
             (tsadi+dageshOrMapiq,'ʦʦ'),(tsadi,'ʦ'), (tsadiFinal+dageshOrMapiq,'ʦʦ'),(tsadiFinal,'ʦ'),
-            (qof+dageshOrMapiq,'qq'),(qof,'q'), (qofFinal+dageshOrMapiq,'qq'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'qq'),(qof,'q'),
             (resh+dageshOrMapiq,'rr'),(resh,'r'),
             (sinShin+shinDot,'sh'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'tt'),(taw,'t'),
             (sheva,'(ə)'),(hatafSegol,'e'),(segol,'e'),(hiriq,'i'),(tsere,'ē'),(patah,'a'),(qamats,'ā'),(holam,'o'),(qubuts,'u'),
@@ -190,14 +190,14 @@ STANDARD_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'w'),
             (zayin+dageshOrMapiq,'z'),(zayin,'z'),
             (het+dageshOrMapiq,'ḥḥ'),(het,'ḥ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'yy'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'),
+            (yod+dageshOrMapiq,'yy'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'), (kafFinal+dageshOrMapiq,'k'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'ll'),(lamed,'l'),
             (mem+dageshOrMapiq,'mm'),(mem,'m'), (memFinal+dageshOrMapiq,'m'),(memFinal,'m'),
             (nun+dageshOrMapiq,'nn'),(nun,'n'), (nunFinal+dageshOrMapiq,'n'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'̄p'),
+            (pe+dageshOrMapiq,'p'),(pe,'̄p'), (peFinal+dageshOrMapiq,'p'),(peFinal,'̄p'),
             (tsadi+dageshOrMapiq,'ṣṣ'),(tsadi,'ṣ'), (tsadiFinal+dageshOrMapiq,'ṣṣ'),(tsadiFinal,'ṣ'),
-            (qof+dageshOrMapiq,'q'),(qof,'q'), (qofFinal+dageshOrMapiq,'q'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'q'),(qof,'q'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
             (sinShin+shinDot,'š'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'t'),(taw,'t'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
@@ -226,14 +226,14 @@ BOS_NAMES_HEBREW_TRANSLITERATION = (
             (waw+dageshOrMapiq,'u'),(waw+dageshOrMapiq,'ō'),(waw,'v'),
             (zayin+dageshOrMapiq,'z'),(zayin,'z'),
             (het+dageshOrMapiq,'ħ'),(het,'ħ'), (tet+dageshOrMapiq,'ŧ'),(tet,'ŧ'),
-            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'),
+            (yod+dageshOrMapiq,'u'),(yod,'y'), (kaf+dageshOrMapiq,'k'),(kaf,'k'), (kafFinal+dageshOrMapiq,'k'),(kafFinal,'k'),
             (lamed+dageshOrMapiq,'l'),(lamed,'l'),
             (mem+dageshOrMapiq,'m'),(mem,'m'), (memFinal+dageshOrMapiq,'m'),(memFinal,'m'),
             (nun+dageshOrMapiq,'n'),(nun,'n'), (nunFinal+dageshOrMapiq,'n'),(nunFinal,'n'),
             (samekh+dageshOrMapiq,'ş'),(samekh,'ş'), (ayin+dageshOrMapiq,''),(ayin,''),
-            (pe+dageshOrMapiq,'p'),(pe,'f'),
+            (pe+dageshOrMapiq,'p'),(pe,'f'), (peFinal+dageshOrMapiq,'p'),(peFinal,'f'),
             (tsadi+dageshOrMapiq,'ʦ'),(tsadi,'ʦ'), (tsadiFinal+dageshOrMapiq,'ʦ'),(tsadiFinal,'ʦ'),
-            (qof+dageshOrMapiq,'q'),(qof,'q'), (qofFinal+dageshOrMapiq,'q'),(qofFinal,'q'),
+            (qof+dageshOrMapiq,'q'),(qof,'q'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
             (sinShin+shinDot,'sh'),(sinShin+sinDot,'s'), (taw+dageshOrMapiq,'t'),(taw,'t'),
             (resh+dageshOrMapiq,'r'),(resh,'r'),
-- 
2.43.0


From 0ceb51f5239f4cde4a2ce94c334db9ff9db09ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 059/217] fix: Hebrew.removeVowelPointing and removeOtherMarks
 ignored their option for the object's own text

---
 BibleOrgSys/OriginalLanguages/Hebrew.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index 420e8c2..b67b3ee 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -434,7 +434,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeVowelPointing( {!r}, {} )".format( text, removeMetegOrSiluq ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeVowelPointing( self.currentText ) # recursive call
+            self.currentText = self.removeVowelPointing( self.currentText, removeMetegOrSiluq ) # recursive call
             return self.currentText
         # else we were given some text to process
         if removeMetegOrSiluq: text = self._removeMetegOrSiluq( text, asVowel=True )
@@ -451,7 +451,7 @@ class Hebrew():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "removeOtherMarks( {!r} )".format( text ) )
 
         if text is None: # Use our own text
-            self.currentText = self.removeOtherMarks( self.currentText ) # recursive call
+            self.currentText = self.removeOtherMarks( self.currentText, removeSinShinDots ) # recursive call
             return self.currentText
         # else we were given some text to process
         text = self.removeAllMetegOrSiluq( text )
-- 
2.43.0


From 0bd5752e9d78e23696d09bfafae697a217809b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 060/217] fix: Greek and Hebrew helpers failed on texts with
 characters without a Unicode name, such as a line feed

---
 BibleOrgSys/OriginalLanguages/Greek.py  |  2 +-
 BibleOrgSys/OriginalLanguages/Hebrew.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/OriginalLanguages/Greek.py b/BibleOrgSys/OriginalLanguages/Greek.py
index 001dc7d..1958c8f 100755
--- a/BibleOrgSys/OriginalLanguages/Greek.py
+++ b/BibleOrgSys/OriginalLanguages/Greek.py
@@ -259,7 +259,7 @@ class Greek():
         # Check
         for cc,char in enumerate( resultText ):
             if char != ' ':
-                assert 'ACCENT' not in unicodedata.name(char), f"Greek accent not removed by removeAccents: {char=} ({unicodedata.name(char)}) from {text=}"
+                assert 'ACCENT' not in unicodedata.name(char,''), f"Greek accent not removed by removeAccents: {char=} ({unicodedata.name(char)}) from {text=}"
 
         # Check2 (unreliable???)
         # for char in resultText:
diff --git a/BibleOrgSys/OriginalLanguages/Hebrew.py b/BibleOrgSys/OriginalLanguages/Hebrew.py
index b67b3ee..1ab630e 100755
--- a/BibleOrgSys/OriginalLanguages/Hebrew.py
+++ b/BibleOrgSys/OriginalLanguages/Hebrew.py
@@ -341,12 +341,12 @@ class Hebrew():
         this = ( ' ', '־', )
         for j,letter in enumerate(text):
             if letter not in consonants and letter not in this:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) non-consonant at index {} in {!r}".format( letter, unicodedata.name(letter), j, text ) )
+                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) non-consonant at index {} in {!r}".format( letter, unicodedata.name(letter,''), j, text ) )
                 haveError = True
             if letter in finalConsonants and j<textLength-1:
                 nextLetter = text[j+1]
                 if nextLetter not in this:
-                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) final consonant before {!r} ({}) at index {} in {!r}".format( letter, unicodedata.name(letter), nextLetter, unicodedata.name(nextLetter), j, text ) )
+                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Found unexpected {!r} ({}) final consonant before {!r} ({}) at index {} in {!r}".format( letter, unicodedata.name(letter,''), nextLetter, unicodedata.name(nextLetter,''), j, text ) )
                     haveError = True
         return haveError
     # end of Hebrew.verifyConsonantsOnly
@@ -381,20 +381,20 @@ class Hebrew():
                 nextMark = text[j+1] if j<textLength-1 else ''
                 if previousMark in ( patah, segol ) or nextMark in (): # Assume it's a vowel point meteg
                     if asVowel:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (vowel point) meteg after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (vowel point) meteg after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                         text = text[:j] + text[j+1:]
                         madeChanges = True
                         break
                     else:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (vowel point) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (vowel point) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                 else: # it doesn't appear to be a vowel point meteg
                     if not asVowel:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (cantillation mark) siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Deleting (cantillation mark) siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
                         text = text[:j] + text[j+1:]
                         madeChanges = True
                         break
                     else:
-                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (cantillation mark) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark) if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark) if nextMark else ''})" )
+                        vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Ignoring (cantillation mark) meteg/siluq after {previousMark!r} ({unicodedata.name(previousMark,'') if previousMark else ''}) and before {nextMark!r} ({unicodedata.name(nextMark,'') if nextMark else ''})" )
             if not madeChanges: break # Check for another meteg if we made any changes
         return text
     # end of Hebrew._removeMetegOrSiluq
@@ -411,7 +411,7 @@ class Hebrew():
             if 1 or BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                 for char in self.currentText:
                     # print( f"{ord(char)=} {unicodedata.name(char)=} {char=} {unicodedata.category(char)=} {unicodedata.bidirectional(char)=} {unicodedata.combining(char)=} {unicodedata.mirrored(char)=}" )
-                    assert 'ACCENT' not in unicodedata.name(char), f"{unicodedata.name(char)=}"
+                    assert 'ACCENT' not in unicodedata.name(char,''), f"{unicodedata.name(char)=}"
             return self.currentText
 
         # else we were given some text to process
-- 
2.43.0


From 80d4695aa10cfc70cd7113ef87b540ce35e584e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 061/217] fix: Greek.removeAccents left the accents of some
 lowercase letters

---
 BibleOrgSys/OriginalLanguages/Greek.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/BibleOrgSys/OriginalLanguages/Greek.py b/BibleOrgSys/OriginalLanguages/Greek.py
index 1958c8f..8dbe325 100755
--- a/BibleOrgSys/OriginalLanguages/Greek.py
+++ b/BibleOrgSys/OriginalLanguages/Greek.py
@@ -136,6 +136,15 @@ GREEK_ACCENT_DICT = {
     'ύ':'υ', 'ὺ':'υ', 'ὐ':'υ', 'ὑ':'υ', 'ῦ':'υ', 'ὕ':'υ', 'ὖ':'υ', 'ὗ':'υ', 'ϋ':'υ', 'ὓ':'υ', 'ὔ':'υ', 'ὒ':'υ',
              'ΰ':'υ', 'ῢ':'υ',
     'ῥ':'ρ',
+    # Rarer lowercase ones, including the ones with oxia instead of tonos
+    'ἇ':'α', 'ά':'α', 'ᾀ':'α', 'ᾁ':'α', 'ᾂ':'α', 'ᾃ':'α', 'ᾆ':'α', 'ᾇ':'α', 'ᾲ':'α',
+    'ἒ':'ε', 'έ':'ε',
+    'ἲ':'ι', 'ῗ':'ι',
+    'ὣ':'ω', 'ώ':'ω', 'ᾡ':'ω', 'ᾢ':'ω', 'ᾣ':'ω', 'ᾤ':'ω', 'ᾥ':'ω', 'ᾦ':'ω', 'ῲ':'ω',
+    'ή':'η', 'ᾒ':'η', 'ᾓ':'η', 'ᾕ':'η', 'ῂ':'η',
+    'ό':'ο',
+    'ύ':'υ', 'ΰ':'υ', 'ῧ':'υ',
+    'ῤ':'ρ',
     }
 
 if BibleOrgSysGlobals.debugFlag: # Check that our tables have no obvious errors
-- 
2.43.0


From a1428cfb2f984825b14a4961077559310f725a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 062/217] fix: moderniseEnglishWords without options always
 failed, because some words have three options

---
 BibleOrgSys/Reference/OldBiblicalEnglish.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/OldBiblicalEnglish.py b/BibleOrgSys/Reference/OldBiblicalEnglish.py
index d7a20c4..3f18c14 100644
--- a/BibleOrgSys/Reference/OldBiblicalEnglish.py
+++ b/BibleOrgSys/Reference/OldBiblicalEnglish.py
@@ -2448,8 +2448,7 @@ def moderniseEnglishWords( htmlStr:str, allowOptions:bool|None=False ) -> str:
 
     for oldWords,newWord in ENGLISH_WORD_MAP:
         if not allowOptions and '/' in newWord:
-            assert newWord.count( '/' ) == 1, f'Too many forward slashes: {oldWords=} {newWord=}'
-            newWord = newWord.split( '/' )[1].replace('_or_','/') # Eliminate the first option and the forward slash (but maybe add a new forward slash)
+            newWord = newWord.split( '/', 1 )[1].replace('_or_','/') # Eliminate the first option and the forward slash (but maybe add a new forward slash)
         for oldWord in oldWords:
             htmlStr = htmlStr.replace( oldWord, newWord )
             # if a word is enclosed by space(s), also try angle brackets in case it's in a <span>word<span> sequence
-- 
2.43.0


From 8522c63686fbc6a125aa34e15d782804da9f23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 063/217] fix: moderniseEnglishWords without options cut an
 entry with an HTML end tag at its slash

---
 BibleOrgSys/Reference/OldBiblicalEnglish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/OldBiblicalEnglish.py b/BibleOrgSys/Reference/OldBiblicalEnglish.py
index 3f18c14..31dadc3 100644
--- a/BibleOrgSys/Reference/OldBiblicalEnglish.py
+++ b/BibleOrgSys/Reference/OldBiblicalEnglish.py
@@ -2447,7 +2447,7 @@ def moderniseEnglishWords( htmlStr:str, allowOptions:bool|None=False ) -> str:
     fnPrint( DEBUGGING_THIS_MODULE, f"moderniseEnglishWords( ({len(htmlStr)}) )" )
 
     for oldWords,newWord in ENGLISH_WORD_MAP:
-        if not allowOptions and '/' in newWord:
+        if not allowOptions and '/' in newWord.replace( '</', '' ): # Not for the slash of an end tag
             newWord = newWord.split( '/', 1 )[1].replace('_or_','/') # Eliminate the first option and the forward slash (but maybe add a new forward slash)
         for oldWord in oldWords:
             htmlStr = htmlStr.replace( oldWord, newWord )
-- 
2.43.0


From 2022d12ddbf6874d475dd003b183c37c60170bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 064/217] fix: BibleReferenceList gave a verse suffix before a
 ';' to the next reference as well

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..7943022 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -958,7 +958,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     V, S = '', ''
                 elif V and (char in self.punctuationDict['chapterSeparator'] or char in self.punctuationDict['bookSeparator']):
                     saveReference( BBB, C, V, S, self.referenceList )
-                    V = ''
+                    V, S = '', ''
                     if self.punctuationDict['chapterSeparator'] == self.punctuationDict['bookSeparator']:
                         temp, spaceCount = '', 0
                         status = 4 # We don't know what to expect next
-- 
2.43.0


From 519196435ab37fa1ffe3b19e36d5bf3c7480bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 065/217] fix: BibleReferenceList failed on verse ranges ending
 with suffixes like 'd', or with a book name or other text

---
 BibleOrgSys/Reference/BibleReferences.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 7943022..e15e10a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -754,27 +754,30 @@ class BibleReferenceList( BibleReferenceBase ):
             """
             Checks the reference info then saves it as a referenceTuple in the refList.
             """
+            nonlocal haveErrors, haveWarnings, totalVerseList
             fnPrint( DEBUGGING_THIS_MODULE, f"BibleReferences.saveReferenceRange( startTuple={startTuple}, {BBB}, {C}:{V}, S={S}, refList={refList}" )
-            if V and not S and V[-1] in ('a','b','c',): # Remove the suffix
+            if V and not S and ( V[-1] in ('a','b','c',) or V[-1] in self.punctuationDict['allowedVerseSuffixes'] ): # Remove the suffix
                 S = V[-1]; V = V[:-1]
             if V=='3O': V = '30' # Fix a bug in byr-w.usfm
             if not BBB:
                 logging.error( _("saveReferenceRange: Missing BBB parameter from {} Bible reference {!r}").format( BBB, referenceString ) )
             if not C:
                 logging.error( _("saveReferenceRange: Missing C parameter from {} Bible reference {!r}").format( BBB, referenceString ) )
+                haveErrors = True
             elif C!='-1' and not C.isdigit():
                 logging.error( _("saveReferenceRange: Non-digit {} C parameter from {} Bible reference {!r}").format( repr(C), BBB, referenceString ) )
             if not V:
                 logging.error( _("saveReferenceRange: Missing V parameter from {} Bible reference {!r}").format( BBB, referenceString ) )
             elif not V.isdigit():
                 logging.error( _("saveReferenceRange: Non-digit {} V parameter from {} Bible reference {!r}").format( repr(V), BBB, referenceString ) )
+                haveErrors = True
+                return # It's not a range of verses
             if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                 assert BBB is None or len(BBB) == 3
                 assert not C or C.isdigit() # Should be no suffix on C (although it can be blank if the reference is for a whole book)
                 assert not V or V.isdigit() # Should be no suffix on V (although it can be blank if the reference is for a whole chapter)
                 assert not S or len(S)==1 and S.isalpha() # Suffix should be only one lower-case letter if anything
 
-            nonlocal haveErrors, haveWarnings, totalVerseList
             if len(S) > 1:
                 logging.error( _("saveReferenceRange: Unexpected long {!r} suffix in {} Bible reference {!r}").format( S, BBB, referenceString ) )
                 haveErrors = True
-- 
2.43.0


From cc3c73509bd562d1f40cbc5a1df46e3b695ae686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 066/217] fix: BibleReferenceList silently ignored a chapter
 number or other text after the last separator

---
 BibleOrgSys/Reference/BibleReferences.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index e15e10a..eacb87a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1195,6 +1195,13 @@ class BibleReferenceList( BibleReferenceBase ):
                 status = 9
         elif status==3: # Got a C but still getting the V hopefully
             if V: status = 4
+        elif status==4 and temp.isdigit() and BBB is not None: # Must be a chapter number (or the verse number of a one chapter book)
+            C, V, S = ('1', temp, '') if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ) else (temp, '', '')
+            saveReference( BBB, C, V, S, self.referenceList )
+            status = 9
+        elif status==4 and temp: # There's something left which isn't a reference
+            logging.error( _("Unable to deduce chapter or book name from {!r} in Bible reference {!r}").format( temp, referenceString ) )
+            haveErrors = True
         elif status==4: # Must have ended with a separator character
             logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
             haveWarnings = True
-- 
2.43.0


From a8eaf616ef3c9701017c78244b785c5fa8bed3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 067/217] fix: BibleReferenceList refused another book after a
 verse of a single chapter book

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index eacb87a..9d3be06 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -932,8 +932,8 @@ class BibleReferenceList( BibleReferenceBase ):
                         status = 3 # Get the next verse number
                     elif char in self.punctuationDict['bookSeparator']:
                         saveReference( BBB, C, V, S, self.referenceList )
-                        BBB, C = None, ''
-                        status = 0
+                        temp, spaceCount, C = '', 0, ''
+                        status = 4 # Must be a book name next
                     elif char in self.punctuationDict['verseBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
                         status = 8 # Getting verse range
-- 
2.43.0


From c460194729cfa9f9333788845ddaa2f77fc99d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:22 +0000
Subject: [PATCH 068/217] fix: BibleReferenceList accepted ranges whose end is
 before their start

---
 BibleOrgSys/Reference/BibleReferences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 9d3be06..df13f9c 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -786,8 +786,9 @@ class BibleReferenceList( BibleReferenceBase ):
             if BBB is None or not self._BibleOrganisationalSystem.isValidBCVRef( finishTuple, referenceString ): # No error messages here because it will be caught at expandCVRange below
                 haveErrors = True # Just set this flag
             rangeTuple = (startTuple, finishTuple,)
-            verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem )
+            verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem ) if not haveErrors else None
             if verseList is not None: totalVerseList.extend( verseList )
+            else: haveErrors = True # e.g., the end is before the start
             if rangeTuple in refList:
                 logging.warning( _("saveReferenceRange: Reference range {} is repeated in Bible reference {!r}").format( rangeTuple, referenceString ) )
                 haveWarnings = True
-- 
2.43.0


From 4992a2f2e5f790db0dc687a96becaf158901941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 069/217] fix: BibleReferenceList accepted unknown second books
 in ranges, and didn't know ones like '1 Cor' there

---
 BibleOrgSys/Reference/BibleReferences.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index df13f9c..1757a74 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1048,9 +1048,13 @@ class BibleReferenceList( BibleReferenceBase ):
                 elif char==' ' and BBB and C and X: # Assume it's the space after a book name
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "here with", BBB, C, X )
                     BBB2 = self.getBBBFromText( X )
+                    if BBB2 is None and X in ('1','2','3','4','I','II','III','IV'): # Could be something like 1 Cor
+                        X += char
+                        continue
                     if BBB2 is None: # it seems that we couldn't discover the book name
                         logging.error( _("Unrecognized {!r} second bookname in Bible reference {!r}").format( X, referenceString ) )
-                        BBB2 = "???"
+                        haveErrors = True
+                        break
                     BBB = BBB2
                     C = V = S = X = ''
                     status = 7 # Getting chapter range
-- 
2.43.0


From a5324a6d9f6ecbc8dea943e627f63c21f52e9996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 070/217] fix: BibleReferenceList refused ranges from a verse
 of a single chapter book to another book

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 1757a74..74dc73a 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -935,9 +935,9 @@ class BibleReferenceList( BibleReferenceBase ):
                         saveReference( BBB, C, V, S, self.referenceList )
                         temp, spaceCount, C = '', 0, ''
                         status = 4 # Must be a book name next
-                    elif char in self.punctuationDict['verseBridgeCharacter']:
+                    elif char in self.punctuationDict['verseBridgeCharacter'] or char in self.punctuationDict['bookBridgeCharacter']:
                         saveStartReference( BBB, C, V, S )
-                        status = 8 # Getting verse range
+                        status, X = 5, '' # Getting verse or book range
                     else:
                         logging.error( _("Unexpected {!r} character when processing single chapter book {} at position {} in Bible reference {!r}").format( char, BBB, nnn, referenceString ) )
                         haveErrors = True
-- 
2.43.0


From dd7c127b3f178e944a298cc5490ac54b46081e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 071/217] fix: BibleReferenceList refused ranges from a chapter
 to another book, even its own Gen.1-Gen.3 OSIS form

---
 BibleOrgSys/Reference/BibleReferences.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 74dc73a..0212da2 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1135,6 +1135,8 @@ class BibleReferenceList( BibleReferenceBase ):
                     C += char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 8 # Start getting the verse number
+                elif char.isalpha() or ( char==' ' and C in ('1','2','3','4') ): # Must be a second book name
+                    status, X, C = 5, C+char, ''
                 elif C and char in self.punctuationDict['verseSeparator'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
                     V = C
                     C = '1'
-- 
2.43.0


From 119db2e4c0f9b93338784793e0514cfb4e0012c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 072/217] fix: BibleSingleReferences refused further references
 after a verse of a single chapter book

---
 BibleOrgSys/Reference/BibleReferences.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 0212da2..cbd14d2 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -535,6 +535,12 @@ class BibleSingleReferences( BibleReferenceBase ):
                     S = char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 3 # Start getting the verse number
+                elif C and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ) \
+                and ( char in self.punctuationDict['verseSeparator'] or char in self.punctuationDict['bookSeparator'] ):
+                    saveReference( BBB, '1', C, S, refList )
+                    V, S = '', ''
+                    if char in self.punctuationDict['verseSeparator']: C, status = '1', 3 # Get the next verse number
+                    else: temp, spaceCount, C, status = '', 0, '', 4 # Must be a book name next
                 else:
                     logging.error( _("Unexpected {!r} character when getting chapter number in {} Bible reference {!r}").format( char, BBB, referenceString ) )
                     haveErrors = True
-- 
2.43.0


From a52b9588cd963cc263f073ccb8d8448d3f8a0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 073/217] fix: BibleSingleReferences added a whole chapter when
 there was a chapter number or nothing after the last separator

---
 BibleOrgSys/Reference/BibleReferences.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index cbd14d2..51e1ea5 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -619,12 +619,22 @@ class BibleSingleReferences( BibleReferenceBase ):
                 continue
         if status==3: # Got a C but still getting the V hopefully
             if V: status = 4
+        elif status==4 and temp: # There's something left which isn't a single verse
+            if temp.isdigit() and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
+                C, V, S = '1', temp, ''
+            else:
+                logging.error( _("Unable to deduce chapter and verse or book name from {!r} in Bible reference {!r}").format( temp, referenceString ) )
+                haveErrors = True
+        elif status==4: # Must have ended with a separator character
+            logging.warning( _("Bible reference {!r} ended with a separator character").format( referenceString ) )
+            haveWarnings = True
+            status = 9
         if BBB is not None:
             if status==2 and C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
                 status = 4
-            if status>=4 and not haveErrors:
+            if status==4 and not haveErrors:
                 saveReference( BBB, C, V, S, refList )
                 status = 9
         self.referenceList = refList
-- 
2.43.0


From 8700895a3e7a0f931d0c8e7aa991859582b44066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 074/217] fix: containsReference logged an error for each
 character of a correct verse list

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 51e1ea5..11ed948 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1413,7 +1413,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         if not self._BibleOrganisationalSystem.isValidBCVRef( startTuple, "{} {}:{}{}".format(BBB,C,myV,S) ):
                             haveErrors = True
                         status, myV = 1, ''
-                    logging.error( _("Invalid {!r} verse list/range given with {} {}:{}{}").format( V, BBB, C, V, S ) )
+                    else: logging.error( _("Invalid {!r} verse list/range given with {} {}:{}{}").format( V, BBB, C, V, S ) )
                 elif status == 1: # Getting the end of a verse range
                     assert startTuple
                     if char.isdigit(): myV += char
-- 
2.43.0


From 5902a7482fd0dd24fa3e6c98fedb0521ee3bcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 075/217] fix: parseOSISReferenceString failed for Ezra and
 some other books, and for unknown books

---
 BibleOrgSys/Reference/BibleReferences.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 11ed948..a77ba7e 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1289,18 +1289,27 @@ class BibleReferenceList( BibleReferenceBase ):
 
         Assumes that the book names and punctuation are OSIS standard.
         """
+        def getBBBFromOSIS( OSISAbbreviation:str ) -> str|None:
+            """ Returns the book code or None. """
+            try: result = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation( OSISAbbreviation )
+            except KeyError: return None
+            if isinstance( result, str ): return result
+            for BBB in result: # Several books can have the same OSIS abbreviation, e.g., Ezra
+                if self._BibleOrganisationalSystem.containsBook( BBB ): return BBB
+            return result[0]
+        # end of getBBBFromOSIS
+
         # Set things up for OSIS system e.g., 1Cor.3.5-1Cor.3.9
+        savedPunctuationDict, savedGetBBBFromText = self.punctuationDict, self.getBBBFromText
         self.punctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
         OSISList = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes()
         #self.getBBBFromText = lambda s: BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation(s)
-        self.getBBBFromText = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation
+        self.getBBBFromText = getBBBFromOSIS
 
         # Now do the actual parsing using the standard routine
-        sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
-
-        # Set things up again how they were
-        self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
-        self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+        try: sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
+        finally: # Set things up again how they were
+            self.punctuationDict, self.getBBBFromText = savedPunctuationDict, savedGetBBBFromText
 
         return sucessFlag, haveWarnings, resultList
     # end of BibleReferenceList.parseOSISReferenceString
-- 
2.43.0


From 700d9357a80dbcfb4e0c6f4ff9a3c3db88513b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 076/217] fix: BibleReferenceList failed on references without
 a known book name followed by a chapter number

---
 BibleOrgSys/Reference/BibleReferences.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index a77ba7e..9790ddf 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -749,7 +749,7 @@ class BibleReferenceList( BibleReferenceBase ):
             if BBB is None or not self._BibleOrganisationalSystem.isValidBCVRef( refTuple, referenceString ):
                 haveErrors = True
             refList.append( refTuple )
-            totalVerseList.append( refTuple )
+            if BBB is not None: totalVerseList.append( refTuple )
         # end of saveReference
 
 
@@ -941,7 +941,7 @@ class BibleReferenceList( BibleReferenceBase ):
                     S = char
                 elif C and char in self.punctuationDict['chapterVerseSeparator']:
                     status = 3 # Start getting the verse number
-                elif C and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
+                elif C and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook( BBB ):
                     V = C
                     C = '1'
                     if char in self.punctuationDict['verseSeparator']:
@@ -1208,7 +1208,7 @@ class BibleReferenceList( BibleReferenceBase ):
                         V, S = '', ''
                     break # Seems better to break on this one or else we get lots of errors (e.g., if a fr is left open in a footnote)
                 continue
-        if status==2 and C: # Getting chapter number
+        if status==2 and C and BBB is not None: # Getting chapter number
             if self._BibleOrganisationalSystem.isSingleChapterBook( BBB ): # Have a single chapter book and what we were given is presumably the verse number
                 V = C
                 C = '1'
-- 
2.43.0


From eee8dcc40e110eb24cb7479fd4e77b031768af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 077/217] fix: Bible references with a book which is not in the
 book names system failed with KeyError

---
 BibleOrgSys/Reference/BibleReferences.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 9790ddf..58e3451 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -155,7 +155,11 @@ class BibleReferenceBase:
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'bNSN', booksNamesSystemName )
         if booksNamesSystemName and booksNamesSystemName!='None' and booksNamesSystemName!='Unknown': # default (if we know the book names system)
             #assert BibleObject is not None
-            self.getBookNameFunction = self._BibleOrganisationalSystem.getBookName
+            def getBookName( BBB:str ) -> str|None:
+                """ Returns None for books which are not in our book names system. """
+                try: return self._BibleOrganisationalSystem.getBookName( BBB )
+                except KeyError: return None
+            self.getBookNameFunction = getBookName
             getBookAbbreviationFunction = self._BibleOrganisationalSystem.getBookAbbreviation
             self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book code from the vernacular name or abbreviation
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleReferenceBase: bns={}".format( BOSObject.getBooksNamesSystemName() ) )
-- 
2.43.0


From 33ab142448dfc1ae4419bc869142f4ed3a2b5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 078/217] fix: BibleSingleReferences didn't know book names
 like '1 Cor' after a separator

---
 BibleOrgSys/Reference/BibleReferences.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 58e3451..2d548f6 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -609,8 +609,11 @@ class BibleSingleReferences( BibleReferenceBase ):
                         C = temp
                         status = 3 # Now get the verse number
                     elif char in self.punctuationDict['bookChapterSeparator']:
+                        BBB = self.getBBBFromText( temp )
+                        if BBB is None and temp in ('1','2','3','4','I','II','III','IV'): # Could be something like 1 Cor
+                            temp += char
+                            continue
                         bookNameOrAbbreviation = temp
-                        BBB = self.getBBBFromText( bookNameOrAbbreviation )
                         if BBB is None:
                             logging.error( _("Invalid {!r} bookname in Bible reference {!r}").format( bookNameOrAbbreviation, referenceString ) )
                             haveErrors = True
-- 
2.43.0


From dea452bea2c343a3b1a6cf1eb6f1916520345891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 079/217] fix: BibleReferenceList failed on chapter ranges
 without a known book name followed by a separator

---
 BibleOrgSys/Reference/BibleReferences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 2d548f6..f4ab0b5 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1160,12 +1160,12 @@ class BibleReferenceList( BibleReferenceBase ):
                     status = 8 # Start getting the verse number
                 elif char.isalpha() or ( char==' ' and C in ('1','2','3','4') ): # Must be a second book name
                     status, X, C = 5, C+char, ''
-                elif C and char in self.punctuationDict['verseSeparator'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
+                elif C and char in self.punctuationDict['verseSeparator'] and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
                     V = C
                     C = '1'
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
                     status, V, S = 8, '', ''
-                elif C and char in self.punctuationDict['bookSeparator'] and BBB!='???' and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
+                elif C and char in self.punctuationDict['bookSeparator'] and BBB is not None and self._BibleOrganisationalSystem.isSingleChapterBook(BBB):
                     V = C
                     C = '1'
                     saveReferenceRange( startReferenceTuple, BBB, C, V, S, self.referenceList )
-- 
2.43.0


From 8a8775c660b15e91fecf168de5e413537cbdb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 080/217] fix: getOSISRefList failed on a range from a verse to
 a whole chapter of another book

---
 BibleOrgSys/Reference/BibleReferences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index f4ab0b5..df5ea42 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1359,7 +1359,7 @@ class BibleReferenceList( BibleReferenceBase ):
                 if V1 and V2: result += "{}.{}.{}-{}.{}.{}".format(Bk1,C1,V1,Bk2,C2,V2)
                 elif not V1 and not V2: result += "{}.{}-{}.{}".format(Bk1,C1,Bk2,C2)
                 elif V2: result += "{}.{}.1-{}.{}.{}".format(Bk1,C1,Bk2,C2,V2)
-                else: halt
+                else: result += "{}.{}.{}-{}.{}.{}".format(Bk1,C1,V1,Bk2,C2,self._BibleOrganisationalSystem.getNumVerses( BBB2, C2 ))
                 lastBk, lastC, lastV = Bk2, C2, V2
             else: # It must be a single reference
                 BBB, C, V, S = refOrRefRange
-- 
2.43.0


From a28f7521076bc60e50a31fc6713c39c14db82c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 081/217] fix: makeReferenceString left out the verse suffix,
 and ended whole chapters with a colon

---
 BibleOrgSys/Reference/BibleReferences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index df5ea42..2e97c21 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -725,8 +725,10 @@ class BibleReferenceList( BibleReferenceBase ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "makeReferenceString-iSCB", refTuple, location )
             if C!='1': logging.error( _("makeReferenceString: Expected chapter number to be 1 (not {!r}) for this {} single chapter book (from {} at {})").format( C, BBB, refTuple, location ) )
             resultString = "{}{}{}{}".format( BBBstr, BCS, ' ' if self.punctuationDict['spaceAllowedAfterBCS']=='Y' else '', V )
+            if V and S: resultString += S
         else: # it's a book with multiple chapters
-            resultString = "{}{}{}{}{}{}".format( BBBstr, BCS, ' ' if self.punctuationDict['spaceAllowedAfterBCS']=='Y' else '', C, CVS, V )
+            resultString = "{}{}{}{}".format( BBBstr, BCS, ' ' if self.punctuationDict['spaceAllowedAfterBCS']=='Y' else '', C )
+            if V: resultString += CVS + V + ( S if S else '' )
         return resultString
     # end of BibleReferenceList.makeReferenceString
 
-- 
2.43.0


From 46039cb930bbe92606ea400b737c69736ff72358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 082/217] fix: BibleAnchorReference took verse ranges as lists
 of two verses

---
 BibleOrgSys/Reference/BibleReferences.py | 29 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 2e97c21..8eceb47 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1505,7 +1505,7 @@ class BibleAnchorReference:
         self.isSingleChapterBook = BBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getSingleChapterBooksList()
         self.allowedVerseSuffixes = ( 'a', 'b', 'c', 'd', 'e', )
         self.allowedCVSeparators = ( ':', '.', )
-        self.allowedVerseSeparators = ( ',', '-', )
+        self.allowedVerseSeparators = ( ',', )
         self.allowedBridgeCharacters = ( '-', )
         self.allowedChapterSeparators = ( ';', )
 
@@ -1581,13 +1581,13 @@ class BibleAnchorReference:
             """
             Checks the reference info then saves it as a referenceTuple in the refList.
             """
+            if V and not S and V[-1] in self.allowedVerseSuffixes: # Remove the suffix
+                S = V[-1]; V = V[:-1]
             if BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "saveReferenceRange( {}, {} {}:{} {!r}, {} )".format( startTuple, BBB, C, V, S, refList ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, startTuple, BBB, C, V, S, refList )
                 assert len(BBB) == 3
                 assert not C or C.isdigit() # Should be no suffix on C (although it can be blank if the reference is for a whole book)
-                if V and not S and V[-1] in ('a','b','c',): # Remove the suffix
-                    S = V[-1]; V = V[:-1]
                 assert not V or V.isdigit() # Should be no suffix on V (although it can be blank if the reference is for a whole chapter)
                 assert not S or len(S)==1 and S.isalpha() # Suffix should be only one lower-case letter if anything
 
@@ -1600,8 +1600,7 @@ class BibleAnchorReference:
             if BBB is None: # or not self._BibleOrganisationalSystem.isValidBCVRef( finishTuple, referenceString ): # No error messages here because it will be caught at expandCVRange below
                 haveErrors = True # Just set this flag
             rangeTuple = (startTuple, finishTuple,)
-            #verseList = self._BibleOrganisationalSystem.expandCVRange( startTuple, finishTuple, referenceString, self._BibleOrganisationalSystem )
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "How do we expand the verse list without a reference system???" ); verseList = None
+            verseList = self._expandRange( startTuple, finishTuple )
             if verseList is not None: totalVerseList.extend( verseList )
             if rangeTuple in refList:
                 logging.warning( _("Reference range {} is repeated in Bible reference {!r}{}").format( rangeTuple, anchorString, '' if location is None else " at {}".format(location) ) )
@@ -1723,7 +1722,7 @@ class BibleAnchorReference:
                     status = 0 # done
                 elif char.isalnum():
                     X += char
-                elif X and char in self.chapterVerseSeparators: # This must have been a chapter range
+                elif X and char in self.allowedCVSeparators: # This must have been a chapter range
                     C = X
                     V = S = ''
                     status = 5
@@ -1833,6 +1832,19 @@ class BibleAnchorReference:
     # end of BibleAnchorReference:parseAnchorString
 
 
+    def _expandRange( self, startTuple:tuple[str,str,str,str], endTuple:tuple[str,str,str,str] ) -> list[tuple[str,str,str,str]]|None:
+        """
+        Returns the list of the verses in a range within a chapter (or None if they can't be determined).
+
+        We can't expand ranges across chapters because we don't have a versification system.
+        """
+        (BBB1, C1, V1, S1), (BBB2, C2, V2, S2) = startTuple, endTuple
+        if BBB1!=BBB2 or C1!=C2 or not V1.isdigit() or not V2.isdigit(): return None
+        V1int, V2int = int(V1), int(V2)
+        return [(BBB1, C1, str(V), S1 if V==V1int else S2 if V==V2int else '') for V in range( V1int, V2int+1 )]
+    # end of BibleAnchorReference:_expandRange
+
+
     def getReferenceList( self, expanded:bool=False ) -> list[tuple[str,str,str,str]]:
         """ Returns the internal list of Bible references.
 
@@ -1842,8 +1854,7 @@ class BibleAnchorReference:
             for refTuple in self.referenceList:
                 if len(refTuple) == 2: # it's a range
                     startRefTuple, endRefTuple = refTuple
-                    #expandedRange = self._BibleOrganisationalSystem.expandCVRange( startRefTuple, endRefTuple, bookOrderSystem=self._BibleOrganisationalSystem )
-                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "How do we expand the range without a reference system???" ); expandedRange = None
+                    expandedRange = self._expandRange( startRefTuple, endRefTuple )
                     if expandedRange is not None: expandedList.extend( expandedRange )
                 else: expandedList.append( refTuple )
             return expandedList
@@ -1940,6 +1951,8 @@ class BibleAnchorReference:
                 if '-' in self.verseString:
                     bits = self.verseString.split( '-' )
                     if rV in bits: return True
+                    if len(bits)==2 and bits[0].isdigit() and bits[1].isdigit() and rV.isdigit() \
+                    and int(bits[0]) <= int(rV) <= int(bits[1]): return True
                 if ',' in self.verseString:
                     bits = self.verseString.split( ',' )
                     if rV in bits: return True
-- 
2.43.0


From 9c3231a43440e10e9fb3bf2f309de72eec31e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 083/217] fix: BibleAnchorReference lost references after a ';'
 or took them as part of a range

---
 BibleOrgSys/Reference/BibleReferences.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 8eceb47..6e8d77f 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1671,10 +1671,8 @@ class BibleAnchorReference:
                     V, S = '', ''
                 elif V and char in self.allowedChapterSeparators:
                     saveReference( self.BBB, C, V, S, self.referenceList )
-                    V = ''
-                    if char in self.allowedChapterSeparators:
-                        C = ''
-                        status = 4
+                    C = V = S = ''
+                    status = 0 # Get the next chapter
                 elif char in self.allowedBridgeCharacters:
                     saveStartReference( self.BBB, C, V, S )
                     V = S = ''
@@ -1736,7 +1734,7 @@ class BibleAnchorReference:
                     saveReferenceRange( startReferenceTuple, self.BBB, C, V, S, self.referenceList )
                     V = S = ''
                     if char in self.allowedChapterSeparators:
-                        status,C = 1, ''
+                        status,C = 0, ''
                     else: assert "Should never happen" == 123
                 else:
                     logging.error( _("Unexpected {!r} character when getting second chapter/verse number at position {} in Bible reference {!r}{}").format( char, nnn, anchorString, '' if location is None else " at {}".format(location) ) )
@@ -1759,7 +1757,7 @@ class BibleAnchorReference:
                     saveReferenceRange( startReferenceTuple, self.BBB, C, V, S, self.referenceList )
                     C = V = S = ''
                     if char in self.allowedChapterSeparators:
-                        status = 1
+                        status = 0
                 else:
                     logging.error( _("Unexpected {!r} character when getting second chapter number at position {} in Bible reference {!r}{}").format( char, nnn, anchorString, '' if location is None else " at {}".format(location) ) )
                     haveErrors = True
@@ -1779,7 +1777,7 @@ class BibleAnchorReference:
                     saveReferenceRange( startReferenceTuple, self.BBB, C, V, S, self.referenceList )
                     V = S = ''
                     if char in self.allowedChapterSeparators:
-                        status, C = 1, ''
+                        status, C = 0, ''
                 else:
                     logging.error( _("BRL2: Unexpected {!r} character when getting verse number for range at position {} in {} {} Bible reference {!r}{}").format( char, nnn, self.BBB, C, anchorString, '' if location is None else " at {}".format(location) ) )
                     haveErrors = True
-- 
2.43.0


From a9d2d586e60931800348daebf66c5ce4be773f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 084/217] fix: book names of a list of books which are in no
 division failed (AssertionError)

---
 BibleOrgSys/Reference/BibleBooksNames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 498ab7d..1b1ec1f 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -108,7 +108,7 @@ def expandBibleNamesInputs ( systemName, divisionsNamesDict, booknameLeadersDict
     # end of expandAbbrevs
 
     assert systemName
-    assert divisionsNamesDict and booknameLeadersDict and bookNamesDict
+    assert booknameLeadersDict and bookNamesDict # but the given books might not be in any division
     assert bookList
 
     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("  Expanding {} input abbreviations (for {} books)…").format( systemName, len(bookList) ) )
-- 
2.43.0


From b480cc7c82aaf0286acac2835fc030fd490e6558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 085/217] fix: getBookName and getBookAbbreviation raised
 TypeError for books without a name

---
 BibleOrgSys/Reference/BibleBooksNames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 1b1ec1f..7e666e5 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -514,7 +514,8 @@ class BibleBooksNamesSystem:
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__systemName )
-        return self.__bookNamesDict[BBB]['defaultName']
+        bookInfo = self.__bookNamesDict[BBB]
+        return bookInfo if isinstance( bookInfo, str ) else bookInfo['defaultName'] # It's just the BBB if we don't have a name for it
     # end of BibleBooksNamesSystem.getBookName
 
 
@@ -523,7 +524,8 @@ class BibleBooksNamesSystem:
         Get the default book abbreviation from the given referenceAbbreviation.
         """
         if BibleOrgSysGlobals.debugFlag: assert len(BBB) == 3
-        return self.__bookNamesDict[BBB]['defaultAbbreviation']
+        bookInfo = self.__bookNamesDict[BBB]
+        return bookInfo if isinstance( bookInfo, str ) else bookInfo['defaultAbbreviation'] # It's just the BBB if we don't have a name for it
     # end of BibleBooksNamesSystem.getBookAbbreviation
 
 
-- 
2.43.0


From d67b53bb93c87202041ad85603db2374e23620ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 086/217] fix: getBBBFromText over all book names systems took
 the beginning of another book's name before an exact name

---
 BibleOrgSys/Reference/BibleBooksNames.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 7e666e5..8511bae 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -371,6 +371,13 @@ class BibleBooksNamesSystems:
 
         upperCaseBookNameOrAbbreviation = bookNameOrAbbreviation.upper()
 
+        # Firstly, an exact match in any system is better than the beginning of a longer name in another one
+        for _divisionsNamesDict, _booknameLeadersDict, bookNamesDict in self.__DataDicts.values():
+            for BBB,bookInfo in bookNamesDict.items():
+                for possibility in bookInfo['inputFields']:
+                    if possibility.upper() == upperCaseBookNameOrAbbreviation:
+                        return BBB
+
         for systemName in self.__DataDicts:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\n'+repr(systemName) )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__DataDicts[systemName] )
-- 
2.43.0


From 087d910e5363dc07db11cba8af2fd873f8b02d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 087/217] fix: toVPL appended headings, section references,
 psalm titles and chapter labels to the text of the verse before them

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index d3f9c82..671680b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1315,7 +1315,8 @@ class BibleWriter( InternalBible ):
                             if haveP: textBuffer = '¶'; haveP = False
                         elif marker == 'p':
                             haveP = True
-                        elif marker in ('pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',): # Drop out these fields
+                        elif marker in ('pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',
+                                        'r','sr','mr', 'd','sp','qa', 'cl','cp','cd',): # Drop out these fields
                             ignoredMarkers.add( marker )
                         elif text:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "do Marker", repr(marker), repr(text) )
-- 
2.43.0


From 51105dbe408d1d93687917ed123c331df768fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 088/217] fix: toText appended section references, acrostic
 headings and chapter labels to the text of the verse before them

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 671680b..8219e03 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1190,7 +1190,8 @@ class BibleWriter( InternalBible ):
                             gotVP = None
                         if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
                         myFile.write( "\n{} ".format( text ) )
-                    elif marker in ('p','pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',): # Drop out these fields
+                    elif marker in ('p','pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',
+                                    'sr','mr','qa', 'cl','cd',): # Drop out these fields
                         ignoredMarkers.add( marker )
                     elif text:
                         #if marker not in ('p~','v~'): # The most common ones
-- 
2.43.0


From 32f3ef9ccd9089b3ebf797722c7d473420ab6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:51 +0000
Subject: [PATCH 089/217] fix: exports failed or put the last verse under the
 next number if a remark or end title follows it

---
 BibleOrgSys/BibleWriter.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8219e03..eb0d94d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1684,7 +1684,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2327,7 +2327,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -2690,7 +2690,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                     lastV = V
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
@@ -3296,7 +3296,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4161,7 +4161,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4668,7 +4668,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5339,7 +5339,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6005,7 +6005,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6205,7 +6205,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6799,7 +6799,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7252,7 +7252,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7423,7 +7423,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7956,7 +7956,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9177,7 +9177,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9619,7 +9619,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            V = str( int(V) + 1 )
+                            if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
-- 
2.43.0


From b14a90b802527f91816db22974762a0c74226c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 090/217] fix: theWord and MySword exports failed at most
 cross-references and lost the rest of the verse after the others

---
 BibleOrgSys/Formats/theWordBible.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..85f7681 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -414,22 +414,15 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
     if '\\x' in line: # Remove cross-references completely (why???)
         # #line = line.replace('\\x ','<RX>').replace('\\x*','<Rx>')
         # line = removeUSFMCharacterField( 'x', line, closedFlag=True ).lstrip() # Remove superfluous spaces
-        for marker in ( 'xo', ): # simply remove these whole fields if they exist
-            line = removeUSFMCharacterField( marker, line, closedFlag=None )
-        for safetyCount in range(1,10):
-            if '\\x' not in line: break # all done
-            ixStart = line.index( '\\x ')
-            assert ixStart != -1
-            ixXT = line.index( '\\xt ', ixStart+3)
-            assert ixXT != -1
-            ixEnd = line.index( '\\x*', ixXT+4)
-            assert ixEnd != -1
-            xrList = line[ixXT+4:ixEnd].strip().split(';')
-            newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
-        else:
-            logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
-            line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
+        while '\\x ' in line:
+            ixStart = line.index( '\\x ' )
+            ixEnd = line.find( '\\x*', ixStart+3 )
+            if ixEnd == -1:
+                logging.critical( f"theWordAdjustLine had an unclosed cross-reference at {BBB} {C}:{V} '{originalLine}'" )
+                ixEnd = len(line)
+            newList = [f'<RX {entry.strip()}>' for xtText in re.findall( r'\\xt ([^\\]*)', line[ixStart:ixEnd] )
+                                                    for entry in xtText.split( ';' ) if entry.strip()]
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
 
     if '\\f' in line: # Handle footnotes
         for marker in ( 'fr', 'fm', ): # simply remove these whole fields
-- 
2.43.0


From 6b99d7c2895ec6223dcb772c16b84b1832511421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 091/217] fix: theWord, MySword, e-Sword and MyBible exports
 put the attributes of words into the verse text

---
 BibleOrgSys/Formats/ESwordBible.py  | 1 +
 BibleOrgSys/Formats/MyBibleBible.py | 1 +
 BibleOrgSys/Formats/theWordBible.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..4b8e3ba 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1218,6 +1218,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
             line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
             line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
             line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
+            line = re.sub( r'\|[^|\\]*(\\\+?[a-z][a-z0-9-]*\*)', r'\1', line ) # Remove word attributes
             replacements = (
                 ( ('add',), '~^~cf15~^~i ',' ~^~cf0~^~i0' ), # Note the spaces!
                 ( ('qt',), '<FO>','<Fo>' ),
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..07d9c62 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -856,6 +856,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
             line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
             #line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
             line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
+            line = re.sub( r'\|[^|\\]*(\\\+?[a-z][a-z0-9-]*\*)', r'\1', line ) # Remove word attributes
             replacements = (
                 ( ('add',), '<i>','</i>' ),
                 ( ('qt',), '','' ),
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 85f7681..8e2733f 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -454,6 +454,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
         line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
         line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
         line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
+        line = re.sub( r'\|[^|\\]*(\\\+?[a-z][a-z0-9-]*\*)', r'\1', line ) # Remove word attributes
         replacements = (
             ( ('add',), '<FI>','<Fi>' ),
             ( ('qt',), '<FO>','<Fo>' ),
-- 
2.43.0


From bb67360722c85c7fdb0bc37c3801c44b79cb4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:52 +0000
Subject: [PATCH 092/217] fix: theWord and MySword exports left endnotes as raw
 USFM in the verse text

---
 BibleOrgSys/Formats/theWordBible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 8e2733f..c2a9ea6 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -440,11 +440,11 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
                     line = line.replace( '\\'+marker+' ', '<i>' ).replace( '\\'+marker+'*', '</i>' )
                 else: # leave the next marker in place
                     line = line[:ixEnd].replace( '\\'+marker+' ', '<i>' ) + '</i>' + line[ixEnd:]
-        for marker in ( 'ft', ): # simply remove these markers (but leave behind the text field)
+        for marker in ( 'ft','xt', ): # simply remove these markers (but leave behind the text field)
             line = line.replace( '\\'+marker+' ', '' ).replace( '\\'+marker+'*', '' )
         #for caller in '+*abcdefghijklmnopqrstuvwxyz': line.replace('\\f '+caller+' ','<RF>') # Handle single-character callers
-        line = re.sub( r'(\\f [a-z+*]{1,3} )', '<RF>', line ) # Handle one to three character callers
-        line = line.replace('\\f ','<RF>').replace('\\f*','<Rf>') # Must be after the italicisation
+        line = re.sub( r'(\\fe? [a-z0-9+*-]{1,3} )', '<RF>', line ) # Handle one to three character callers
+        line = line.replace('\\f ','<RF>').replace('\\f*','<Rf>').replace('\\fe ','<RF>').replace('\\fe*','<Rf>') # Must be after the italicisation
         #if '\\f' in originalLine:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "o", originalLine )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "n", line )
-- 
2.43.0


From 3b1806bf3a0925044e550e026cdc6fd848b457bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 093/217] fix: e-Sword and MyBible exports lost the last verse
 before any missing verse

---
 BibleOrgSys/Formats/ESwordBible.py  | 10 +++++-----
 BibleOrgSys/Formats/MyBibleBible.py | 18 +++++++++---------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 4b8e3ba..4ff70bb 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1512,11 +1512,11 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
                         # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 07d9c62..5c72c42 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1143,15 +1143,15 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toMyBible: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
                         # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            try:
-                                sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            except Exception as e:
-                                logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
-                                raise e # again
-                            #lineCount += 1
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        try:
+                            sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        except Exception as e:
+                            logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
+                            raise e # again
+                        #lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From a94cd9705796b4574c9b0cc4cf4c07f7b60f8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:19 +0000
Subject: [PATCH 094/217] fix: module exports failed at 3 John 1:15 or
 Revelation 12:18 without the verse before it

---
 BibleOrgSys/Formats/ESwordBible.py  | 6 ++++--
 BibleOrgSys/Formats/MyBibleBible.py | 6 ++++--
 BibleOrgSys/Formats/MySwordBible.py | 6 ++++--
 BibleOrgSys/Formats/theWordBible.py | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 4ff70bb..0e14a34 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1497,13 +1497,15 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: verseData.extend( verseData15 )
+                            else: verseData, composedLine = verseData15, ''
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: verseData.extend( verseData18 )
+                            else: verseData, composedLine = verseData18, ''
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 5c72c42..185bd81 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1128,13 +1128,15 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: verseData.extend( verseData15 )
+                            else: verseData, composedLine = verseData15, ''
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: verseData.extend( verseData18 )
+                            else: verseData, composedLine = verseData18, ''
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData:
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3566b7f..292a6c7 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -500,13 +500,15 @@ def createMySwordModule( self, outputFolder, controlDict ):
                         try:
                             result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                             verseData15, context15 = result15
-                            verseData.extend( verseData15 )
+                            if verseData: verseData.extend( verseData15 )
+                            else: verseData, composedLine = verseData15, ''
                         except KeyError: pass #  just ignore it
                     elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                         try:
                             result18 = bkData.getContextVerseData( ('REV','12','18',) )
                             verseData18, context18 = result18
-                            verseData.extend( verseData18 )
+                            if verseData: verseData.extend( verseData18 )
+                            else: verseData, composedLine = verseData18, ''
                         except KeyError: pass #  just ignore it
                     composedLine = ''
                     if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index c2a9ea6..df89610 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1205,13 +1205,15 @@ def createTheWordModule( self, outputFolder, controlDict ):
                     try:
                         result15 = bkData.getContextVerseData( ('JN3','1','15',) )
                         verseData15, context15 = result15
-                        verseData.extend( verseData15 )
+                        if verseData: verseData.extend( verseData15 )
+                        else: verseData, composedLine = verseData15, ''
                     except KeyError: pass #  just ignore it
                 elif (BBB,C,V) == ('REV',12,17): # Add text for v15 if it exists
                     try:
                         result18 = bkData.getContextVerseData( ('REV','12','18',) )
                         verseData18, context18 = result18
-                        verseData.extend( verseData18 )
+                        if verseData: verseData.extend( verseData18 )
+                        else: verseData, composedLine = verseData18, ''
                     except KeyError: pass #  just ignore it
             if verseData: composedLine = theWordComposeVerseLine( BBB, C, V, verseData, ourGlobals )
             assert '\n' not in composedLine # This would mess everything up
-- 
2.43.0


From 4a94e356666bbbdadffd5178e6a59e5a462f710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 095/217] fix: e-Sword and MyBible exports left endnotes,
 words, names and ordinals as raw USFM in the verse text

---
 BibleOrgSys/Formats/ESwordBible.py  | 2 ++
 BibleOrgSys/Formats/MyBibleBible.py | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 0e14a34..87bf905 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1189,6 +1189,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
 
         if '\\f' in line: # Handle footnotes
             line = removeUSFMCharacterField( 'f', line, closedFlag=True ).lstrip() # Remove superfluous spaces
+            line = removeUSFMCharacterField( 'fe', line, closedFlag=True ).lstrip() # Remove endnotes as well
             #for marker in ( 'fr', 'fm', ): # simply remove these whole field
                 #line = removeUSFMCharacterField( marker, line, closedFlag=None )
             #for marker in ( 'fq', 'fqa', 'fl', 'fk', ): # italicise these ones
@@ -1228,6 +1229,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
                 ( ('nd','sc',), '<font size=-1>','</font>' ),
+                ( ('pn','ord','w',), '','' ),
                 )
             line = replaceUSFMCharacterFields( replacements, line ) # This function also handles USFM 2.4 nested character markers
             if '\\nd' not in originalLine and '\\+nd' not in originalLine:
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 185bd81..2558256 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -797,11 +797,11 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
         if '\\f' in line: # Handle footnotes
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "originalLine", repr(originalLine) )
             while True: # fix internal footnote formatting
-                match = re.search( r"\\f (.+?)\\f\*", line )
+                match = re.search( r"\\(fe?) (.+?)\\\1\*", line )
                 if not match: break
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "line1", repr(line) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "1", match.group(1) )
-                adjNote = match.group(1).replace('\\fqa*','\\ft ').replace('\\nd*','\\ft ').replace('\\add*','\\ft ')
+                adjNote = match.group(2).replace('\\fqa*','\\ft ').replace('\\nd*','\\ft ').replace('\\add*','\\ft ')
                 if '\\' in adjNote:
                     noteBits = adjNote.split( '\\' )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "noteBits", noteBits )
@@ -865,7 +865,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 ( ('bdit',), '<b><i>','</i></b>' ),
                 ( ('bd','em','k',), '<b>','</b>' ),
                 ( ('it','rq','bk','dc','qs','sig','sls','tl',), '<i>','</i>' ),
-                ( ('nd','sc',), '','' ),
+                ( ('nd','sc','pn','ord','w',), '','' ),
                 #( ('f',), '<n>','</n>' ),
                 ( ('str',), '<S>','</S>' ),
                 )
-- 
2.43.0


From 7758f75395b00782f5c9167ccff6834404477cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 096/217] fix: e-Sword export made the verse text after a minor
 heading, reference or psalm title part of that heading

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 87bf905..94b585d 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1356,7 +1356,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                     ourGlobals['lastLine'] = ourGlobals['lastLine'].rstrip() + '\\line ' # append the new paragraph marker to the previous line
                 composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker == 's2': composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
-            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~b~^~i~^~f0 '
+            elif marker in ( 's3','s4', 'sr','mr', 'd', ): composedLine += '~^~b~^~i~^~f0 '+adjustLine(BBB,C,V,text)+'~^~cf0~^~b0~^~i0~^~line '
             elif marker in ( 'qa', 'r', ):
                 if marker=='r' and text and text[0]!='(' and text[-1]!=')': # Put parenthesis around this if not already there
                     text = '(' + text + ')'
-- 
2.43.0


From fde2d95051f8ba690e70bc0fca87e3c8166fc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 097/217] fix: EasyWorship export added the text of a verse
 starting with a paragraph to the verse before, and continued only the last
 verse of a bridge

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index ae689ed..e56577d 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -187,6 +187,7 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
 
         textBuffer = ''
         vBridgeStartInt = vBridgeEndInt = None # For printing missing (bridged) verse numbers
+        verseCopies = 1 # How often we wrote the current verse (more than once for the verses of a bridge)
         for entry in pseudoESFMData:
             marker, text = entry.getMarker(), entry.getCleanText()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
@@ -194,9 +195,12 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
             elif marker == 'c':
                 C = int( text ) # Just so we get an error if we have something different
                 V = lastVWritten = '0'
+                verseCopies = 0
             elif marker == 'v':
                 #V = text.replace( '–', '-' ).replace( '—', '-' ) # Replace endash, emdash with hyphen
                 V = text
+                verseCopies = 0 # None of its text written yet
+                vBridgeStartInt = vBridgeEndInt = None
                 for bridgeChar in ('-', '–', '—'): # hyphen, endash, emdash
                     ix = V.find( bridgeChar )
                     if ix != -1:
@@ -215,7 +219,7 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         VBridgedText = V
                         V = vStart
                         break
-            elif marker == 'v~':
+            elif marker == 'v~' or (marker == 'p~' and verseCopies == 0): # the first text of this verse (which might be in a new paragraph)
                 try:
                     if int(V) <= int(lastVWritten):
                         # TODO: Not sure what level the following should be? info/warning/error/critical ????
@@ -234,14 +238,19 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
                             textBuffer += '\r\n\r\n{}:{} (-)'.format( C, vNum )
                     lastVWritten = str( vBridgeEndInt )
+                    verseCopies = vBridgeEndInt + 1 - vBridgeStartInt
                     vBridgeStartInt = vBridgeEndInt = None
                 else:
                     textBuffer += ('\r\n\r\n' if textBuffer else '') + '{}:{} {}'.format( C, V, text )
                     lastVWritten = V
+                    verseCopies = 1
             elif marker == 'p~':
                 if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert textBuffer # This is a continued part of the verse -- failed with this bad source USFM:
                                         #     \c 1 \v 1 \p These events happened…
+                if verseCopies > 1: # continuation of all the verses in the bridge
+                    bits = textBuffer.rsplit( '\r\n\r\n', verseCopies-1 )
+                    textBuffer = ' {}\r\n\r\n'.format( text ).join( bits )
                 textBuffer += ' {}'.format( text ) # continuation of the same verse
             else:
                 ignoredMarkers.add( marker )
-- 
2.43.0


From 0a732a0ca5cada6441e6ac17eec50b81622de4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:25 +0000
Subject: [PATCH 098/217] fix: loading an e-Sword module failed as it asked for
 a table with the wrong name

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 94b585d..96b8711 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1000,7 +1000,7 @@ class ESwordBible( Bible ):
         continued = ourGlobals['haveParagraph'] = False
         haveLines = False
         while True:
-            self.cursor.execute('select Scripture from BibleOrgSys.Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
+            self.cursor.execute('select Scripture from Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
             try:
                 row = self.cursor.fetchone()
                 line = row[0]
-- 
2.43.0


From 7783b04d581d6cbb4856d200e2cf995ffbfcf838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 099/217] fix: EasyWorship export gave the number of characters
 instead of bytes as the length of a book, so its importer refused books with
 other than ASCII characters

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index e56577d..07c0fea 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -259,10 +259,11 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         .replace( '“', '"' ).replace( '”', '"' ) \
                         .replace( "‘", "'" ).replace( "’", "'" ) \
                         .replace( '–', '--' ).replace( '—', '--' )
-        bookBytes = zlib.compress( textBuffer.encode( 'utf8' ), ZLIB_COMPRESSION_LEVEL )
+        textBytes = textBuffer.encode( 'utf8' )
+        bookBytes = zlib.compress( textBytes, ZLIB_COMPRESSION_LEVEL )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, hexlify(bookBytes[:20]), bookBytes )
         assert bookBytes[0]==0x78 and bookBytes[1]==0xda # Zlib compression header
-        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBuffer) ) + b'\x08\x00'
+        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBytes) ) + b'\x08\x00'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "appendage", len(appendage), hexlify(appendage), appendage )
         assert len(appendage) == 10
         compressedDictionary[BBB] = bookBytes + appendage
-- 
2.43.0


From 0db36c97f9bb445b76ca9ba16700540d96bd278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 100/217] fix: loading an e-Sword module lost the start of any
 chapter with a plain or missing first verse

---
 BibleOrgSys/Formats/ESwordBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 96b8711..50de5f9 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -530,6 +530,7 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: {} {}:{} {!r}".format( BBB, C, V, originalLine ) )
     if originalLine is None: # We don't have an entry for this C:V
+        if C!=1 and V==1: bookObject.addLine( 'c', str(C) ) # The chapter still starts here
         return
 
     if '<span ' in originalLine or '<p ' in originalLine: # Seems to be HTML
@@ -542,6 +543,7 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
     else:
         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: What's this: {} {} {}:{} {!r}".format( myName, BBB, C, V, originalLine ) )
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # What's this???
+        if C!=1 and V==1: bookObject.addLine( 'c', str(C) )
         bookObject.addLine( 'v', '{} {}'.format( V, originalLine ) )
 # end of ESwordModule.handleESwordLine
 
-- 
2.43.0


From 1acd33eebac0d08a2458b3eca794a73e8c459e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 101/217] fix: toHTML5 failed if the given output folder
 already existed

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index eb0d94d..767b322 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2069,7 +2069,7 @@ class BibleWriter( InternalBible ):
         if not self.doneSetupGeneric: self.__setupWriter()
         if not outputFolderpath: outputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( 'BOS_HTML5_Export/' )
         WEBoutputFolder = os.path.join( outputFolderpath, 'Website/' )
-        if not os.access( outputFolderpath, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
+        if not os.access( WEBoutputFolder, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
 
         if not controlDict:
             controlDict, defaultControlFilename = {}, "To_HTML5_controls.txt"
-- 
2.43.0


From 7678ae43b7cf9aa9c06537c30e957f3c447aded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 102/217] fix: toBibleDoor failed on books with parts of verses

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 767b322..b38f200 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2816,8 +2816,8 @@ class BibleWriter( InternalBible ):
             for startC,startV,endC,endV,fileOffset,length in bookIndexList: # Convert strings to integers for the JSON index
                 if startC=='I': startC = -1
                 if endC=='I': endC = -1
-                intStartC, intStartV = int( startC ), int( startV )
-                intEndC, intEndV = int( endC ), int( endV )
+                intStartC, intStartV = int( startC ), int( startV.rstrip( 'abcdefghijklmnopqrstuvwxyz' ) ) # Could be part of a verse, e.g., 5b
+                intEndC, intEndV = int( endC ), int( endV.rstrip( 'abcdefghijklmnopqrstuvwxyz' ) )
                 if intEndC==intStartC: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV) )
                 else: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV,intEndC) )
             if C != 'I': # Check the index list
-- 
2.43.0


From 83f4cd262b60775361945a89ae5cd8ad30d07c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 103/217] fix: toTeX failed on any line without text such as
 iot

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b38f200..6862992 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9508,7 +9508,7 @@ class BibleWriter( InternalBible ):
             """
             nonlocal unhandledMarkers
 
-            text = givenText
+            text = givenText if givenText else '' # Some lines have no text, e.g., iot
 
             if '\\fig ' in text: # handle figures
                 #ix = text.find( '\\fig ' )
-- 
2.43.0


From 180bcf9baf15f9e044f3ce38d5a5fa99b5bd07af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 104/217] fix: toHTML5 left many character markers as backslash
 codes in the text

---
 BibleOrgSys/BibleWriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 6862992..9e08ace 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2047,6 +2047,10 @@ class BibleWriter( InternalBible ):
         text = text.replace( '\\sc ', '<span class="smallCaps">' ).replace( '\\sc*', '</span>' )
         text = text.replace( '\\+sc ', '<span class="smallCaps">' ).replace( '\\+sc*', '</span>' )
 
+        # Any other character markers (e.g., em, no, qt, tl, ord, pn, dc, lit)
+        for charMarker in set( re.findall( '\\\\(\\+?[a-z]+[1-9]?)\\*', text ) ):
+            text = text.replace( f'\\{charMarker} ', f'<span class="{charMarker.lstrip("+")}">' ).replace( f'\\{charMarker}*', '</span>' )
+
         if '\\' in text:
             logger.error( "formatHTMLVerseText programming error: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatHTMLVerseText: unprocessed backslash code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
-- 
2.43.0


From 797d54a910d6620f3bb25dd32dfde0fda4ef4cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 105/217] fix: toHTML5 used published chapter numbers in the
 ids of verses

---
 BibleOrgSys/BibleWriter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9e08ace..c5e6f20 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2383,7 +2383,7 @@ class BibleWriter( InternalBible ):
 
                 # Now markers in the main text
                 elif marker == 'c':
-                    V = '0'
+                    C, V = text, '0'
                     if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
                     if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toHTML5: have extras at c at",BBB,C)
                     # What should we put in here — we don't need/want to display it, but it's a place to jump to
@@ -2392,12 +2392,11 @@ class BibleWriter( InternalBible ):
                     ignoredMarkers.add( marker )
                 elif marker == 'c#':
                     if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toHTML5: have extras at c# at",BBB,C)
-                    C = text
                     if not haveOpenParagraph:
                         #logger.warning( "toHTML5: Have chapter number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     # Put verse 1 id here on the chapter number (since we don't output a v1 number)
-                    writerObject.writeLineOpenClose( 'span', text, [('class','chapterNumber'),('id','CT'+text)] )
+                    writerObject.writeLineOpenClose( 'span', text, [('class','chapterNumber'),('id','CT'+C)] )
                     writerObject.writeLineOpenClose( 'span', '&nbsp;', ('class','chapterNumberPostspace') )
                 elif marker == 'vp#': # This precedes a v field and has the verse number to be printed
                     gotVP = text # Just remember it for now
-- 
2.43.0


From b0e01d6a2007d43e1b60e1011f5cbb00a0ac81e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 106/217] fix: toHTML5 closed lists, verses and paragraphs in
 the wrong order or not at all

---
 BibleOrgSys/BibleWriter.py | 70 ++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c5e6f20..662925c 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2312,6 +2312,18 @@ class BibleWriter( InternalBible ):
                 return text
             # end of liveLocal
 
+            def closeVerseAndParagraph() -> None:
+                """
+                Closes whichever of verse, list item, lists, and paragraph are open (innermost first).
+                """
+                nonlocal haveOpenParagraph, haveOpenListItem, haveOpenVerse
+                if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
+                for lx in ('4','3','2','1',): # Close any open lists
+                    if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
+                if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+            # end of toHTML5.closeVerseAndParagraph
+
 
             writeHeader( writerObject, BBB )
             haveOpenSection = haveOpenParagraph = haveOpenListItem = haveOpenVerse = False
@@ -2337,21 +2349,17 @@ class BibleWriter( InternalBible ):
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
                 elif marker in ('mt1','mt2','mt3','mt4', 'imt1','imt2','imt3','imt4',):
-                    if haveOpenParagraph:
-                        logger.error( "toHTML5: didn't expect {} field with paragraph still open at {} {}:{}".format( marker, BBB, C, V ) )
-                        writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     tClass = 'mainTitle' if marker in ('mt1','mt2','mt3','mt4',) else 'introductionMainTitle'
                     if text: writerObject.writeLineOpenClose( 'h1', text, ('class',tClass+marker[2]) )
                 elif marker in ('is1','is2','is3','is4',):
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     #if not haveOpenParagraph:
                         #logger.warning( "toHTML5: Have {} introduction section heading {} outside a paragraph in {}".format( marker, text, BBB ) )
                         #writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     if text: writerObject.writeLineOpenClose( 'h3', text, ('class','introductionSectionHeading'+marker[2]) )
                 elif marker in ('ip','ipi','ipq','ipr', 'im','imi','imq', 'iq1','iq2','iq3','iq4', 'iex', ):
-                    if haveOpenParagraph:
-                        logger.error( "toHTML5: didn't expect {} field with paragraph still open at {} {}:{}".format( marker, BBB, C, V ) )
-                        writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     #if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if not haveOpenSection:
                         writerObject.writeLineOpen( 'section', ('class','regularSection') ); haveOpenSection = True
@@ -2359,26 +2367,23 @@ class BibleWriter( InternalBible ):
                         writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class',ipHTMLClassDict[marker]), noTextCheck=haveExtraFormatting )
                         #writerObject.writeLineText( BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), noTextCheck=True )
                 elif marker == 'iot':
-                    if haveOpenParagraph:
-                        logger.error( "toHTML5: didn't expect {} field with paragraph still open at {} {}:{}".format( marker, BBB, C, V ) )
-                        writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     #if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
                     if text: writerObject.writeLineOpenClose( 'h3', text, ('class','introductionOutlineTitle') )
                 elif marker in ('io1','io2','io3','io4',):
-                    if self.doExtraChecking: assert not haveOpenParagraph
-                    #if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if text: writerObject.writeLineOpenClose( 'p', liveLocal(text), ('class','introductionOutlineEntry'+marker[2]), noTextCheck=True )
                 elif marker == 'ib':
                     if self.doExtraChecking: assert not text and not extras
                     writerObject.writeLineOpenClose( 'p', ' ', ('class','introductionBlankParagraph') )
                 elif marker == 'periph':
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if BibleOrgSysGlobals.debugFlag:
                         assert BBB in ('FRT','INT','BAK','OTH',)
                         assert text and not extras
                     writerObject.writeLineOpenClose( 'p', ' ', ('class','peripheralContent') )
                 elif marker in ('mte1','mte2','mte3','mte4', 'imte1','imte2','imte3','imte4',):
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if text: writerObject.writeLineOpenClose( 'h1', text, ('class','endTitle'+marker[3]) )
 
                 # Now markers in the main text
@@ -2392,7 +2397,7 @@ class BibleWriter( InternalBible ):
                     ignoredMarkers.add( marker )
                 elif marker == 'c#':
                     if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toHTML5: have extras at c# at",BBB,C)
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenListItem:
                         #logger.warning( "toHTML5: Have chapter number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     # Put verse 1 id here on the chapter number (since we don't output a v1 number)
@@ -2408,6 +2413,8 @@ class BibleWriter( InternalBible ):
                         gotVP = None
                     if not haveOpenParagraph:
                         logger.warning( "toHTML5: Have verse number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
+                        if not haveOpenListItem:
+                            writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseOnePrespace') )
@@ -2419,20 +2426,17 @@ class BibleWriter( InternalBible ):
                         writerObject.writeLineOpenClose( 'span', '&nbsp;', ('class','verseNumberPostspace') )
 
                 elif marker in ('ms1','ms2','ms3','ms4',):
-                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if text: writerObject.writeLineOpenClose( 'h2', text, ('class','majorSectionHeading'+marker[2]) )
                 elif marker in ('s1','s2','s3','s4',):
-                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if marker == 's1':
                         if haveOpenSection: writerObject.writeLineClose( 'section' ); haveOpenSection = False
                         writerObject.writeLineOpen( 'section', ('class','regularSection') ); haveOpenSection = True
                     if text or extras: writerObject.writeLineOpenClose( 'h3', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','sectionHeading'+marker[1]), noTextCheck=haveExtraFormatting )
                 elif marker in ('r', 'sr', 'mr',):
                     if self.doExtraChecking: assert not haveOpenVerse
-                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if not haveOpenSection:
                         logger.warning( "toHTML5: Have {} section reference {} outside a section in {} {}:{}".format( marker, text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'section', ('class','regularSection') ); haveOpenSection = True
@@ -2442,22 +2446,22 @@ class BibleWriter( InternalBible ):
                     elif marker == 'mr': rClass = 'majorSectionReferenceRange'
                     if text: writerObject.writeLineOpenClose( 'p', createSectionCrossReference(text), ('class',rClass), noTextCheck=True )
                 elif marker == 'd': # descriptive title or Hebrew subtitle
+                    closeVerseAndParagraph()
                     if text or extras: writerObject.writeLineOpenClose( 'p', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class','descriptiveTitle'), noTextCheck=haveExtraFormatting )
                 elif marker == 'sp': # speaker
+                    closeVerseAndParagraph()
                     if text: writerObject.writeLineOpenClose( 'p', text, ('class','speaker') )
                 elif marker in ('p','m','pmo','pm','pmc','pmr','pi1','pi2','pi3','pi4','mi','cls','pc','pr','ph1','ph2','ph3','ph4',) \
                 or marker in ('q1','q2','q3','q4','qr','qc','qm1','qm2','qm3','qm4',):
-                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
-                    if haveOpenList:
-                        for lx in ('4','3','2','1',): # Close any open lists
-                            if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
-                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     writerObject.writeLineOpen( 'p', ('class',pqHTMLClassDict[marker]) ); haveOpenParagraph = True
                     if text and BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
                 elif marker in ('li1','li2','li3','li4','ili1','ili2','ili3','ili4',):
                     if marker.startswith('li'): m, pClass, iClass = marker[2], 'list'+marker[2], 'listItem'+marker[2]
                     else: m, pClass, iClass = marker[3], 'introductionList'+marker[3], 'introductionListItem'+marker[3]
+                    if haveOpenParagraph: closeVerseAndParagraph()
+                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
+                    if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
                     if not haveOpenList or m not in haveOpenList or not haveOpenList[m]:
                         writerObject.writeLineOpen( 'p', ('class',pClass) ); haveOpenList[m] = True
                     if marker.startswith('li'):
@@ -2465,15 +2469,14 @@ class BibleWriter( InternalBible ):
                         writerObject.writeLineOpen( 'span', ('class',iClass) ); haveOpenListItem = True
                     elif text: writerObject.writeLineOpenClose( 'span', BibleWriter.__formatHTMLVerseText( BBB, C, V, text, extras, ourGlobals ), ('class',iClass) )
                 elif marker == 'b':
-                    if haveOpenVerse: writerObject.writeLineClose( 'span' ); haveOpenVerse = False
-                    if haveOpenParagraph: writerObject.writeLineClose( 'p' ); haveOpenParagraph = False
+                    closeVerseAndParagraph()
                     if self.doExtraChecking: assert not text and not extras
                     writerObject.writeLineOpenClose( 'p', ' ', ('class','blankParagraph') )
 
                 # Character markers
                 elif marker in ('v~','p~',):
                     #if BibleOrgSysGlobals.debugFlag and marker=='v~': assert haveOpenVerse
-                    if not haveOpenParagraph:
+                    if not haveOpenParagraph and not haveOpenListItem:
                         logger.warning( "toHTML5: Have verse text {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
                     if not haveOpenVerse:
@@ -2496,12 +2499,7 @@ class BibleWriter( InternalBible ):
                     logger.critical( "toHTML5: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
 
-            if haveOpenListItem: writerObject.writeLineClose( 'span' ); haveOpenListItem = False
-            if haveOpenList:
-                for lx in ('4','3','2','1',): # Close any open lists
-                    if lx in haveOpenList and haveOpenList[lx]: writerObject.writeLineClose( 'p' ); del haveOpenList[lx]
-            if haveOpenVerse: writerObject.writeLineClose( 'span' )
-            if haveOpenParagraph: writerObject.writeLineClose( 'p' )
+            closeVerseAndParagraph()
             if haveOpenSection: writerObject.writeLineClose( 'section' )
             writeEndNotes( writerObject, ourGlobals )
             writeFooter( writerObject )
-- 
2.43.0


From d0b8a49fe73d54232891bdbc08e10274d3149a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 107/217] fix: toSwordModule failed on a book starting with
 part of a verse

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 662925c..23c4971 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6715,6 +6715,7 @@ class BibleWriter( InternalBible ):
                     sID = osisID = toSwordGlobals['verseRef'] = chapterRef + '.' + verseNumberString
                 else:
                     logger.critical( _("toSwordModule: {} doesn't handle verse number of form {!r} yet for {}").format(self.abbreviation, verseNumberString,chapterRef) )
+                    sID = osisID = toSwordGlobals['verseRef'] = chapterRef + '.' + verseNumberString # Try it anyway
                 writerObject.writeLineOpenSelfclose( 'verse', [('sID',sID), ('osisID',osisID)] ); haveOpenVsID = sID
                 #adjText = processXRefsAndFootnotes( verseText, extras )
                 #writerObject.writeLineText( checkSwordText(adjText), noTextCheck=True )
-- 
2.43.0


From e2e9a581a43a5b2bd093d45065ce666eedc9f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 108/217] fix: USFM files starting with a byte order marker
 weren't recognised by their id line

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 19ae377..a61627e 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -278,6 +278,7 @@ class USFMFilenames:
                 for line in possibleUSFMFile:
                     lineNumber += 1
                     if line[-1]=='\n': line = line[:-1] # Removing trailing newline character
+                    if lineNumber==1 and line.startswith( BibleOrgSysGlobals.BOM ): line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, thisFilename, lineNumber, line )
                     if line.startswith( '\\id ' ):
                         if len(line)<5: logging.warning( "id line {!r} in {} is too short".format( line, filepath ) )
-- 
2.43.0


From fd10bf35fa2e22c6dffa9cd93a4906b882852bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 109/217] fix: files whose id line is for another book were
 confirmed in strict mode

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index a61627e..f47e833 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -441,8 +441,8 @@ class USFMFilenames:
                     if USFMId is None:
                         logging.error( "{}internal USFM Id missing for {} in {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', BBB, derivedFilename ) )
                         continue # so it doesn't get added
-                    BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
-                    if BBB != BBB:
+                    idBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMId )
+                    if idBBB != BBB:
                         logging.error( "{}Internal USFM Id ({}{}) doesn't match {} for {}".format( 'getConfirmedFilenameTuples: ' if BibleOrgSysGlobals.debugFlag else '', USFMId, '' if BBB==USFMId else " -> {}".format(BBB), BBB, derivedFilename ) )
                         continue # so it doesn't get added
                 self.doListAppend( BBB, derivedFilename, resultList, "getConfirmedFilenameTuples" )
-- 
2.43.0


From b9f6d616b00eae258d6fda8f36a6a9ceaa8ca4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 110/217] fix: strict search for USX files failed if one didn't
 start with an XML line

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..b615e79 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -273,7 +273,7 @@ class USXFilenames:
                     if not firstLines or len(firstLines)<3: continue
                     if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                     and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                     if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                         continue # so it doesn't get added
                 resultList.append( (BBB, possibleFilename,) )
@@ -311,7 +311,7 @@ class USXFilenames:
                                 continue
                             if not ( firstLines[0].startswith( '<?xml version="1.0"' ) or firstLines[0].startswith( "<?xml version='1.0'" ) ) \
                             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
-                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
+                                vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "USXB (unexpected) first line was {!r} in {}".format( firstLines, possibleFilename ) )
                             if '<usx' not in firstLines[0] and '<usx' not in firstLines[1]:
                                 continue # so it doesn't get added
                         self.doListAppend( BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode ), possibleFilename, resultList, "getPossibleFilenameTuplesExt" )
-- 
2.43.0


From 01410fc9f1e36cff62e7b69943498a9b2b62b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 111/217] fix: folders of USX files named by codes like 1SA.usx
 weren't recognised

---
 BibleOrgSys/InputOutput/USXFilenames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index b615e79..1082062 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -120,10 +120,10 @@ class USXFilenames:
                 if foundLength == 3:
                     self.hyphenIndex = None
                     for USXBookCode,USXDigits,BBB in BibleOrgSysGlobals.loadedBibleBooksCodes.getAllUSXBooksCodeNumberTriples():
-                        if foundFileBit == BBB:
+                        if foundFileBit == USXBookCode.upper():
                             self.pattern = 'BBB'
                             matched = True
-                        elif foundFileBit.upper() == BBB:
+                        elif foundFileBit == USXBookCode.lower():
                             self.pattern = 'bbb'
                             matched = True
                 elif foundLength>=6 and containsDigits:
-- 
2.43.0


From ee6d38db806b28a3ca72bcd72dc1c0a0bb084b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:27 +0000
Subject: [PATCH 112/217] fix: folders of New Testament USX files like
 41-MAT.usx weren't recognised

---
 BibleOrgSys/InputOutput/USXFilenames.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index 1082062..094a201 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -143,8 +143,10 @@ class USXFilenames:
                             if USXBookCode.isupper(): self.pattern = self.pattern.replace( 'bbb', 'BBB' )
                             matched = True
                             break
-                        elif USXDigits[1:] in foundFileBit and '-' in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
-                            digitsIndex = foundFileBit.index( USXDigits[1:] ) # Without the leading zero for the 66 books
+                        # In the two-digit form, the numbers after Malachi are one higher (as also in getDerivedFilenameTuples() below)
+                        twoDigits = str( int(USXDigits)+1 ) if USXDigits.isdigit() and int(USXDigits)>39 else USXDigits[1:]
+                        if twoDigits in foundFileBit and '-' in foundFileBit and (USXBookCode in foundFileBit or USXBookCode.upper() in foundFileBit):
+                            digitsIndex = foundFileBit.index( twoDigits ) # Without the leading zero for the 66 books
                             hyphenIndex = foundFileBit.index( '-' )
                             USXBookCodeIndex = foundFileBit.index(USXBookCode) if USXBookCode in foundFileBit else foundFileBit.index(USXBookCode.upper())
                             USXBookCode = foundFileBit[USXBookCodeIndex:USXBookCodeIndex+3]
-- 
2.43.0


From 5564a4ee7d0a6e9db88b7471f1811afe034a835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 113/217] fix: folders of ESFM files were never recognised as
 such

---
 BibleOrgSys/Formats/ESFMBible.py  | 5 -----
 BibleOrgSys/Formats/USFM2Bible.py | 2 ++
 BibleOrgSys/Formats/USFMBible.py  | 2 ++
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..454a224 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -113,11 +113,6 @@ def ESFMBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fa
         logging.critical( _("ESFMBibleFileCheck: Given {!r} path is not a folder").format( givenFolderName ) )
         return False
 
-    # Check that there's a USFM Bible here first
-    from BibleOrgSys.Formats.USFMBible import USFMBibleFileCheck
-    if not USFMBibleFileCheck( givenFolderName, strictCheck, discountSSF=False ): # no autoloads
-        return False
-
     # Find all the files and folders in this folder
     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, " ESFMBibleFileCheck: Looking for files in given {}".format( givenFolderName ) )
     foundFolders, foundFiles = [], []
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..ba36e15 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -112,6 +112,7 @@ def USFM2BibleFileCheck( givenFolderName, strictCheck=True, autoLoad=False, auto
     UFns = USFMFilenames( givenFolderName ) # Assuming they have standard Paratext style filenames
     dPrint( 'Never', DEBUGGING_THIS_MODULE, UFns )
     filenameTuples = UFns.getMaximumPossibleFilenameTuples( strictCheck=strictCheck ) # Returns (BBB,filename) 2-tuples
+    filenameTuples = [(BBB,filename) for BBB,filename in filenameTuples if os.path.splitext( filename )[1].upper() != '.ESFM'] # These aren't USFM
     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "  Maximum:", len(filenameTuples), filenameTuples )
     # Check they are USFM2 (not 3)
     #saveFilenameTuples = filenameTuples.copy()
@@ -216,6 +217,7 @@ def USFM2BibleFileCheck( givenFolderName, strictCheck=True, autoLoad=False, auto
         UFns = USFMFilenames( tryFolderName ) # Assuming they have standard Paratext style filenames
         dPrint( 'Never', DEBUGGING_THIS_MODULE, UFns )
         filenameTuples = UFns.getMaximumPossibleFilenameTuples( strictCheck=strictCheck ) # Returns (BBB,filename) 2-tuples
+        filenameTuples = [(BBB,filename) for BBB,filename in filenameTuples if os.path.splitext( filename )[1].upper() != '.ESFM'] # These aren't USFM
         vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "  Maximum:", len(filenameTuples), filenameTuples )
         # Check they are USFM2 (not 3)
         #saveFilenameTuples = filenameTuples.copy()
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..9bb7361 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -127,6 +127,7 @@ def USFMBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fa
     UFns = USFMFilenames( givenFolderName ) # Assuming they have standard Paratext style filenames
     dPrint( 'Never', DEBUGGING_THIS_MODULE, UFns )
     filenameTuples = UFns.getMaximumPossibleFilenameTuples( strictCheck=strictCheck ) # Returns (BBB,filename) 2-tuples
+    filenameTuples = [(BBB,filename) for BBB,filename in filenameTuples if os.path.splitext( filename )[1].upper() != '.ESFM'] # These aren't USFM
     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "  Maximum:", len(filenameTuples), filenameTuples )
     # Check they are USFM3 (not 2)
     goodIndexList = []
@@ -195,6 +196,7 @@ def USFMBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fa
         UFns = USFMFilenames( tryFolderName ) # Assuming they have standard Paratext style filenames
         dPrint( 'Never', DEBUGGING_THIS_MODULE, UFns )
         filenameTuples = UFns.getMaximumPossibleFilenameTuples( strictCheck=strictCheck ) # Returns (BBB,filename) 2-tuples
+        filenameTuples = [(BBB,filename) for BBB,filename in filenameTuples if os.path.splitext( filename )[1].upper() != '.ESFM'] # These aren't USFM
         vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "  Maximum:", len(filenameTuples), filenameTuples )
         # Check they are USFM3 (not 2)
         goodIndexList = []
-- 
2.43.0


From 40a3040be86b7b4f1686524267d2af2c5f56549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 114/217] fix: folders of TeX files were taken to be USFM
 Bibles

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index f47e833..b9db778 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -79,7 +79,7 @@ FILENAME_ENDINGS_TO_IGNORE = ('.ZIP.GO', '.ZIP.DATA',) # Must begin with a dot
 # NOTE: Extensions ending in ~ are also ignored
 EXTENSIONS_TO_IGNORE = ( 'ASC', 'BAK', 'BAK2', 'BAK3', 'BAK4', 'BBLX', 'BC', 'CCT', 'CSS', 'DOC', 'DTS', 'HTM','HTML',
                     'JAR', 'LDS', 'LOG', 'MYBIBLE', 'NT','NTX', 'ODT', 'ONT','ONTX', 'OSIS', 'OT','OTX', 'PDB',
-                    'SAV', 'SAVE', 'STY', 'SSF', 'USX', 'VRS', 'YET', 'XML', 'ZIP', ) # Must be UPPERCASE and NOT begin with a dot
+                    'SAV', 'SAVE', 'STY', 'SSF', 'TEX', 'USX', 'VRS', 'YET', 'XML', 'ZIP', ) # Must be UPPERCASE and NOT begin with a dot
 
 
 
-- 
2.43.0


From 0243793380581c306bd18590b086906a77be5ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 115/217] fix: checking for VPL Bibles failed if a text file
 started with a blank line or a byte order marker

---
 BibleOrgSys/Formats/VPLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..01520f4 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -181,9 +181,9 @@ def VPLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 firstLines = BibleOrgSysGlobals.peekIntoFile( thisFilename, givenFolderName, numLines=4 )
                 dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Check 1: {firstLines=}" )
                 if firstLines is None: continue # seems we couldn't decode the file
-                if firstLines and firstLines[0][0]==BibleOrgSysGlobals.BOM:
+                if firstLines and firstLines[0].startswith( BibleOrgSysGlobals.BOM ):
                     logging.info( "VPLBibleFileCheck: Detected Unicode Byte Order Marker (BOM) in {}".format( thisFilename ) )
-                    firstLines = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
+                    firstLines[0] = firstLines[0][1:] # Remove the Unicode Byte Order Marker (BOM)
                 for line in firstLines:
                     # Try to identify the VPL type
                     match = re.search( '^(\\w{2,5}?)\\s(\\d{1,3})[:\\.](\\d{1,3})\\s', line )
-- 
2.43.0


From 00397a4b2b3008cb7daaadc6ac70e6940d51f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:52 +0000
Subject: [PATCH 116/217] fix: checking for Drupal Bibles in subfolders failed
 on other .bc files

---
 BibleOrgSys/Formats/DrupalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/DrupalBible.py b/BibleOrgSys/Formats/DrupalBible.py
index d35eb27..8019786 100755
--- a/BibleOrgSys/Formats/DrupalBible.py
+++ b/BibleOrgSys/Formats/DrupalBible.py
@@ -189,7 +189,7 @@ def DrupalBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=
                     firstLine = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName )
                     if firstLine is None: continue # seems we couldn't decode the file
                     if ( not firstLine.startswith( '\ufeff*Bible' ) ) and ( not firstLine.startswith( "*Bible" ) ):
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "DrupalBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) ); halt
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "DrupalBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) )
                         continue
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BFC_here", repr(tryFolderName), repr(thisFilename) )
                 foundProjects.append( (tryFolderName, thisFilename,) )
-- 
2.43.0


From 5617c4481adbb8eb4bb321c41a93331c35748fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 117/217] fix: checking for Zefania Bibles failed on XML files
 with less than seven lines

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..c67423e 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -156,12 +156,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
                 continue
-            if not firstLines[1].startswith( '<XMLBIBLE' ) \
-            and not firstLines[2].startswith( '<XMLBIBLE' ) \
-            and not firstLines[3].startswith( '<XMLBIBLE' ) \
-            and not firstLines[4].startswith( '<XMLBIBLE' ) \
-            and not firstLines[5].startswith( '<XMLBIBLE' ) \
-            and not firstLines[6].startswith( '<XMLBIBLE' ) \
+            if not any( line.startswith( '<XMLBIBLE' ) for line in firstLines[1:7] ) \
             and not firstLines[1].startswith( '<!--Nice Viewer' ) \
             and not firstLines[1].startswith( '<!--Builded with' ) \
             and not firstLines[1].startswith( '<!--For Programmers' ) \
@@ -212,12 +207,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
                 and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
                     continue
-                if not firstLines[1].startswith( '<XMLBIBLE' ) \
-                and not firstLines[2].startswith( '<XMLBIBLE' ) \
-                and not firstLines[3].startswith( '<XMLBIBLE' ) \
-                and not firstLines[4].startswith( '<XMLBIBLE' ) \
-                and not firstLines[5].startswith( '<XMLBIBLE' ) \
-                and not firstLines[6].startswith( '<XMLBIBLE' ) \
+                if not any( line.startswith( '<XMLBIBLE' ) for line in firstLines[1:7] ) \
                 and not firstLines[1].startswith( '<!--Nice Viewer' ) \
                 and not firstLines[1].startswith( '<!--Builded with' ) \
                 and not firstLines[1].startswith( '<!--For Programmers' ) \
-- 
2.43.0


From 3e5064b6e6b04d3658930b8504d522b5263f35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 118/217] fix: toOpenSongXML wrote a root element which isn't
 recognised

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..5c14172 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -334,10 +334,10 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
     xw = MLWriter( filename, outputFolder )
     xw.setHumanReadable()
     xw.start()
-    xw.writeLineOpen( 'Bible' )
+    xw.writeLineOpen( 'bible' )
     for BBB,bookData in BibleObject.books.items():
         writeOpenSongBook( xw, BBB, bookData )
-    xw.writeLineClose( 'Bible' )
+    xw.writeLineClose( 'bible' )
     xw.close()
 
     if ignoredMarkers:
-- 
2.43.0


From f8fd557f9339b0a12960bec7c537ed1f22a421fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 119/217] fix: toHaggaiXML wrote a root element which isn't
 recognised, and Haggai files were taken to be Zefania ones

---
 BibleOrgSys/BibleWriter.py             | 4 ++--
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 23c4971..b141f2d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6294,12 +6294,12 @@ class BibleWriter( InternalBible ):
 # TODO: Some modules have <XMLBIBLE xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="zef2005.xsd" version="2.0.1.18" status='v' revision="1" type="x-bible" biblename="KJV+">
         try: hBN = controlDict['HaggaiBibleName']
         except KeyError: hBN = 'ExportedBible'
-        xw.writeLineOpen( 'XMLBible', [('xmlns:xsi',"http://www.w3.org/2001/XMLSchema-instance"), ('type',"x-bible" ), ('biblename',hBN) ] )
+        xw.writeLineOpen( 'XMLBIBLE', [('xmlns:xsi',"http://www.w3.org/2001/XMLSchema-instance"), ('xsi:noNamespaceSchemaLocation',"haggai_20130620.xsd"), ('type',"x-bible" ), ('biblename',hBN) ] )
         if True: #if controlDict['HaggaiFiles']=='byBible':
             writeHeader( xw )
             for BBB,bookData in self.books.items():
                 writeHagBook( xw, BBB, bookData )
-        xw.writeLineClose( 'XMLBible' )
+        xw.writeLineClose( 'XMLBIBLE' )
         xw.close()
 
         if ignoredMarkers:
diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index c67423e..388a62b 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -156,7 +156,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
             and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                 vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
                 continue
-            if not any( line.startswith( '<XMLBIBLE' ) for line in firstLines[1:7] ) \
+            if not any( line.startswith( '<XMLBIBLE' ) and 'haggai_' not in line for line in firstLines[1:7] ) \
             and not firstLines[1].startswith( '<!--Nice Viewer' ) \
             and not firstLines[1].startswith( '<!--Builded with' ) \
             and not firstLines[1].startswith( '<!--For Programmers' ) \
@@ -207,7 +207,7 @@ def ZefaniaXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:b
                 and not ( firstLines[0].startswith( '\ufeff<?xml version="1.0"' ) or firstLines[0].startswith( "\ufeff<?xml version='1.0'" ) ): # same but with BOM
                     vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "ZB (unexpected) first line was {!r} in {}".format( firstLines, thisFilename ) )
                     continue
-                if not any( line.startswith( '<XMLBIBLE' ) for line in firstLines[1:7] ) \
+                if not any( line.startswith( '<XMLBIBLE' ) and 'haggai_' not in line for line in firstLines[1:7] ) \
                 and not firstLines[1].startswith( '<!--Nice Viewer' ) \
                 and not firstLines[1].startswith( '<!--Builded with' ) \
                 and not firstLines[1].startswith( '<!--For Programmers' ) \
-- 
2.43.0


From 727549f6890468da58b6c6b1685531597c8014d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 120/217] fix: CSV and VPL Bibles found in a folder couldn't be
 loaded

---
 BibleOrgSys/Formats/CSVBible.py | 9 +++++----
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..f856eab 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -223,7 +223,7 @@ class CSVBible( Bible ):
         self.objectTypeString = 'CSV'
 
         # Now we can set our object variables
-        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding
+        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding or 'utf-8'
         if self.givenName and not self.name:
             self.name = self.givenName
         if os.path.isfile( sourceFileOrFolder ):
@@ -232,15 +232,16 @@ class CSVBible( Bible ):
             self.sourceFilename = self.sourceFilepath.name
         elif os.path.isdir( sourceFileOrFolder ):
             self.sourceFolder = sourceFileOrFolder
+            lowerAbbreviation = self.abbreviation.lower() if self.abbreviation else self.abbreviation
             # NOTE: The following code assumes one file for the entire work
             #           but load() can also handle one file per book
             for self.sourceFilename in (f'{self.givenName}.csv',f'{self.givenName}.CSV',
                                         f'{self.givenName}.tsv',f'{self.givenName}.TSV',
                                         f'{self.givenName}.txt',f'{self.givenName}.TXT',
                                         self.givenName,
-                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{self.abbreviation.lower()}.csv',f'{self.abbreviation.lower()}.CSV',
-                                        f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{self.abbreviation.lower()}.tsv',f'{self.abbreviation.lower()}.TSV',
-                                        f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{self.abbreviation.lower()}.txt',f'{self.abbreviation.lower()}.TXT',
+                                        f'{self.abbreviation}.csv',f'{self.abbreviation}.CSV', f'{lowerAbbreviation}.csv',f'{lowerAbbreviation}.CSV',
+                                        f'{self.abbreviation}.tsv',f'{self.abbreviation}.TSV', f'{lowerAbbreviation}.tsv',f'{lowerAbbreviation}.TSV',
+                                        f'{self.abbreviation}.txt',f'{self.abbreviation}.TXT', f'{lowerAbbreviation}.txt',f'{lowerAbbreviation}.TXT',
                                         self.abbreviation,):
                 self.sourceFilepath =  os.path.join( self.sourceFolder, self.sourceFilename )
                 # Do a preliminary check on the readability of our file
diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 01520f4..398dea1 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -306,7 +306,7 @@ class VPLBible( Bible ):
         self.objectTypeString = 'VPL'
 
         # Now we can set our object variables
-        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding
+        self.givenName, self.abbreviation, self.encoding = givenName, givenAbbreviation, encoding or 'utf-8'
         if self.givenName and not self.name:
             self.name = self.givenName
         if os.path.isfile( sourceFileOrFolder ):
-- 
2.43.0


From 608b1320c8e2137335c395eef0e226bbdc137d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 121/217] fix: loading a VPL Bible failed with a NameError

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 398dea1..9442dcb 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From 5cba9e6997dc7274a626f5e36c5cbd856227e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 122/217] fix: CSV Bibles with book numbers couldn't be loaded

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index f856eab..3a8112b 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -339,7 +339,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and bookNumber==-1 and not BBB:
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From 87f6b6979d7d942f8741ce7185fcf8786ac2bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 123/217] fix: YET Bibles in a subfolder couldn't be loaded,
 and other .yet files there stopped the search

---
 BibleOrgSys/Formats/YETBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..8de57e5 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -185,7 +185,7 @@ def YETBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
                 if strictCheck or BibleOrgSysGlobals.strictCheckingFlag:
                     firstLine = BibleOrgSysGlobals.peekIntoFile( thisFilename, tryFolderName )
                     if not firstLine.startswith( "info\t"):
-                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "YETBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) ); halt
+                        vPrint( 'Verbose', DEBUGGING_THIS_MODULE, "YETBible (unexpected) first line was {!r} in {}".format( firstLine, thisFilename ) )
                         continue
                 foundProjects.append( (tryFolderName, thisFilename,) )
                 lastFilenameFound = thisFilename
@@ -194,7 +194,7 @@ def YETBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fal
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "YETBibleFileCheck foundProjects", numFound, foundProjects )
         if numFound == 1 and (autoLoad or autoLoadBooks):
             if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
-            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-9] ) # Remove the end of the actual filename "_utf8.txt"
+            uB = YETBible( foundProjects[0][0], foundProjects[0][1][:-4] ) # Remove the end of the actual filename ".yet"
             if autoLoadBooks: uB.load() # Load and process the file
             return uB
         return numFound
-- 
2.43.0


From 9e89125a5917f151ec12cea4c1a94730a42e0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:22 +0000
Subject: [PATCH 124/217] fix: a single OSIS file found in a folder couldn't be
 loaded if it didn't end with .xml

---
 BibleOrgSys/Formats/OSISXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4416b8a..390e193 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -146,7 +146,7 @@ def OSISXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
     if numFound:
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "OSISXMLBibleFileCheck got", numFound, givenFolderName, lastFilenameFound )
         if numFound == 1 and (autoLoad or autoLoadBooks):
-            ub = OSISXMLBible( givenFolderName, lastFilenameFound ) # lastFilenameFound can be None
+            ub = OSISXMLBible( os.path.join( givenFolderName, lastFilenameFound ) if lastFilenameFound else givenFolderName, lastFilenameFound ) # lastFilenameFound can be None
             if autoLoadBooks: ub.loadBooks() # Load and process the file(s)
             return ub
         return numFound
@@ -201,7 +201,7 @@ def OSISXMLBibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "OSISXMLBibleFileCheck foundProjects", numFound, foundProjects )
         if numFound == 1 and (autoLoad or autoLoadBooks):
             if BibleOrgSysGlobals.debugFlag: assert len(foundProjects) == 1
-            ub = OSISXMLBible( foundProjects[0][0], foundProjects[0][1] ) # Folder and filename
+            ub = OSISXMLBible( os.path.join( foundProjects[0][0], foundProjects[0][1] ), foundProjects[0][1] )
             if autoLoadBooks: ub.loadBooks() # Load and process the file(s)
             return ub
         return numFound
-- 
2.43.0


From 01348c108189de95628517af054684c88a56e352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 125/217] fix: endnotes were exported to XML formats as unknown
 extras in the verse text

---
 BibleOrgSys/BibleWriter.py         | 8 +++++---
 BibleOrgSys/Formats/USXXMLBible.py | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b141f2d..b22f4dc 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4107,6 +4107,8 @@ class BibleWriter( InternalBible ):
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
                         if extraType == 'fn':
                             extra = processFootnote( extraText )
+                        elif extraType == 'en':
+                            extra = processFootnote( extraText ).replace( 'style="f"', 'style="fe"', 1 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
                             extra = processXRef( extraText )
@@ -4621,7 +4623,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         #adjText = checkText( extraText, checkLeftovers=False ) # do any general character formatting
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( extraText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
@@ -5174,7 +5176,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         adjText = checkOSISText( extraText, checkLeftovers=False ) # do any general character formatting on the notes
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( adjText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
@@ -5963,7 +5965,7 @@ class BibleWriter( InternalBible ):
                         #assert 0 <= adjIndex <= len(verse)
                         adjText = checkZefaniaText( extraText, checkLeftovers=False ) # do any general character formatting on the notes
                         #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "processZefXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
-                        if extraType == 'fn':
+                        if extraType in ('fn','en'):
                             extra = processFootnote( adjText )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                         elif extraType == 'xr':
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..3336b59 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -844,6 +844,8 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     #if adjText!=extraText: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_processXRefsAndFootnotes: {}@{}-{}={} {!r} now {!r}".format( extraType, extraIndex, offset, adjIndex, extraText, adjText ) )
                     if extraType == 'fn':
                         extra = _processFootnote( extraText )
+                    elif extraType == 'en':
+                        extra = _processFootnote( extraText ).replace( 'style="f"', 'style="fe"', 1 )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "fn got", extra )
                     elif extraType == 'xr':
                         extra = _processXRef( extraText )
-- 
2.43.0


From 2f1bdc2e240692a581eba0c44bed0b428fc34473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 126/217] fix: nested character markers were left as backslash
 codes in USX2 exports

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b22f4dc..5c2b0ef 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3849,6 +3849,8 @@ class BibleWriter( InternalBible ):
                             adjText = adjText.replace( 'CLOSED_BIT', '' ) # Fix up closed bit since it was specifically closed
                             adjText = adjText.replace( endCharMarker, '</char>' )
                             haveOpenChar = False
+                    # Nested markers always have to be explicitly closed
+                    adjText = adjText.replace( f'\\+{charMarker} ', f'<char style="{charMarker}">' ).replace( f'\\+{charMarker}*', '</char>' )
                 if '\\z' in adjText:
                     # Handle custom (character) markers
                     while True:
-- 
2.43.0


From b83cd5d6c1b07e93e9fedfa2a9f44f4114af636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 127/217] fix: word attributes were written into the verse text
 of USX exports

---
 BibleOrgSys/Formats/USXXMLBible.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3336b59..49ba37a 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -506,8 +506,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
         """
         Writes a book to the filesFolder.
         """
-        attributeStringStarts = set() # Set of start of string of first /ww attributes (from /w after |)
-
         def _handleInternalTextMarkersForUSX( originalText:str ) -> str:
             """
             Handles character formatting markers within the originalText.
@@ -551,9 +549,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 endCharMarker = f'\\+{charMarker}*'
                 if endCharMarker in adjText:
                     adjText = adjText.replace( endCharMarker, '</char>' )
-                if charMarker == 'w': # We may have some cleaning up to do
-                    for attributeStringStart in attributeStringStarts:
-                        adjText = adjText.replace( f'<char style="w">{attributeStringStart}=', f'<char style="w" {attributeStringStart}=') # The end marker is already in there
             if '\\z' in adjText:
                 # Handle custom (character) markers
                 while True:
@@ -862,23 +857,19 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     elif extraType == 'vp':
                         extra = f"\\vp {extraText}\\vp*" # Will be handled later
                     elif extraType == 'ww':
-                        # NOTE: The insert point for \ww fields is at the end of the previous \w field (immediately before the \w*)
-                        #       However, if it's only a Strongs number, the \w field was removed completely
+                        # NOTE: The \w field was removed completely -- the insert point is immediately after the word
                         # if BBB == 'RUT': print( f"{BBB} {C} {V} ww is {extra} with '{adjText}'"); halt
                         ixPipe = extraText.find('|')
                         assert ixPipe != -1
-                        if extraText.count('=')==1 and '|strong="' in extraText: # e.g., 'And|strong="H1121"'
-                            # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Got ww extra with only Strongs: {adjText=} {adjIndex=} {ixPipe=}" )
-                            # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
-                            # But note that the word is already in the text (and the index points to the end of it)
-                            # Also note that ixPipe is actually the word length
-                            extra = f'<char style="w" {extraText[ixPipe+1:]}>{extraText[:ixPipe]}</char>'
-                            adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
-                            offset -= len(extra) - ixPipe
-                            extra = None # to subvert normal processing at bottom of this loop
-                        else: # Assume a remaining \w field and add the extra info to it
-                            extra = f'{extraText[ixPipe+1:]}>'
-                            attributeStringStarts.add(extra[:6])
+                        # We need to recreate the \w (or \+w) field that was removed, e.g., <char style="w" strong="H1121">And</char>
+                        # But note that the word is already in the text (and the index points to the end of it)
+                        # Also note that ixPipe is actually the word length
+                        attributes = extraText[ixPipe+1:].strip()
+                        if attributes and '=' not in attributes: attributes = f'lemma="{attributes}"' # It's the default attribute
+                        extra = f'<char style="w"{" " if attributes else ""}{attributes}>{extraText[:ixPipe]}</char>'
+                        adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
+                        offset -= len(extra) - ixPipe
+                        extra = None # to subvert normal processing at bottom of this loop
                     else:
                         dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"toUSXXML._handleNotesAndExtras: Unexpected {extraType=}" )
                         extra = f"--UNKNOWN {extraType} EXTRA--"
-- 
2.43.0


From d71f12d8faffba622b0181ce1a419b8a99434398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 128/217] fix: special characters (&, < and >) made XML exports
 not well-formed

---
 BibleOrgSys/BibleWriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 5c2b0ef..28b2fb9 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4161,6 +4161,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('v=','cl¤'):
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -4668,6 +4669,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=' or marker=='c#':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -5339,6 +5341,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -6004,6 +6007,7 @@ class BibleWriter( InternalBible ):
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 haveNotesFlag = False
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
@@ -6204,6 +6208,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                if text: text, extras = MLWriter.escape_characters_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
-- 
2.43.0


From 23b04bf3bbaacfac191820bb3cd64b9fb5ceafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 129/217] fix: further lines of a verse (e.g., of poetry) were
 exported to Zefania XML as verses without a number

---
 BibleOrgSys/BibleWriter.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 28b2fb9..6e2e2d8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6002,6 +6002,18 @@ class BibleWriter( InternalBible ):
 
             # Main code for toZefaniaXML.writeZefBook
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
+            verseText, verseAttributes = '', None
+            def writeVerse():
+                """
+                Write the verse that we have collected so far (a verse can consist of several lines).
+                """
+                nonlocal verseText
+                if verseText:
+                    haveEmbeddedStylesFlag = '<NOTE' in verseText or '<XREF' in verseText or '<STYLE' in verseText
+                    writerObject.writeLineOpenClose ( 'VERS', verseText, verseAttributes, noTextCheck=haveEmbeddedStylesFlag )
+                verseText = ''
+            # end of writeVerse
+
             haveOpenChapter, gotVP = False, None
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
@@ -6021,6 +6033,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c':
                     C, V = text, '0'
                     toZefGlobals['verseRef'] = '{},{},{}'.format( BBB, C, V )
+                    writeVerse(); verseAttributes = None
                     if haveOpenChapter:
                         writerObject.writeLineClose ( 'CHAPTER' )
                     writerObject.writeLineOpen ( 'CHAPTER', ('cnumber',text) )
@@ -6038,7 +6051,8 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toZefania: Missing text for v" ); continue
                     verseNumberString, endVerseNumberString = handleVerseNumber( BBB, C, V, text )
-                    #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
+                    writeVerse()
+                    verseAttributes = ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)]
 
                 elif marker in ('mt1','mt2','mt3','mt4', 'mte1','mte2','mte3','mte4', 'ms1','ms2','ms3','ms4',) \
                 or marker in USFM_ALL_INTRODUCTION_MARKERS \
@@ -6056,17 +6070,13 @@ class BibleWriter( InternalBible ):
                     if not text: # this is an empty (untranslated) verse
                          #logger.warning( "toZefania: Missing text for v~" )
                         text = '- - -' # but we'll put in a filler
-                        haveEmbeddedStylesFlag = False
                     else:
                         text = processZefXRefsAndFootnotes( text, extras )
                         text = checkZefaniaText( text, checkLeftovers=self.doExtraChecking )
                         #if self.doExtraChecking:
                             #if '\\' in text: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toZefaniaX: {} {}:{} {!r}".format( BBB,C,V, text ) )
                             #assert '\\' not in text
-                        haveEmbeddedStylesFlag = '<NOTE' in text or '<XREF' in text or '<STYLE' in text
-                    writerObject.writeLineOpenClose ( 'VERS', text,
-                            ('vnumber',verseNumberString) if endVerseNumberString is None else [('vnumber',verseNumberString),('enumber',endVerseNumberString)],
-                            noTextCheck=haveEmbeddedStylesFlag )
+                    verseText += f'{" " if verseText else ""}{text}'
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     text = processZefXRefsAndFootnotes( text, extras )
@@ -6074,9 +6084,7 @@ class BibleWriter( InternalBible ):
                     #if self.doExtraChecking:
                         #if '\\' in text: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toZefaniaY: {} {}:{} {!r}".format( BBB,C,V, text ) )
                         #assert '\\' not in text
-                    if text:
-                        haveEmbeddedStylesFlag = '<NOTE' in text or '<XREF' in text or '<STYLE' in text
-                        writerObject.writeLineOpenClose ( 'VERS', text, noTextCheck=haveEmbeddedStylesFlag )
+                    if text: verseText += f'{" " if verseText else ""}{text}'
                 else:
                     if text:
                         logger.error( "toZefania: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
@@ -6087,6 +6095,7 @@ class BibleWriter( InternalBible ):
                     unhandledMarkers.add( marker )
                 if extras and marker not in ('v~','p~',) and marker not in ignoredMarkers:
                     logger.critical( "toZefania: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
+            writeVerse()
             if haveOpenChapter:
                 writerObject.writeLineClose( 'CHAPTER' )
             writerObject.writeLineClose( 'BIBLEBOOK' )
-- 
2.43.0


From 8fa9c09728e5ed1ac5acbe493bcc97684e72f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 130/217] fix: Haggai XML exports had USFM codes in the text,
 and further lines of a verse as verses without a number

---
 BibleOrgSys/BibleWriter.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 6e2e2d8..e84f27b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6212,6 +6212,16 @@ class BibleWriter( InternalBible ):
                 unhandledBooks.append( BBB )
                 return
             writerObject.writeLineOpen( 'BIBLEBOOK', [('bnumber',BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber(BBB)), ('bname',BibleOrgSysGlobals.loadedBibleBooksCodes.getEnglishName_NR(BBB)), ('bsname',OSISAbbrev)] )
+            verseText, verseAttributes = '', None
+            def writeVerse():
+                """
+                Write the verse (part) that we have collected so far (a verse can consist of several lines).
+                """
+                nonlocal verseText
+                if verseText: writerObject.writeLineOpenClose ( 'VERSE', verseText, verseAttributes )
+                verseText = ''
+            # end of writeVerse
+
             haveOpenChapter = haveOpenParagraph = False
             gotVP = None
             C, V = '-1', '-1' # So first/id line starts at -1:0
@@ -6230,6 +6240,7 @@ class BibleWriter( InternalBible ):
                     ignoredMarkers.add( marker )
                 elif marker == 'c':
                     C, V = text, '0'
+                    writeVerse(); verseAttributes = None
                     if haveOpenParagraph:
                         writerObject.writeLineClose ( 'PARAGRAPH' ); haveOpenParagraph = False
                     if haveOpenChapter:
@@ -6248,9 +6259,11 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toHaggaiXML: Missing text for v" ); continue
                     verseNumberString = text.replace('<','').replace('>','').replace('"','') # Used below but remove anything that'll cause a big XML problem later
-                    #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
+                    writeVerse()
+                    verseAttributes = ('vnumber',verseNumberString)
 
                 elif marker in ('p', 'pi1','pi2','pi3','pi4', ):
+                    writeVerse() # Any more text of this verse will go into the next paragraph
                     if haveOpenParagraph:
                         writerObject.writeLineClose ( 'PARAGRAPH' )
                     writerObject.writeLineOpen ( 'PARAGRAPH' )
@@ -6269,14 +6282,16 @@ class BibleWriter( InternalBible ):
                     if self.doExtraChecking: assert text or extras
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Text {!r}".format( text ) )
                     if not text: logger.warning( "toHaggaiXML: Missing text for v~" ); continue
-                    # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
+                    # TODO: We strip out character fields from within the verse — not sure how Haggai handles them yet
+                    text = MLWriter.escape_characters( processedBibleEntry.getCleanText() )
                     if not text: # this is an empty (untranslated) verse
                         text = '- - -' # but we'll put in a filler
-                    writerObject.writeLineOpenClose ( 'VERSE', text, ('vnumber',verseNumberString) )
+                    verseText += f'{" " if verseText else ""}{text}'
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
-                    # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
-                    if text: writerObject.writeLineOpenClose ( 'VERSE', text )
+                    # TODO: We strip out character fields from within the verse — not sure how Haggai handles them yet
+                    text = MLWriter.escape_characters( processedBibleEntry.getCleanText() )
+                    if text: verseText += f'{" " if verseText else ""}{text}'
                 else:
                     if text:
                         logger.error( "toHaggai: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
@@ -6287,6 +6302,7 @@ class BibleWriter( InternalBible ):
                     unhandledMarkers.add( marker )
                 if extras and marker not in ('v~','p~',) and marker not in ignoredMarkers:
                     logger.critical( "toHaggai: extras not handled for {} at {} {}:{}".format( marker, BBB, C, V ) )
+            writeVerse()
             if haveOpenParagraph:
                 writerObject.writeLineClose ( 'PARAGRAPH' )
             if haveOpenChapter:
-- 
2.43.0


From 4ec63cd4dcc98b4edad1f826bb5dc6df58b94b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 131/217] fix: paragraphs other than p (e.g., poetry) made USFX
 exports not well-formed

---
 BibleOrgSys/BibleWriter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e84f27b..7218a4e 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4684,7 +4684,7 @@ class BibleWriter( InternalBible ):
                     if haveOpenPara: # This should never happen coz the ID line should have been the first line in the file
                         logger.error( "toUSFXXML: Book {}{} has a id line inside an open paragraph: {!r}".format( BBB, " ({})".format(USFXAbbrev) if USFXAbbrev!=BBB else '', adjText ) )
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     adjTxLen = len( adjText )
                     if adjTxLen<3 or (adjTxLen>3 and adjText[3]!=' '): # Doesn't seem to have a standard BBB at the beginning of the ID line
@@ -4698,7 +4698,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'c':
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, 'C', repr(text), repr(adjText) )
                     C, V = text, '0' # not adjText!
@@ -4732,7 +4732,7 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'N': # N = never, e.g., b, nb
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     if adjText:
                         logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
@@ -4740,24 +4740,24 @@ class BibleWriter( InternalBible ):
                 elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     if not adjText: xw.writeLineOpen( originalMarker )
                     else:
                         xw.writeLineOpenText( originalMarker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                    haveOpenPara = paraJustOpened = True
+                    haveOpenPara, paraJustOpened = originalMarker, True # Remember which field we have to close
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
                     if getMarkerContentType != 'A':
                         logger.debug( "BibleWriter.toUSFXXML: ToProgrammer — should be 'A': {!r} is {!r} Why?".format( marker, getMarkerContentType ) )
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
-                        xw.writeLineClose( 'p' )
+                        xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
                     xw.writeLineOpenClose( marker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
             if haveOpenPara:
                 xw.removeFinalNewline( suppressFollowingIndent=True )
-                xw.writeLineClose( 'p' )
+                xw.writeLineClose( haveOpenPara )
             xw.writeLineClose( 'book' )
         # end of toUSFXXML.writeUSFXBook
 
-- 
2.43.0


From cc3dbef3e71bb8396e187d38e07966bd600e8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:03 +0000
Subject: [PATCH 132/217] fix: notes could make Zefania XML exports not
 well-formed

---
 BibleOrgSys/BibleWriter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7218a4e..390812c 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5869,8 +5869,7 @@ class BibleWriter( InternalBible ):
                             osisRef = BRL.parseToOSIS( adjToken, toZefGlobals['verseRef'] )
                             if osisRef is not None:
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  osisRef = {}".format( osisRef ) )
-                                if not ZefXref: ZefXref = '<XREF '
-                                ZefXref += 'vref="{}">'.format( V )
+                                if not ZefXref: ZefXref = '<XREF vref="{}">'.format( V )
 # Temp disabled
 #                                if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
 #                                    logger.error( _("toZefania: Cross-reference at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
@@ -5890,6 +5889,7 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.critical( _("toZefania: Unprocessed {!r} token in {} xref {!r}").format( token, toZefGlobals['verseRef'], USFMxref ) )
+                    if not ZefXref: ZefXref = '<XREF>'
                     ZefXref += '</XREF>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, ' ZefXref gave {!r} from {!r}'.format( ZefXref, USFMxref ) )
                     if self.doExtraChecking:
@@ -5925,9 +5925,8 @@ class BibleWriter( InternalBible ):
                                 if not ZefFootnote: ZefFootnote = '<NOTE>'
                                 ZefFootnote += adjToken
                             else:
-                                if not ZefFootnote: ZefFootnote = '<NOTE '
                                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(osisRef), repr(token[3:]) )
-                                ZefFootnote += 'ref="{}">'.format( osisRef.replace('.',',') )
+                                if not ZefFootnote: ZefFootnote = '<NOTE ref="{}">'.format( osisRef.replace('.',',') )
 # Temp disabled
 #                                if not BRL.containsReference( BBB, currentChapterNumberString, verseNumberString ):
 #                                    logger.error( _("toZefania: Footnote at {} {}:{} seems to contain the wrong self-reference anchor {!r}").format(BBB,currentChapterNumberString,verseNumberString, token[3:].rstrip()) )
@@ -5944,7 +5943,9 @@ class BibleWriter( InternalBible ):
                             pass # We're being lazy here and not checking closing markers properly
                         else:
                             logger.error( _("toZefania: Unprocessed {!r} token in {} footnote {!r}").format(token, toZefGlobals['verseRef'], USFMfootnote) )
+                            if not ZefFootnote: ZefFootnote = '<NOTE>'
                             ZefFootnote += token # put it in (including the markers)
+                    if not ZefFootnote: ZefFootnote = '<NOTE>'
                     ZefFootnote += '</NOTE>'
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, ' ZefFootnote', repr(ZefFootnote) )
                     #if currentChapterNumberString=='5' and verseNumberString=='29': halt
-- 
2.43.0


From 19b92ba52f01b0a4e5e859d92abf5fd99ba5a200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 133/217] fix: character markers without an equivalent were
 left as codes in the text of OSIS and Zefania XML exports

---
 BibleOrgSys/BibleWriter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 390812c..52541a8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5041,6 +5041,7 @@ class BibleWriter( InternalBible ):
                         adjText = adjText[:ix1] + adjText[ix2+5:] # Remove the \\fig..\\fig* field
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "now {!r}".format( adjText ) )
                         logger.warning( _("toOSIS: Figure reference removed for OSIS generation in {}: {!r} field").format( toOSISGlobals['verseRef'], marker ) )
+                if checkLeftovers: adjText = re.sub( r'\\\+?[a-z]+[1-9]?(\*| |$)', '', adjText ) # Remove any other character markers
                 if checkLeftovers and '\\' in adjText:
                     logger.error( _("toOSIS: We still have some unprocessed backslashes for OSIS in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("toOSIS: We still have some unprocessed backslashes for OSIS in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
@@ -5797,6 +5798,7 @@ class BibleWriter( InternalBible ):
                         adjText = adjText[:ix1] + adjText[ix2+5:] # Remove the \\fig..\\fig* field
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "now {!r}".format( adjText ) )
                         logger.warning( _("toZefania: Figure reference removed for Zefania generation in {}: {!r} field").format( toZefGlobals['verseRef'], marker ) )
+                if checkLeftovers: adjText = re.sub( r'\\\+?[a-z]+[1-9]?(\*| |$)', '', adjText ) # Remove any other character markers
                 if checkLeftovers and '\\' in adjText:
                     logger.error( _("toZefania: We still have some unprocessed backslashes for Zefania in {}: {!r} field is {!r}").format( toZefGlobals['verseRef'], marker, textToCheck ) )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("toZefania: We still have some unprocessed backslashes for Zefania in {}: {!r} field is {!r}").format( toZefGlobals['verseRef'], marker, textToCheck ) )
@@ -6073,7 +6075,7 @@ class BibleWriter( InternalBible ):
                         text = '- - -' # but we'll put in a filler
                     else:
                         text = processZefXRefsAndFootnotes( text, extras )
-                        text = checkZefaniaText( text, checkLeftovers=self.doExtraChecking )
+                        text = checkZefaniaText( text )
                         #if self.doExtraChecking:
                             #if '\\' in text: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toZefaniaX: {} {}:{} {!r}".format( BBB,C,V, text ) )
                             #assert '\\' not in text
@@ -6081,7 +6083,7 @@ class BibleWriter( InternalBible ):
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     text = processZefXRefsAndFootnotes( text, extras )
-                    text = checkZefaniaText( text, checkLeftovers=self.doExtraChecking )
+                    text = checkZefaniaText( text )
                     #if self.doExtraChecking:
                         #if '\\' in text: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toZefaniaY: {} {}:{} {!r}".format( BBB,C,V, text ) )
                         #assert '\\' not in text
-- 
2.43.0


From 39e8a691dbef2a856b816832e1a7890795897cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 134/217] fix: nested character markers were left as backslash
 codes in USFX exports

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 52541a8..831f636 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4427,6 +4427,8 @@ class BibleWriter( InternalBible ):
                             adjText = adjText.replace( 'CLOSED_BIT', '' ) # Fix up closed bit since it was specifically closed
                             adjText = adjText.replace( endCharMarker, '</char>' )
                             haveOpenChar = False
+                    # Nested markers always have to be explicitly closed
+                    adjText = adjText.replace( f'\\+{charMarker} ', f'<char style="{charMarker}">' ).replace( f'\\+{charMarker}*', '</char>' )
                 if haveOpenChar:
                     adjText = adjText.replace( 'CLOSED_BIT', ' closed="false"' ) # Fix up closed bit since it wasn't closed
                     adjText += '{}</char>'.format( '' if adjText[-1]==' ' else ' ')
-- 
2.43.0


From e1de03fdd71c185e666753a88e4f3d7f88dcdf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 135/217] fix: poetry made OSIS exports not well-formed

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 831f636..65d102b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5311,9 +5311,10 @@ class BibleWriter( InternalBible ):
             # end of toOSISXML.closeAnyOpenParagraph
 
             def closeAnyOpenLG():
-                """ Close a <lg> if it's open. """
+                """ Close a <lg> (and any <l> inside it) if it's open. """
                 nonlocal haveOpenLG
                 if haveOpenLG:
+                    closeAnyOpenL()
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "closeAnyOpenLG", toOSISGlobals['verseRef'] )
                     writerObject.writeLineClose( 'lg' )
                     haveOpenLG = False
-- 
2.43.0


From f928e866cfc852bafcee0bf2c7a29d9189f45a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 136/217] fix: introduction paragraphs after an outline made
 OSIS exports not well-formed

---
 BibleOrgSys/BibleWriter.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 65d102b..636c7c1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5294,6 +5294,15 @@ class BibleWriter( InternalBible ):
                     haveOpenSection = False
             # end of toOSISXML.closeAnyOpenSection
 
+            def closeAnyOpenOutline():
+                """ Close an introduction outline <list> and <div> if they're open. """
+                nonlocal haveOpenOutline
+                if haveOpenOutline:
+                    writerObject.writeLineClose( 'list' )
+                    writerObject.writeLineClose( 'div' )
+                    haveOpenOutline = False
+            # end of toOSISXML.closeAnyOpenOutline
+
             def closeAnyOpenSubsection():
                 """ Close a <div> if it's open. """
                 nonlocal haveOpenSubsection
@@ -5368,6 +5377,8 @@ class BibleWriter( InternalBible ):
                     if not haveOpenIntro:
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
+                    closeAnyOpenOutline()
+                    closeAnyOpenParagraph()
                     if text: writerObject.writeLineOpenClose( 'title', checkOSISText(text),('level',marker[-1]) ) # Introduction heading
                     logger.error( _("toOSIS: {} Have a blank {} field—ignoring it").format( toOSISGlobals['verseRef'], marker ) )
                 elif marker=='ip':
@@ -5375,6 +5386,7 @@ class BibleWriter( InternalBible ):
                         logger.error( _("toOSIS: {} Have an ip not in an introduction section—ignoring it").format( toOSISGlobals['verseRef'] ) )
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
+                    closeAnyOpenOutline()
                     closeAnyOpenParagraph()
                     writerObject.writeLineOpenText( 'p', checkOSISText(text), noTextCheck=True ) # Sometimes there's text
                     haveOpenParagraph = True
@@ -5384,6 +5396,7 @@ class BibleWriter( InternalBible ):
                         writerObject.writeLineOpen( 'div', [('type',"introduction"),('canonical',"false")] )
                         haveOpenIntro = True
                     if haveOpenSection or haveOpenOutline: logger.error( "toOSIS: Not handled yet iot in {} hOS={} hOO={}".format(BBB,haveOpenSection,haveOpenOutline) )
+                    closeAnyOpenOutline()
                     closeAnyOpenParagraph()
                     writerObject.writeLineOpen( 'div', ('type',"outline") )
                     if text: writerObject.writeLineOpenClose( 'title', checkOSISText(text) )
@@ -5408,9 +5421,7 @@ class BibleWriter( InternalBible ):
                         haveOpenVsID = False
                     if haveOpenOutline:
                         if text!='1' and not text.startswith('1 '): logger.error( _("toOSIS: {} This should normally be chapter 1 to close the introduction (got {!r})").format( toOSISGlobals['verseRef'], text ) )
-                        writerObject.writeLineClose( 'list' )
-                        writerObject.writeLineClose( 'div' )
-                        haveOpenOutline = False
+                        closeAnyOpenOutline()
                     if haveOpenIntro:
                         if text!='1' and not text.startswith('1 '): logger.error( _("toOSIS: {} This should normally be chapter 1 to close the introduction (got {!r})").format( toOSISGlobals['verseRef'], text ) )
                         closeAnyOpenParagraph()
-- 
2.43.0


From 4ef192dad90164adca2dc5227f5c6814f503211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 137/217] fix: a cl line before the first chapter made USFX
 exports not well-formed

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 636c7c1..a1f2e2f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4756,7 +4756,7 @@ class BibleWriter( InternalBible ):
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( haveOpenPara )
                         haveOpenPara = False
-                    xw.writeLineOpenClose( marker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
+                    xw.writeLineOpenClose( marker.replace('¤',''), handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
             if haveOpenPara:
                 xw.removeFinalNewline( suppressFollowingIndent=True )
                 xw.writeLineClose( haveOpenPara )
-- 
2.43.0


From 0723802beb556ae458472e18aabcbb639c684adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:56 +0000
Subject: [PATCH 138/217] fix: a book name with special characters made
 OpenSong exports not well-formed

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 5c14172..4b7847b 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -246,7 +246,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             logging.warning( "toOpenSong: Can't write {} OpenSong book because no OSIS code available".format( BBB ) )
             unhandledBooks.append( BBB )
             return
-        writerObject.writeLineOpen( 'b', ('n',bkData.getAssumedBookNames()[0]) )
+        writerObject.writeLineOpen( 'b', ('n',MLWriter.escape_characters( bkData.getAssumedBookNames()[0] )) )
         haveOpenChapter, startedFlag, gotVP, accumulator = False, False, None, ""
         C, V = '-1', '-1' # So first/id line starts at -1:0
         for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
-- 
2.43.0


From 0ec6ae1e3f86b5d2cd9b5215f0c4b129890939b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 139/217] fix: write versification tables that are valid Python

---
 .../Converters/BibleVersificationSystemsConverter.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
index 6b94d45..7a60e1c 100755
--- a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
@@ -451,15 +451,15 @@ class BibleVersificationSystemsConverter:
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['CV'], systemName, "BBB referenceAbbreviation", "tuples containing (\"numChapters\", numChapters) then (chapterNumber, numVerses)" )
             myFile.write( "}} # end of chapterVerseDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "omittedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are omittedVersesSystem\n" )
+            myFile.write( "omittedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are omittedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['omitted'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of omittedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "combinedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are combinedVersesSystem\n" )
+            myFile.write( "combinedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are combinedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['combined'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of combinedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-            myFile.write( "reorderedVersesDict = {{\n  # Key is versificationSystemName\n  # Fields are reorderedVersesSystem\n" )
+            myFile.write( "reorderedVersesDict = {\n  # Key is versificationSystemName\n  # Fields are reorderedVersesSystem\n" )
             for systemName in versificationSystemDict:
                 exportPythonDict( myFile, versificationSystemDict[systemName]['reordered'], systemName, "BBB referenceAbbreviation", "tuples containing (chapterNumber, omittedVerseNumber)" )
             myFile.write( "}} # end of reorderedVersesDict ({} systems)\n\n".format( len(versificationSystemDict) ) )
-- 
2.43.0


From 343ad1a89a0564e34e8033b4517da23a4ed1e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 140/217] fix: marker tables exported to Python made every list
 a tuple and failed on an empty one

---
 BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py | 5 +++--
 BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
index a442c7e..f4b7374 100755
--- a/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM2MarkersConverter.py
@@ -376,6 +376,7 @@ class USFM2MarkersConverter:
         def exportPythonDict( theFile, theDict, dictName, keyComment, fieldsComment ):
             """Exports theDict to theFile."""
             assert isinstance( theDict, dict )
+            fieldsCount = 1
             for dictKey in theDict.keys(): # Have to iterate this :(
                 fieldsCount = len( theDict[dictKey] ) if isinstance( theDict[dictKey], (tuple,dict,list) ) else 1
                 break # We only check the first (random) entry we get
@@ -400,11 +401,11 @@ class USFM2MarkersConverter:
         def exportPythonList( theFile, theList, listName, dummy, fieldsComment ):
             """Exports theList to theFile."""
             assert isinstance( theList, list )
-            fieldsCount = len( theList[0] ) if isinstance( theList[0], (tuple,dict,list) ) else 1
+            fieldsCount = len( theList[0] ) if theList and isinstance( theList[0], (tuple,dict,list) ) else 1
             theFile.write( '{} = [\n    # Fields ({}) are: {}\n'.format( listName, fieldsCount, fieldsComment ) )
             for j,entry in enumerate(theList):
                 theFile.write( '  {}, # {}\n'.format( repr(entry), j ) )
-            theFile.write( "], # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
+            theFile.write( "] # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
         # end of exportPythonList
 
         assert len(self._XMLTree)
diff --git a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
index 232f060..c8ac4cc 100755
--- a/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
+++ b/BibleOrgSys/Reference/Converters/USFM3MarkersConverter.py
@@ -392,6 +392,7 @@ class USFM3MarkersConverter:
         def exportPythonDict( theFile, theDict, dictName, keyComment, fieldsComment ):
             """Exports theDict to theFile."""
             assert isinstance( theDict, dict )
+            fieldsCount = 1
             for dictKey in theDict.keys(): # Have to iterate this :(
                 fieldsCount = len( theDict[dictKey] ) if isinstance( theDict[dictKey], (tuple,dict,list) ) else 1
                 break # We only check the first (random) entry we get
@@ -416,11 +417,11 @@ class USFM3MarkersConverter:
         def exportPythonList( theFile, theList, listName, dummy, fieldsComment ):
             """Exports theList to theFile."""
             assert isinstance( theList, list )
-            fieldsCount = len( theList[0] ) if isinstance( theList[0], (tuple,dict,list) ) else 1
+            fieldsCount = len( theList[0] ) if theList and isinstance( theList[0], (tuple,dict,list) ) else 1
             theFile.write( '{} = [\n    # Fields ({}) are: {}\n'.format( listName, fieldsCount, fieldsComment ) )
             for j,entry in enumerate(theList):
                 theFile.write( '  {}, # {}\n'.format( repr(entry), j ) )
-            theFile.write( "], # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
+            theFile.write( "] # end of {} ({} entries)\n\n".format( listName, len(theList) ) )
         # end of exportPythonList
 
         assert len(self._XMLTree)
-- 
2.43.0


From 20aa0958bca73f8f3a594223e37465db2dcb6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 141/217] fix: strict loading of book orders failed if the
 folder had any other file

---
 BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
index 5c0e4ca..1327bdb 100755
--- a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
@@ -136,8 +136,8 @@ class BibleBookOrdersConverter:
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("    Loaded {} books for {}").format( bookCount, bookOrderSystemCode ) )
                     logging.info( _("    Loaded {} books for {}").format( bookCount, bookOrderSystemCode ) )
 
-                if BibleOrgSysGlobals.strictCheckingFlag:
-                    self.__validateSystem( self._XMLSystems[bookOrderSystemCode]['tree'], bookOrderSystemCode )
+                    if BibleOrgSysGlobals.strictCheckingFlag:
+                        self.__validateSystem( self._XMLSystems[bookOrderSystemCode]['tree'], bookOrderSystemCode )
         else: # The data must have been already loaded
             if XMLFolder is not None and XMLFolder!=self.__XMLFolder: logging.error( _("Bible book order systems are already loaded -- your different folder of {!r} was ignored").format( self.__XMLFolder ) )
         return self
-- 
2.43.0


From 2113e9f58cb5b673b4a10bdb31f53b05e71ed40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 142/217] fix: checking a book with an endnote failed

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 193ef6f..507f740 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4029,7 +4029,7 @@ class InternalBibleBook:
                     adjExtraMarkers = thisExtraMarkers
                     for uninterestingMarker in allAvailableCharacterMarkers: # Remove character formatting markers so we can check the footnote/xref hierarchy
                         while uninterestingMarker in adjExtraMarkers: adjExtraMarkers.remove( uninterestingMarker )
-                    if adjExtraMarkers and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( extraType ):
+                    if extraType in ('fn','en','xr') and adjExtraMarkers and adjExtraMarkers not in BibleOrgSysGlobals.loadedUSFMMarkers.getTypicalNoteSets( 'xr' if extraType=='xr' else 'fn' ):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got", extraType, extraText, thisExtraMarkers )
                         if thisExtraMarkers: noteMarkerErrors.append( lineLocationSpace + _("Unusual {} marker set: {} in {}").format( extraName, thisExtraMarkers, extraText ) )
                         else: noteMarkerErrors.append( lineLocationSpace + _("Missing {} formatting in {}").format( extraName, extraText ) )
-- 
2.43.0


From 939e0bad397686d05a47cabb4b8301d5b93bda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 143/217] fix: getAddedUnits failed for a chapter marker
 without a number

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 507f740..9e654b2 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3408,9 +3408,9 @@ class InternalBibleBook:
             marker, text = entry.getMarker(), entry.getText()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "InternalBibleBook.getAddedUnits", chapterNumberStr, verseNumberStr, marker, cleanText )
             if marker == 'c':
-                chapterNumberStr = text.split( None, 1 )[0]
+                if text: chapterNumberStr = text.split( None, 1 )[0]
                 verseNumberStr = '0'
-            elif marker == 'cp':
+            elif marker == 'cp' and text:
                 cpChapterText = text.split( None, 1 )[0]
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, "In {}, chapter text went from {!r} to {!r} with cp marker".format( self.BBB, chapterNumberStr, cpChapterText ) )
                 chapterNumberStr = cpChapterText
-- 
2.43.0


From 4cb9571a58abcd0793d287c62514426b7c86061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 144/217] fix: checking a book which starts with an unusual
 marker failed

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 9e654b2..48bd4fd 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3762,7 +3762,9 @@ class InternalBibleBook:
 
             # Check the progression through the various sections
             try: newSection = BibleOrgSysGlobals.loadedUSFMMarkers.markerOccursIn( marker if marker!='v~' else 'v' )
-            except KeyError: logging.error( "IBB:doCheckSFMs: markerOccursIn failed for {!r}".format( marker ) )
+            except KeyError:
+                logging.error( "IBB:doCheckSFMs: markerOccursIn failed for {!r}".format( marker ) )
+                newSection = section # Assume that we're still in the same section
             if newSection != section: # Check changes into new sections
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} {}:{} {} takes us from {} to {}".format( self.BBB, C, V, marker, section, newSection ) )
 
-- 
2.43.0


From 4e5ae0b19eb37f516f96666604f3caf8ce7b7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 145/217] fix: loading failed if a book started with a
 published verse number

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 48bd4fd..6fb5d7c 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1127,7 +1127,7 @@ class InternalBibleBook:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert originalMarker in ('v~','p~') # Shouldn't occur in other fields
                 vEntry = self._processedLines.pop() # because the v field has already been written
                 self._processedLines.append( InternalBibleEntry('vp#', 'vp', cleanedNote, cleanedNote, None, cleanedNote) )
-                self._processedLines.append( vEntry ) # Put the original v entry back afterwards
+                if vEntry is not None: self._processedLines.append( vEntry ) # Put the original v entry back afterwards
         else: _processLineFix_main_loop_counter_is_too_small
 
         #if extras: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Fix gave {!r} and {!r}".format( adjText, extras ) )
-- 
2.43.0


From 9e967a131d1184a92e7042bf1d18653715053303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:06 +0000
Subject: [PATCH 146/217] fix: loading failed if a file started with a note
 marker

---
 BibleOrgSys/Formats/USFMBibleBook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index 5fbf21d..80f9e66 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -602,8 +602,9 @@ class USFMBibleBook( BibleBook ):
                     loadErrors.append( _("{} {}:{} Found '\\{}' note marker at beginning of line (with no text)").format( self.BBB, C, V, marker ) )
                     logging.warning( _("Found '\\{}' note marker after {} {}:{} at beginning of line (with no text)").format( marker, self.BBB, C, V ) )
                 self.addPriorityError( 26, C, V, _("Found \\{} note marker on new line in file").format( marker ) )
-                if not lastText.endswith(' ') and marker!='f': lastText += ' ' # Not always good to add a space, but it's their fault! Don't do it for footnotes, though.
-                lastText +=  '\\' + marker + ' ' + text
+                if lastMarker: # else this is the first line of the file
+                    if not lastText.endswith(' ') and marker!='f': lastText += ' ' # Not always good to add a space, but it's their fault! Don't do it for footnotes, though.
+                    lastText +=  '\\' + marker + ' ' + text
                 dPrint( 'Never', DEBUGGING_THIS_MODULE, f"{self.BBB} {C} {V} Appended2 {marker}='{text}' to get combined line {lastMarker}='{lastText}'" )
             else: # the line begins with an unknown marker
                 # if lastMarker:
-- 
2.43.0


From fa8e542bca613395c8fbd32cfc5a76269a1d7fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 147/217] fix: checking a book without a proper first chapter
 number failed

---
 BibleOrgSys/Internals/InternalBibleBook.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 6fb5d7c..1d376ab 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2809,7 +2809,7 @@ class InternalBibleBook:
                 else:
                     validationErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Missing verse number").format( self.BBB, C, V ) )
                     logging.error( _("Missing verse number after") + " {} {}:{}".format( self.BBB, C, V ) )
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             # Temporarily substitute some markers just to make this check go easier
             if marker == 'c~': marker = 'v'
@@ -3702,7 +3702,7 @@ class InternalBibleBook:
             elif marker=='v' and text:
                 V = text.split()[0]
                 functionalCounts['Verses'] = 1 if 'Verses' not in functionalCounts else (functionalCounts['Verses'] + 1)
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
@@ -4209,7 +4209,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V= text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
@@ -4295,7 +4295,7 @@ class InternalBibleBook:
             elif marker=='v':
                 if text: V = text.split()[0]
                 continue # v fields contain no quote signs and don't affect formatting blocks
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = f'{self.BBB}_{C}:{V}'
             lineLocationSpace = f'{lineLocation} '
@@ -4577,7 +4577,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V = text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
@@ -4636,7 +4636,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V = text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             if marker == 'id': IDList.append( "{} '{}'".format( self.BBB, text ) )
             elif marker == 'ide': encodingList.append( "{} '{}'".format( self.BBB, text ) )
@@ -4664,7 +4664,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V = text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
@@ -4745,7 +4745,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V = text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
@@ -4830,7 +4830,7 @@ class InternalBibleBook:
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text: C, V = text.split()[0], '0'
             elif marker=='v' and text: V = text.split()[0]
-            elif C == '-1' and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
 
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
-- 
2.43.0


From 0efa1faf6c8e4db85e8b6564294db7eb413b58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 148/217] fix: loading failed for a verse marker without a
 number before the first chapter

---
 BibleOrgSys/Internals/InternalBibleBook.py    | 2 +-
 BibleOrgSys/Internals/InternalBibleIndexes.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 1d376ab..2a65d15 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -1626,7 +1626,7 @@ class InternalBibleBook:
             try: nextNextMarker = self._processedLines[j+2].getMarker()
             except IndexError: nextNextMarker = None
 
-            if C=='-1': V = int(V) + 1 # Count intro lines -- first/id line will be -1:0
+            if C=='-1': V = str( int(V) + 1 ) if V.lstrip('-').isdecimal() else '0' # Count intro lines -- first/id line will be -1:0
 
             vPrint( 'Never', DEBUGGING_THIS_MODULE, f"InternalBibleBook.processLines._addNestingMarkers: {j:4} {self.BBB}_{C}:{V} {marker}({markerContentType})={text!r} then {nextMarker} now have {openMarkers}" )
             assert openMarkers.count(marker) < 2, f"Shouldn't ever have more than one '{marker}': {openMarkers=} @ {self.BBB}_{C}:{V} {j}"
diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 9fea6d6..74c15c7 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -603,9 +603,8 @@ class InternalBibleBookCVIndex:
                     saveCV, saveJ = (strC,strV,), j
                     indexEntryLineCount += 1
 
-                elif marker == 'v': # This bit of indexing code is quite complex!
+                elif marker == 'v' and strC != '-1': # This bit of indexing code is quite complex! (We should be in a chapter by now.)
                     vPrint( 'Never', DEBUGGING_THIS_MODULE, "    Handle v {}".format( entry.getCleanText() ) )
-                    assert strC != '-1' # Should be in a chapter by now
 
                     # Go back and look what we passed that might actually belong with this verse
                     #   e.g., section headings, new paragraphs, etc.
-- 
2.43.0


From 41866e33eb07a0fcff673e75cb9c1f1c60e77abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 149/217] fix: checking speech marks failed for a line which is
 a single space

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 2a65d15..7a90daa 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4316,7 +4316,7 @@ class InternalBibleBook:
             if cleanText[0] in BibleOrgSysGlobals.OPENING_SPEECH_CHARACTERS:
                 startsWithOpen = True
                 openQuoteIndex = BibleOrgSysGlobals.OPENING_SPEECH_CHARACTERS.index( cleanText[0] )
-            elif cleanText[0]==' ' and cleanText[1] in BibleOrgSysGlobals.OPENING_SPEECH_CHARACTERS: # This can occur after a leading xref with an extra space after it
+            elif cleanText[0]==' ' and len(cleanText)>1 and cleanText[1] in BibleOrgSysGlobals.OPENING_SPEECH_CHARACTERS: # This can occur after a leading xref with an extra space after it
                 startsWithOpen = True
                 openQuoteIndex = BibleOrgSysGlobals.OPENING_SPEECH_CHARACTERS.index( cleanText[1] )
 
-- 
2.43.0


From 1fcca7f19cf482efa6db92e48b0090c6a2e89575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 150/217] fix: searching a folder for USFM files failed for an
 empty id line

---
 BibleOrgSys/InputOutput/USFMFilenames.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index b9db778..b893602 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -284,6 +284,7 @@ class USFMFilenames:
                         if len(line)<5: logging.warning( "id line {!r} in {} is too short".format( line, filepath ) )
                         idContent = line[4:]
                         tokens = idContent.split()
+                        if not tokens: break # there's no book code there
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Have id tokens: {}".format( tokens ) )
                         UCToken0 = tokens[0].upper()
                         if UCToken0=='I': UCToken0 = '1'
-- 
2.43.0


From a222e9e81ff5cdcd74509ea2a18ddf77deca4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 151/217] fix: loading failed for a malformed figure

---
 .../Internals/InternalBibleInternals.py       | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleInternals.py b/BibleOrgSys/Internals/InternalBibleInternals.py
index 15423c4..3902e42 100755
--- a/BibleOrgSys/Internals/InternalBibleInternals.py
+++ b/BibleOrgSys/Internals/InternalBibleInternals.py
@@ -326,9 +326,6 @@ def parseFigureAttributes( workName, BBB:str, C:str, V:str, figureAttributeStrin
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} char={!r} state={} name={!r} value={!r} quote={!r}".format( j, char, state, name, value, quote ) )
             if state == 0: # Ready to get attribute name
                 if not char.isspace():
-                    if name:
-                        assert value
-                        resultDict[name] = value
                     name = char
                     value = quote = ''
                     state = 1
@@ -336,8 +333,9 @@ def parseFigureAttributes( workName, BBB:str, C:str, V:str, figureAttributeStrin
                 if char.isalpha():
                     name += char
                 elif char == '=':
-                    assert name in figureAttributeNames3
-                    name = betterAttributeNames3[figureAttributeNames3.index( name )] # Convert to better names
+                    if name in figureAttributeNames3:
+                        name = betterAttributeNames3[figureAttributeNames3.index( name )] # Convert to better names
+                    else: logging.warning( f"parseFigureAttributes: unexpected {name!r} attribute at {workName} {BBB}_{C}:{V} in {figureAttributeString!r}" )
                     state = 2
             elif state == 2: # Ready to get attribute value
                 if char=='"':
@@ -349,25 +347,22 @@ def parseFigureAttributes( workName, BBB:str, C:str, V:str, figureAttributeStrin
             elif state == 3: # Getting attribute value -- stop at matching quote or space
                 if char == quote \
                 or ( quote==' ' and char.isspace() ):
-                    assert name
-                    assert value
                     resultDict[name] = value
                     name = value = quote = ''
                     state = 0
                 else:
                     value += char
         if state == 3:
-            assert name
-            assert value
             resultDict[name] = value
-            state = 0
-        assert state == 0
+        elif state != 0:
+            logging.warning( f"parseFigureAttributes: incomplete {name!r} attribute at {workName} {BBB}_{C}:{V} in {figureAttributeString!r}" )
 
     else: # we'll assume USFM2
         resultDict = {'USFM':2}
         bits = figureAttributeString.split( '|' )
-        assert len(bits) <= len(figureAttributeNames2)
-        for j, bit in enumerate( bits ):
+        if len(bits) > len(figureAttributeNames2):
+            logging.warning( f"parseFigureAttributes: too many fields at {workName} {BBB}_{C}:{V} in {figureAttributeString!r}" )
+        for j, bit in enumerate( bits[:len(figureAttributeNames2)] ):
             resultDict[figureAttributeNames2[j]] = bit
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Returning: {}".format( resultDict ) )
-- 
2.43.0


From 9b6e27abd962792bd96716b32904afe29319e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 152/217] fix: getting the versification failed for invalid
 chapter or verse numbers

---
 BibleOrgSys/Internals/InternalBibleBook.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 7a90daa..39fa24d 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3015,7 +3015,12 @@ class InternalBibleBook:
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Unexpected space in USFM chapter number field {!r} after chapter {} of {}").format( chapterText, lastChapterNumber, self.BBB ) )
                     chapterText = chapterText.split( None, 1)[0]
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} chapter {}".format( self.BBB, chapterText ) )
-                chapterNumber = int( chapterText)
+                try: chapterNumber = int( chapterText )
+                except ValueError:
+                    versificationErrors.append( _("{} Invalid USFM chapter number {!r} after chapter {}").format( self.BBB, chapterText, lastChapterNumber ) )
+                    logging.error( _("Invalid USFM chapter number {!r} after chapter {} of {}").format( chapterText, lastChapterNumber, self.BBB ) )
+                    chapterNumber = max( lastChapterNumber, 0 ) + 1 # Our best guess
+                    chapterText = str( chapterNumber )
                 if chapterNumber != lastChapterNumber+1 \
                 and (lastChapterNumber!=-1 or chapterNumber!=1): # It's usual for chapter 1 to follow the introduction (chapter -1) without any chapter 0
                     versificationErrors.append( _("{} ('{}' after '{}') USFM chapter numbers out of sequence in {} Bible book").format( self.BBB, chapterNumber, lastChapterNumber, self.workName ) )
@@ -3122,6 +3127,11 @@ class InternalBibleBook:
                 lastVerseNumberString = endVerseNumberString
                 if not lastVerseNumberString.isdigit():
                     logging.error( f"getVersification value for {self.BBB}_{chapterText} is not an integer: {lastVerseNumberString!r}" )
+                    newString = ''
+                    for char in lastVerseNumberString:
+                        if char.isdigit(): newString += char
+                        else: break
+                    lastVerseNumberString = newString if newString else str( lastVerseNumber )
         assert (chapterText.isdigit() or chapterText=='-1') and lastVerseNumberString.isdigit(), f"getVersification not digits {self.workName} {self.BBB} {chapterText=} {verseText=} {lastVerseNumberString=}"
         versification.append( (chapterText, lastVerseNumberString) ) # Append the verse count for the final chapter
         #if reorderedVerses: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Reordered verses in", self.BBB, "are:", reorderedVerses )
-- 
2.43.0


From fb116bd7e50233591d3a380e9db7d672ea833955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 153/217] fix: getting check results failed for Bibles without
 any words

---
 BibleOrgSys/Internals/InternalBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 25f8d38..f4bc5cd 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1782,7 +1782,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         # Taking those word lists, find uncommon words
         threshold = 4 # i.e., find words used less often that this many times as possible candidates for spelling errors
         uncommonWordCounts = {}
-        if 'Words' in errors['ByBook']['All Books']:
+        if 'Words' in errors['ByBook']['All Books'] and 'Case Insensitive Word Counts' in errors['ByBook']['All Books']['Words']:
             for word, lcCount in errors['ByBook']['All Books']['Words']['Case Insensitive Word Counts'].items():
                 adjWord = word
                 if word not in errors['ByBook']['All Books']['Words']['All Word Counts'] \
-- 
2.43.0


From 6dcafcb765a02f7599431ad48fb7620d65cadaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 154/217] fix: finding a verse failed if the chapter had an
 invalid verse range or list

---
 BibleOrgSys/Internals/InternalBibleIndexes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleIndexes.py b/BibleOrgSys/Internals/InternalBibleIndexes.py
index 74c15c7..a40a1df 100755
--- a/BibleOrgSys/Internals/InternalBibleIndexes.py
+++ b/BibleOrgSys/Internals/InternalBibleIndexes.py
@@ -313,14 +313,17 @@ class InternalBibleBookCVIndex:
                     if '-' in ixV: # must include a verse range
                         # See if our desired verse is within the range
                         dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextA {self.workName} {self.BBB} searching for {CVkey}: have {ixC}:{ixV}")
-                        V1,V2 = ixV.split( '-' )
-                        if getLeadingInt(V1) <= desiredVint <= getLeadingInt(V2):
+                        try: V1,V2 = ( getLeadingInt(bit) for bit in ixV.split( '-', 1 ) )
+                        except ValueError: continue # It's not a valid verse range
+                        if V1 <= desiredVint <= V2:
                             dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextA {self.workName} {self.BBB} found {CVkey} in range {ixC}:{ixV}" )
                             # We found a range that includes the verse we're looking for
                             indexEntries.append( self.__indexData[ixCVkey] )
                     elif ',' in ixV:
                         for ixVx in ixV.split( ',' ):
-                            if desiredVint == int(ixVx):
+                            try: ixVint = getLeadingInt( ixVx.strip() )
+                            except ValueError: continue # It's not a valid verse number
+                            if desiredVint == ixVint:
                                 dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextA {self.workName} {self.BBB} found {CVkey} in list {ixC}:{ixV}" )
                                 # We found a list of verses that includes the verse we're looking for
                                 indexEntries.append( self.__indexData[ixCVkey] )
@@ -363,14 +366,17 @@ class InternalBibleBookCVIndex:
                         if '-' in ixV: # must include a verse range
                             # See if our desired verse is within the range
                             dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextC {self.workName} {self.BBB} searching for {CVkey}: have {ixC}:{ixV}")
-                            V1,V2 = ixV.split( '-' )
-                            if getLeadingInt(V1) <= desiredVint <= getLeadingInt(V2):
+                            try: V1,V2 = ( getLeadingInt(bit) for bit in ixV.split( '-', 1 ) )
+                            except ValueError: continue # It's not a valid verse range
+                            if V1 <= desiredVint <= V2:
                                 dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextC {self.workName} {self.BBB} found {CVkey} in range {ixC}:{ixV}" )
                                 indexEntries.append( self.__indexData[ixCVkey] )
                                 break # we found a range that includes the verse we're looking for
                         elif ',' in ixV:
                             for ixVx in ixV.split( ',' ):
-                                if desiredVint == int(ixVx):
+                                try: ixVint = getLeadingInt( ixVx.strip() )
+                                except ValueError: continue # It's not a valid verse number
+                                if desiredVint == ixVint:
                                     dPrint( 'Info', DEBUGGING_THIS_MODULE, f"getVerseEntriesWithContextC {self.workName} {self.BBB} found {CVkey} in list {ixC}:{ixV}" )
                                     indexEntries.append( self.__indexData[ixCVkey] )
                                     break # we found a list of verses that includes the verse we're looking for
-- 
2.43.0


From 839c870631e64409804976dedfcbb102421debe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:07 +0000
Subject: [PATCH 155/217] fix: searching failed if a chapter or verse number
 was invalid

---
 BibleOrgSys/Internals/InternalBible.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index f4bc5cd..8640115 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2511,6 +2511,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
             for marker in optionsDict['markerList']:
                 ourMarkerList.append( BibleOrgSysGlobals.loadedUSFMMarkers.toStandardMarker( marker ) )
 
+        def makeResultKey( BBB:str, C:str, V:str, ix:int ) -> SimpleVerseKey:
+            """
+            Make the key for a result, even if there's something wrong with the chapter or verse number.
+            """
+            try: return SimpleVerseKey( BBB, C, V, ix )
+            except TypeError: # use the leading digits (if any)
+                return SimpleVerseKey( BBB, (re.match( '[0-9]{1,3}', C ) or '0')[0], (re.match( '[0-9]{1,3}', V ) or '0')[0], ix )
+        # end of makeResultKey helper function
+
         ourFindText = optionsDict['findText']
         # Save the search history (with the 'regex:' text still prefixed if applicable)
         try: optionsDict['findHistoryList'].remove( ourFindText )
@@ -2557,7 +2566,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                     if optionsDict['chapterList'] is None \
                     or C in optionsDict['chapterList'] \
-                    or int(C) in optionsDict['chapterList']:
+                    or C.lstrip('-').isdecimal() and int(C) in optionsDict['chapterList']:
                         #if optionsDict['chapterList'] and V=='0':
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  findText: will search {} chapter {}").format( BBB, C ) )
 
@@ -2606,10 +2615,10 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                                 ixHyphen = V.find( '-' )
                                 if ixHyphen != -1: V = V[:ixHyphen] # Remove verse bridges
-                                resultTuple = (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
+                                resultTuple = (makeResultKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
                                                                     origTextToBeSearched[ix:ixAfter], contextAfter, ) \
                                             if optionsDict['caselessFlag'] else \
-                                                (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
+                                                (makeResultKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
                         else: # not regExp
@@ -2639,10 +2648,10 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                 ixHyphen = V.find( '-' )
                                 if ixHyphen != -1: V = V[:ixHyphen] # Remove verse bridges
                                 #adjMarker = None if marker=='v~' else marker # most markers are v~ -- ignore them (for space)
-                                resultTuple = (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
+                                resultTuple = (makeResultKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
                                                                     origTextToBeSearched[ix:ixAfter], contextAfter, ) \
                                             if optionsDict['caselessFlag'] else \
-                                                (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
+                                                (makeResultKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
 
-- 
2.43.0


From 48e921467df1487b3eab9a39d148f6e0a55f0448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 156/217] fix: a chapter marker without a number made most
 exports fail

---
 BibleOrgSys/Internals/InternalBibleBook.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 39fa24d..78f4849 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2377,6 +2377,12 @@ class InternalBibleBook:
 
 
             # Main code of _processLine -- keep track of where we are
+            if originalMarker=='c' and not text.lstrip()[:1].isdecimal(): # There's no chapter number
+                guessedChapterNumber = str( int(C)+1 ) if C.isdecimal() else '1'
+                fixErrors.append( _("{} {}:{} Missing chapter number -- assumed to be {}").format( self.BBB, C, V, guessedChapterNumber ) )
+                logging.error( "InternalBibleBook._processLine: " + _("Missing chapter number around {} -- assumed to be {}").format( self.__makeErrorRef(C,V), guessedChapterNumber ) )
+                self.addPriorityError( 98, C, V, _("Missing chapter number") )
+                text = f'{guessedChapterNumber} {text.lstrip()}'.rstrip() # Our best guess
             if originalMarker=='c' and text:
                 if haveWaitingC: logging.warning( "Note: Two c markers with no intervening v markers at {} {}:{}".format( self.BBB, C, V ) )
                 #C = text.split()[0]; V = '0'
-- 
2.43.0


From 287ddd959455f8932bbb4fd99e2588f113ae6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:08 +0000
Subject: [PATCH 157/217] fix: BCV export failed for a book with only one
 chapter line and combined it with the first verse otherwise

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 78f4849..15f4e78 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -5370,7 +5370,7 @@ class InternalBibleBook:
                         myFile.write( introLines )
                     introLines = None # Will now cause an error if we try to do more introduction bits -- should only be one intro
                     CVList.append( ('-1',) )
-                elif verseLines:
+                if verseLines:
                     with open( os.path.join( bookFolderpath, self.BBB+'_C'+C+'V'+V+'.txt' ), 'wt', encoding='utf-8' ) as myFile:
                         if BibleOrgSysGlobals.prependBOMFlag:
                             myFile.write( BibleOrgSysGlobals.BOM )
-- 
2.43.0


From 18cf2fbcd340ee975c2b0b9d5fc2f38c8585ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 158/217] fix: exports failed for a verse marker without a
 number before the first chapter

---
 BibleOrgSys/BibleWriter.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index a1f2e2f..2039a62 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                        if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1684,7 +1684,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                        if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2343,7 +2343,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -2691,7 +2691,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                     lastV = V
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
@@ -3297,7 +3297,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4167,7 +4167,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4677,7 +4677,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5360,7 +5360,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6043,7 +6043,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6251,7 +6251,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6852,7 +6852,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7305,7 +7305,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7476,7 +7476,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -8009,7 +8009,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9230,7 +9230,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                    if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9672,7 +9672,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            if C in ('-1','I'): V = str( int(V) + 1 ) # Lines before chapter one are numbered
+                            if C in ('-1','I') and V.lstrip('-').isdecimal(): V = str( int(V) + 1 ) # Lines before chapter one are numbered
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
-- 
2.43.0


From 7ed73ba84e9366f8ed72a6bc4cf2f670aed588b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 159/217] fix: a remark inside a chapter changed the verse
 number in USX3 exports or made the export fail

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 BibleOrgSys/Formats/USXXMLBible.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 4b7847b..ca8045c 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -257,7 +257,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in USFM_PRECHAPTER_MARKERS:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1' and V.lstrip('-').isdecimal(): V = str( int(V) + 1 )
 
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 49ba37a..4d0604c 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -930,7 +930,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1' and V.lstrip('-').isdecimal(): V = str( int(V) + 1 )
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From 1c1c2947e68a06defa3fb30d8b61e3f4b3b04e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 160/217] fix: VPL export failed for a verse before the first
 chapter

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 2039a62..ccb4e96 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1276,6 +1276,7 @@ class BibleWriter( InternalBible ):
                     myFile.write( '; HAS FOOTNOTES\n' )
                     myFile.write( '; HAS REDLETTER\n' )
 
+                    C = V = '-1'
                     gotVP = None
                     haveP = False
                     for entry in internalBibleBookData:
-- 
2.43.0


From ab73033c77dd2b4e32140fe9f7a8afbff6d6f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:35 +0000
Subject: [PATCH 161/217] fix: OSIS export failed for a cross-reference with an
 empty target

---
 BibleOrgSys/BibleWriter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ccb4e96..9775b46 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5110,9 +5110,9 @@ class BibleWriter( InternalBible ):
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
-                            osisRef = BRL.parseToOSIS( xrefText, toOSISGlobals['verseRef'] )
+                            osisRef = BRL.parseToOSIS( xrefText, toOSISGlobals['verseRef'] ) if xrefText else None
                             if osisRef is not None:
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,xrefText+finalPunct)
                         elif lcToken.startswith('x '): # another whole xref entry follows
@@ -5893,7 +5893,7 @@ class BibleWriter( InternalBible ):
                         elif lcToken.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
                             #osisRef = BRL.parseToOSIS( xrefText, toZefGlobals['verseRef'] )
                             if not ZefXref: ZefXref = '<XREF>'
@@ -6643,9 +6643,9 @@ class BibleWriter( InternalBible ):
                         elif token.startswith('xt '): # xref text follows
                             xrefText = token[3:]
                             finalPunct = ''
-                            while xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
+                            while xrefText and xrefText[-1] in ' ,;.': finalPunct = xrefText[-1] + finalPunct; xrefText = xrefText[:-1]
                             #adjString = xrefText[:-6] if xrefText.endswith( ' (LXX)' ) else xrefText # Sorry, this is a crude hack to avoid unnecessary error messages
-                            osisRef = BRL.parseToOSIS( xrefText )
+                            osisRef = BRL.parseToOSIS( xrefText ) if xrefText else None
                             if osisRef is not None:
                                 OSISxref += '<reference type="source" osisRef="{}">{}</reference>'.format(osisRef,xrefText+finalPunct)
                         elif token.startswith('x '): # another whole xref entry follows
-- 
2.43.0


From 1c6395ce18799db319682687c0440b955b4a9d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 162/217] fix: loading failed for a verse bridge with an
 en-dash

---
 BibleOrgSys/Internals/InternalBibleBook.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 15f4e78..6b61002 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -2485,6 +2485,11 @@ class InternalBibleBook:
                 if ixSP == -1: ixSP=LARGE_DUMMY_VALUE
                 if ixBS == -1: ixBS=LARGE_DUMMY_VALUE
                 ix = min( ixSP, ixBS ) # Break at the first space or backslash
+                if '–' in text[:ix]: # that's an en-dash, but the rest of the code expects a hyphen in a verse range
+                    fixErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Replaced en-dash in verse number: {!r}").format( originalText ) )
+                    logging.warning( "InternalBibleBook._processLine: " + _("Replaced en-dash in verse number after {} {}:{} in \\{}: {!r}").format( self.BBB, C, V, originalMarker, originalText ) )
+                    text = text[:ix].replace( '–', '-' ) + text[ix:]
+                    V = V.replace( '–', '-' )
                 if ix<ixSP: # It must have been the backslash first
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_processLine had an unusual case in {} {}:{}: {!r} {!r}".format( self.BBB, C, V, originalMarker, originalText ) )
                     fixErrors.append( '{} {}:{} '.format( self.BBB, C, V ) + _("Unusual field (after verse number): {!r}").format( originalText ) )
-- 
2.43.0


From aa18e9c73afa6a176f5264483531625a35df7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 163/217] fix: USFM export failed for a book which starts with
 a character marker

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9775b46..dfbce1d 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -728,7 +728,7 @@ class BibleWriter( InternalBible ):
                     #if pseudoMarker in ('it','bk','ca','nd',): # Character markers to be closed — had to remove ft and xt from this list for complex footnotes with f fr fq ft fq ft f*
                     if pseudoMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # Character markers to be closed
                         #if (bookUSFM[-2]=='\\' or bookUSFM[-3]=='\\') and bookUSFM[-1]!=' ':
-                        if bookUSFM[-1] != ' ':
+                        if bookUSFM and bookUSFM[-1] != ' ':
                             bookUSFM += ' ' # Separate markers by a space e.g., \p\bk Revelation
                             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSFM2: Added space to {!r} before {!r}".format( bookUSFM[-2], pseudoMarker ) )
                         adjValue += '\\{}*'.format( pseudoMarker ) # Do a close marker
@@ -902,7 +902,7 @@ class BibleWriter( InternalBible ):
                     #if pseudoMarker in ('it','bk','ca','nd',): # Character markers to be closed — had to remove ft and xt from this list for complex footnotes with f fr fq ft fq ft f*
                     if pseudoMarker in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # Character markers to be closed
                         #if (bookUSFM[-2]=='\\' or bookUSFM[-3]=='\\') and bookUSFM[-1]!=' ':
-                        if bookUSFM[-1] != ' ':
+                        if bookUSFM and bookUSFM[-1] != ' ':
                             bookUSFM += ' ' # Separate markers by a space e.g., \p\bk Revelation
                             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toUSFM3: Added space to {!r} before {!r}".format( bookUSFM[-2], pseudoMarker ) )
                         adjValue += '\\{}*'.format( pseudoMarker ) # Do a close marker
-- 
2.43.0


From 40a5b900e77070a3da41e61e413efee4174289e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 164/217] fix: discovering a book failed for a section
 reference which is only a note

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 6b61002..cf22fcb 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3321,7 +3321,7 @@ class InternalBibleBook:
             elif marker=='r' and text:
                 bkDict['haveSectionReferences'] = True
                 bkDict['sectionReferencesCount'] += 1
-                if cleanText[0]=='(' and cleanText[-1]==')': sectionRefParenthCount += 1
+                if cleanText.startswith( '(' ) and cleanText.endswith( ')' ): sectionRefParenthCount += 1
             elif marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                 bkDict['haveParagraphMarkers'] = True
                 if text: bkDict['haveVerseText'] = True
-- 
2.43.0


From 625999eff7f4dcc6302895e758c2a0a397d5ec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 165/217] fix: OpenSong export failed if the first verse marker
 had no number

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index ca8045c..429fb8e 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -247,7 +247,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             unhandledBooks.append( BBB )
             return
         writerObject.writeLineOpen( 'b', ('n',MLWriter.escape_characters( bkData.getAssumedBookNames()[0] )) )
-        haveOpenChapter, startedFlag, gotVP, accumulator = False, False, None, ""
+        haveOpenChapter, startedFlag, gotVP, accumulator, verseNumberString = False, False, None, "", '0'
         C, V = '-1', '-1' # So first/id line starts at -1:0
         for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
             marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getCleanText(), processedBibleEntry.getExtras()
-- 
2.43.0


From c71dc955e4803fb983d8223768d57a15f6520a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 166/217] fix: doubled quotes inside quoted CSV fields were
 kept doubled

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index 3a8112b..23b5941 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -323,7 +323,7 @@ class CSVBible( Bible ):
                     if len(booknameString)>=2 and booknameString[0]==booknameString[-1] and booknameString[0] in '"\'': booknameString = booknameString[1:-1]
                     if len(chapterNumberString)>=2 and chapterNumberString[0]==chapterNumberString[-1] and chapterNumberString[0] in '"\'': chapterNumberString = chapterNumberString[1:-1]
                     if len(verseNumberString)>=2 and verseNumberString[0]==verseNumberString[-1] and verseNumberString[0] in '"\'': verseNumberString = verseNumberString[1:-1]
-                    if len(vText)>=2 and vText[0]==vText[-1] and vText[0] in '"\'': vText = vText[1:-1]
+                    if len(vText)>=2 and vText[0]==vText[-1] and vText[0] in '"\'': vText = vText[1:-1].replace( vText[0]*2, vText[0] ) # Doubled quotes inside a quoted field
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "bString, chapterNumberString, verseNumberString, vText", bString, chapterNumberString, verseNumberString, vText )
 
                 #if not bookCode and not chapterNumberString and not verseNumberString:
-- 
2.43.0


From 589e8bd906ed1f56e4feea78007d40d00167d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:54 +0000
Subject: [PATCH 167/217] fix: OpenSong importer took the white space between
 verses for poetry lines and added 'None' after italics

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 429fb8e..505c08b 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -536,9 +536,9 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location, 'ks03' )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location, 'ks05' )
                     if subelement.tag == 'i':
-                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail )
+                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail if subelement.tail else '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
-                vText += element.tail if element.tail else ''
+                if element.tail and element.tail.strip(): vText += element.tail
                 if not vText:
                     logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vText1', vText )
-- 
2.43.0


From 26cf01c91eb5cdf6f920bc48d08e52fc3b54c6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 168/217] fix: VPL importer put a Psalm title at the end of the
 previous chapter or book

---
 BibleOrgSys/Formats/VPLBible.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 9442dcb..ac3b945 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -386,7 +386,7 @@ class VPLBible( Bible ):
         chapterNumber = verseNumber = 0
         lastChapterNumber = lastVerseNumber = -1
         lastVerseText = ''
-        thisBook = None
+        thisBook = psalmTitle = None
         with open( filepath, 'rt', encoding=self.encoding ) as myFile: # Automatically closes the file when done
             for lineNumber, line in enumerate( myFile, start=1 ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
@@ -519,7 +519,7 @@ class VPLBible( Bible ):
                         if BBB=='PSA' and verseNumberString=='1': # Psalm title
                             vBits = verseText[1:].split( '»' )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "vBits", vBits )
-                            thisBook.addLine( 'd', vBits[0] ) # Psalm title
+                            psalmTitle = vBits[0] # Has to be written after the chapter number
                             verseText = vBits[1].lstrip()
 
                     # Handle the verse info
@@ -749,6 +749,10 @@ class VPLBible( Bible ):
                             else:
                                 logging.warning( _("Ignored duplicated {} verse number in {} {} {} {}:{}").format( verseNumber, self.givenName, BBB, bookCodeText, chapterNumberString, verseNumberString ) )
 
+                        if psalmTitle is not None:
+                            thisBook.addLine( 'd', psalmTitle )
+                            psalmTitle = None
+
                         # Check for paragraph markers
                         if verseText and verseText[0]=='¶':
                             thisBook.addLine( 'p', '' )
-- 
2.43.0


From 5a6a2d5799a6fd63997dd00c3b3285b104bd5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 169/217] fix: VPL importer failed for 1 and 2 Esdras

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index ac3b945..b705b97 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -552,7 +552,7 @@ class VPLBible( Bible ):
                     if bookCodeText != lastBookCodeText: # We've started a new book
                         lastBBB = BBB
                         bnDict = { 67:'TOB', 68:'JDT', 69:'ESG', 70:'WIS', 71:'SIR', 72:'BAR', 73:'LJE', 74:'PAZ', 75:'SUS',
-                                76:'BEL', 77:'MA1', 78:'MA2', 79:'MA3', 80:'MA4', 81:'ES1', 82:'ES2', 83:'MAN', 84:'PS2',
+                                76:'BEL', 77:'MA1', 78:'MA2', 79:'MA3', 80:'MA4', 81:'GES', 82:'LES', 83:'MAN', 84:'PS2',
                                 85:'PSS', 86:'ODE', }
                         if 1 <= bookCodeText <= 66: BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromReferenceNumber( bookCodeText )
                         else: BBB = bnDict[bookCodeText]
-- 
2.43.0


From cdf848909e49045ebdd107eebcae0e41ec9e2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 170/217] fix: VPL importer failed for a continuation line
 starting with a number like 144,000

---
 BibleOrgSys/Formats/VPLBible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index b705b97..02a4fdc 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -672,9 +672,9 @@ class VPLBible( Bible ):
                     elif line and line[0].isdigit():
                         # Probably a new verse (but might not be see '45 beames in fifteene rowes.')
                         blankLineCount = 0
-                        verseNumberString, verseText = line.split( ' ', 1 )
-                        verseNumber = int( verseNumberString )
-                        if verseNumber == lastVerseNumber+1 or lastVerseNumber == -1:
+                        verseNumberString = line.split( ' ', 1 )[0]
+                        verseNumber = int( verseNumberString ) if verseNumberString.isdecimal() else None # might be something like '144,000 men'
+                        if verseNumber is not None and ( verseNumber == lastVerseNumber+1 or lastVerseNumber == -1 ):
                             thisBook.addLine( 'v', line )
                             lastVerseNumber = verseNumber
                         elif thisBook is not None and lastChapterNumber and lastVerseNumber:
-- 
2.43.0


From 364703e7ed1f549c0278c55b54dad1f897b0ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 171/217] fix: VPL importer failed for blank lines in numbered
 VPL files

---
 BibleOrgSys/Formats/VPLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index 02a4fdc..b0add6f 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -392,9 +392,10 @@ class VPLBible( Bible ):
                 line = line.rstrip( '\n\r' ) # Removing trailing newline characters
                 #if not line: continue # Just discard blank lines # NO, needed for vplType 5
                 if lineNumber == 1:
-                    if self.encoding.lower()=='utf-8' and line[0]==BibleOrgSysGlobals.BOM:
+                    if self.encoding.lower()=='utf-8' and line.startswith( BibleOrgSysGlobals.BOM ):
                         logging.info( "      VPLBible.load: Detected Unicode Byte Order Marker (BOM)" )
                         line = line[1:] # Remove the Unicode Byte Order Marker (BOM)
+                if not line and vplType in (2,3): continue # Just discard blank lines
 
                 # Process header stuff
                 if vplType == 3:
-- 
2.43.0


From 506fa341e4a34127e2b3ac1b22a652988b581cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 172/217] fix: VerseView importer gave wrong codes to the books
 of a Bible which does not start with Genesis

---
 BibleOrgSys/Formats/VerseViewXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/VerseViewXMLBible.py b/BibleOrgSys/Formats/VerseViewXMLBible.py
index 3dcd4a4..e0dd991 100755
--- a/BibleOrgSys/Formats/VerseViewXMLBible.py
+++ b/BibleOrgSys/Formats/VerseViewXMLBible.py
@@ -356,8 +356,8 @@ class VerseViewXMLBible( Bible ):
             adjustedBookName = BibleOrgSysGlobals.removeAccents( bookName )
             if adjustedBookName != bookName:
                 BBB = self.genericBOS.getBBBFromText( adjustedBookName )
-        BBB2 = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromReferenceNumber( bookNumber )
-        if BBB2 != BBB: # Just double check using the book number
+        if BBB is None: # Couldn't recognise the name so have to assume that all books are there
+            BBB2 = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromReferenceNumber( bookNumber )
             if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.verbosityLevel > 2:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Assuming that book {} {!r} is {} (not {})".format( bookNumber, bookName, BBB2, BBB ) )
             BBB = BBB2
-- 
2.43.0


From ff458a252f4219c256c1cebc9b363f188029ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 173/217] fix: Zefania importer failed for a verse which starts
 with a style

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 388a62b..a78cc10 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -589,7 +589,7 @@ class ZefaniaXMLBible( Bible ):
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = verse.text
+        vText = verse.text if verse.text else ''
         if vText: vText = vText.strip('\n')
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
-- 
2.43.0


From 64a382deb7d5e1403b770480f027f9a3e6ab77ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:38 +0000
Subject: [PATCH 174/217] fix: YET importer repeated the further lines of a
 verse in its first line

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 8de57e5..b304d39 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -437,7 +437,7 @@ class YETBible( Bible ):
                 bits = verseString.split( '\\\\' ) # Split on paragraph markers (but not character markers)
                 for j,bit in enumerate(bits):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loop", j, repr(bit), repr(verseString) )
-                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + verseString.rstrip() )
+                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + bit.rstrip() )
                     else:
                         if bit[1]==' ': marker, bit = bit[0], bit[2:]
                         elif bit[2]==' ': marker, bit = bit[0:2], bit[3:]
-- 
2.43.0


From db230b7b78c74cba6aa2523dfde1f2dbc7c7d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 175/217] fix: YET importer put the heading at the start of a
 chapter into the previous chapter

---
 BibleOrgSys/Formats/YETBible.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index b304d39..8a67959 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -389,6 +389,10 @@ class YETBible( Bible ):
             thisBook.objectTypeString = 'YET'
             lastChapterNumberString = None
             for (chapterNumberString,verseNumberString), verseString in bkData.items():
+                # Save the Bible data fields
+                if chapterNumberString != lastChapterNumberString:
+                    thisBook.addLine( 'c', chapterNumberString )
+                    lastChapterNumberString = chapterNumberString
                 # Insert headings (can only occur before verses)
                 if (BBB,chapterNumberString,verseNumberString) in headingDict:
                     heading, refList = headingDict[(BBB,chapterNumberString,verseNumberString)]
@@ -422,10 +426,6 @@ class YETBible( Bible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xnote", repr(note) )
                     verseString = verseString[:fIx] + '\\x - \\xt ' + note + '\\x*' + verseString[fIx+4:]
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "xvS", repr(verseString) )
-                # Save the Bible data fields
-                if chapterNumberString != lastChapterNumberString:
-                    thisBook.addLine( 'c', chapterNumberString )
-                    lastChapterNumberString = chapterNumberString
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumberString, verseNumberString, repr(verseString) )
                 if verseString.startswith( '\\\\' ):  # It's an initial paragraph marker
                     if verseString[3]==' ': marker, verseString = verseString[2], verseString[4:]
-- 
2.43.0


From 72d77ec81d5ffc5e1701d407ce0c554636695145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:14 +0000
Subject: [PATCH 176/217] fix: YET importer left fourth-level poetry lines (@4)
 inside the verse line

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 8a67959..1c68b92 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -250,7 +250,7 @@ class YETBible( Bible ):
             # Paragraph markers (marked now with double backslash)
             verseString = verseString.replace( '@^', '\\\\p ' )
             verseString = verseString.replace( '@0', '\\\\m ' )
-            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\q4 ' )
+            verseString = verseString.replace( '@1', '\\\\q1 ' ).replace( '@2', '\\\\q2 ' ).replace( '@3', '\\\\q3 ' ).replace( '@4', '\\\\q4 ' )
             verseString = verseString.replace( '@8', '\\\\m ' )
             # Character markers (marked now with single backslash)
             verseString = verseString.replace( '@6', '\\wj ' ).replace( '@5', '\\wj*' )
-- 
2.43.0


From d011a5ed6d92ecf4ac19e43f21fe62c995b6c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 177/217] fix: Zefania importer lost the notes and put the text
 after them before the verse

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index a78cc10..ae89e53 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -615,7 +615,7 @@ class ZefaniaXMLBible( Bible ):
                         if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
                         nTail = nTail.replace( '\n', ' ' )
-                    thisBook.addLine( 'v~', nTail )
+                vText += f"\\f + \\ft {nText.strip() if nText else ''}"
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
@@ -643,6 +643,7 @@ class ZefaniaXMLBible( Bible ):
                         else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
                         if sTail: vText += sTail.strip('\n')
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( STYLE_TAG, sub2element.tag, sublocation ) )
+                vText += f"\\f*{nTail if nTail else ''}"
 
             elif subelement.tag == STYLE_TAG:
                 sublocation = "style in " + location
-- 
2.43.0


From b9f87b6de973cf2dfd51f96f267571fe85c2eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 178/217] fix: Zefania importer lost the first word of study
 notes

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index ae89e53..8c8a9fe 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -719,7 +719,7 @@ class ZefaniaXMLBible( Bible ):
                         BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'ks27' )
                         BibleOrgSysGlobals.checkXMLNoTail( sub2element, sub2location, 'ksd1' )
                         noteText = sub2element.text.strip('\n') if sub2element.text else ''
-                        vText = f'{vText}\\f {noteText}\\f*'
+                        vText = f'{vText}\\f + \\ft {noteText}\\f*'
                     else: logging.error( "Expected to find 'NOTE' but got {!r} in {}".format( sub2element.tag, sublocation ) )
 
             elif subelement.tag == GR_TAG:
-- 
2.43.0


From f571f9ae8f981e374f019ccb174209b5d684b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 179/217] fix: Zefania importer repeated the verse number after
 a line break, or lost it

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 8c8a9fe..b68bfc1 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -595,6 +595,7 @@ class ZefaniaXMLBible( Bible ):
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
         # Handle verse subelements (notes and styled portions)
+        hadBreak = False
         for subelement in verse:
             if subelement.tag == NOTE_TAG:
                 sublocation = "note in " + location
@@ -695,17 +696,13 @@ class ZefaniaXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    if '\n' in vText:
-                        logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
-                        vText = vText.replace( '\n', ' ' )
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText )
-                    vText = ''
-                breakText = subelement.tail.strip('\n') if subelement.tail else ''
-                if '\n' in breakText:
-                    logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse: newline in breakText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, breakText ) )
-                    breakText = breakText.replace( '\n', ' ' )
-                thisBook.addLine( 'm', breakText )
+                if '\n' in vText:
+                    logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
+                    vText = vText.replace( '\n', ' ' )
+                if hadBreak: thisBook.addLine( 'm', vText )
+                else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
+                hadBreak = True
+                vText = subelement.tail.strip('\n') if subelement.tail else '' # This starts the next line
 
             elif subelement.tag == DIV_TAG:
                 sublocation = "div break in " + location
@@ -742,7 +739,9 @@ class ZefaniaXMLBible( Bible ):
             if '\n' in vText:
                 logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_b: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            if hadBreak: thisBook.addLine( 'm', vText )
+            else: thisBook.addLine( 'v', verseNumber + ' ' + vText )
+        elif hadBreak: thisBook.addLine( 'm', '' )
     # end of ZefaniaXMLBible.__validateAndExtractVerse
 # end of ZefaniaXMLBible class
 
-- 
2.43.0


From b7e53d76f708486d4e63bb652d8de4e9f97931cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 180/217] fix: Haggai importer failed for a verse with a style
 or note after a line break

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..57c4131 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -699,10 +699,9 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
-                if vText:
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
-                    vText = ''
-                thisBook.addLine( 'm', subelement.tail.strip() if subelement.tail else '' )
+                if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText.strip() ); verseNumber = None
+                else: thisBook.addLine( 'm', vText.strip() )
+                vText = subelement.tail if subelement.tail else '' # This starts the next line
                 #bTail = subelement.tail
                 #if bTail: vText = bTail.strip()
             else: logging.error( "Expected to find NOTE or STYLE but got {!r} in {}".format( subelement.tag, location ) )
@@ -711,7 +710,9 @@ class HaggaiXMLBible( Bible ):
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText.strip() ); verseNumber = None
+            else: thisBook.addLine( 'm', vText.strip() )
+        elif verseNumber is None: thisBook.addLine( 'm', '' )
     # end of HaggaiXMLBible.__validateAndExtractVerse
 # end of HaggaiXMLBible class
 
-- 
2.43.0


From 4e29282a51b02130bb0d840b75080abb5e6d464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:43 +0000
Subject: [PATCH 181/217] fix: Haggai importer joined words before and after
 styled words

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index 57c4131..738b065 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -609,7 +609,7 @@ class HaggaiXMLBible( Bible ):
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = '' if verse.text is None else verse.text
-        if vText: vText = vText.strip()
+        if vText: vText = vText.lstrip()
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -685,7 +685,7 @@ class HaggaiXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
                 else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                if sTail: vText += sTail.strip()
+                if sTail: vText += sTail
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
                 sublocation = "line break in " + location
-- 
2.43.0


From d29856a6bc2913ea51f8f46ace8f6c103feda823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:31 +0000
Subject: [PATCH 182/217] fix: Zefania importer lost the text after a study
 note

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index b68bfc1..28c530a 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -708,7 +708,6 @@ class ZefaniaXMLBible( Bible ):
                 sublocation = "div break in " + location
                 BibleOrgSysGlobals.checkXMLNoText( subelement, sublocation, 'ld46' )
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'kx10' )
-                BibleOrgSysGlobals.checkXMLNoTail( subelement, sublocation, 'las9' )
                 for sub2element in subelement:
                     if sub2element.tag == 'NOTE':
                         sub2location = "NOTE in " + sublocation
@@ -718,6 +717,7 @@ class ZefaniaXMLBible( Bible ):
                         noteText = sub2element.text.strip('\n') if sub2element.text else ''
                         vText = f'{vText}\\f + \\ft {noteText}\\f*'
                     else: logging.error( "Expected to find 'NOTE' but got {!r} in {}".format( sub2element.tag, sublocation ) )
+                if subelement.tail: vText += subelement.tail.strip('\n')
 
             elif subelement.tag == GR_TAG:
                 sublocation = "gr in " + location
-- 
2.43.0


From 6cff3661cf5d22cb4a0607d0f2c5862bbef12b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:11 +0000
Subject: [PATCH 183/217] fix: uW alignments included all the words before them
 on their line

---
 BibleOrgSys/Formats/USFMBibleBook.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index 80f9e66..7b235d4 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -256,7 +256,7 @@ class USFMBibleBook( BibleBook ):
                             #dPrint( 'Quiet', debuggingThisFunction, f"        findInternalStarts: Appended punctuation {text[ixAlignmentEnd]} to '{variables['words']}'" )
                             # variables['words'] += text[ixAlignmentEnd+9] # Append the punctuation
                             ixAlignmentEnd += 1 # Account for the punctuation or space
-                        variables['words'] += text[:ixAlignmentEnd] if marker=='INLINE' \
+                        variables['words'] += text[variables['start']:ixAlignmentEnd] if marker=='INLINE' or variables['start'] \
                                                 else f' \\{marker} {text[:ixAlignmentEnd]}'
                         assert variables['words']
                         #dPrint( 'Quiet', debuggingThisFunction, "words1", variables['words'] )
@@ -273,7 +273,7 @@ class USFMBibleBook( BibleBook ):
                         dPrint( 'Never', debuggingThisFunction, f"      Now got rest1 text='{text}'" )
                         continue
                     assert 'zaln-e' not in text[:ixAlignmentStart] # Make sure our nesting isn't confused
-                    ixAlignmentStartEnding = text.find( '\\*' ) # Even start marker should be (self-)closed
+                    ixAlignmentStartEnding = text.find( '\\*', ixAlignmentStart ) # Even start marker should be (self-)closed
                     if ixAlignmentStartEnding == -1: # Wasn't self-closing
                         loadErrors.append( _("{} {}:{} Unclosed '\\{}' Door43 custom alignment marker at beginning of line (with no text)") \
                                         .format( self.BBB, C, V, marker ) )
@@ -282,6 +282,10 @@ class USFMBibleBook( BibleBook ):
                         dPrint( 'Info', debuggingThisFunction, "The above warnings and error messages need fixing!")
                         if debuggingThisFunction or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # Error messages need fixing
                     else: # self-closing was ok
+                        if variables['level'] == 0: # then the aligned words (with any leading punctuation) start here
+                            variables['start'] = ixAlignmentStart
+                            while variables['start'] > 0 and text[variables['start']-1] in BibleOrgSysGlobals.LEADING_WORD_PUNCT_CHARS:
+                                variables['start'] -= 1
                         variables['level'] += 1
                         if variables['level'] > variables['maxLevel']: variables['maxLevel'] = variables['level']
                         if variables['level'] > MAX_EXPECTED_NESTING_LEVELS:
@@ -305,6 +309,7 @@ class USFMBibleBook( BibleBook ):
 
             # handleUWEncoding function main code
             marker, text = givenMarker, givenText
+            variables['start'] = 0 # Any alignment from the previous line continues from the beginning of this one
             if marker == 'zaln-s':
                 assert not variables['text']
                 assert text.startswith('|')
@@ -333,7 +338,7 @@ class USFMBibleBook( BibleBook ):
                         #dPrint( 'Quiet', debuggingThisFunction, f"        findInternalStarts: Appended punctuation {text[ixAlignmentEnd]} to '{variables['words']}'" )
                         # variables['words'] += text[ixAlignmentEnd+9] # Append the punctuation
                         punctCount += 1 # Account for the punctuation or space
-                    variables['words'] += adjustedText[:ixEndMarkers+punctCount] if marker=='INLINE' \
+                    variables['words'] += adjustedText[variables['start']:ixEndMarkers+punctCount] if marker=='INLINE' or variables['start'] \
                                             else f' \\{marker} {adjustedText[:ixEndMarkers+punctCount]}'
                     dPrint( 'Never', debuggingThisFunction, f"{marker}='{text}' GOT1 variables['words']='{variables['words']}'" )
                     assert variables['words']
@@ -353,7 +358,7 @@ class USFMBibleBook( BibleBook ):
                     #dPrint( 'Quiet', debuggingThisFunction, self.wordName, self.BBB, C, V, "words3a", variables['words'] )
                     #dPrint( 'Quiet', debuggingThisFunction, f"{marker}={text}" )
                     if marker == 'INLINE': assert not variables['words']
-                    variables['words'] += text if marker=='INLINE' else f' \\{marker} {text}'
+                    variables['words'] += text[variables['start']:] if marker=='INLINE' or variables['start'] else f' \\{marker} {text}'
                     #dPrint( 'Quiet', debuggingThisFunction, "words3b", variables['words'] )
                     dPrint( 'Never', debuggingThisFunction, f"{marker}='{text}' GOT2 variables['words']='{variables['words']}'" )
                     assert variables['words']
@@ -393,7 +398,7 @@ class USFMBibleBook( BibleBook ):
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, dir(self.containerBibleObject) )
 
         gotUWEncoding = False
-        alignmentVariables = { 'level':0, 'maxLevel':0, 'text':'', 'words':'', 'saved':[] }
+        alignmentVariables = { 'level':0, 'maxLevel':0, 'start':0, 'text':'', 'words':'', 'saved':[] }
         try:
             if self.containerBibleObject.uWencoded:
                 gotUWEncoding = True
-- 
2.43.0


From 7618bf037f25bfd1ef44cc564ce472ce523e47ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 184/217] fix: checking a book did not count the words and
 characters of the verse text

---
 BibleOrgSys/Internals/InternalBibleBook.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index cf22fcb..afcb8b3 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4152,7 +4152,7 @@ class InternalBibleBook:
                 characterErrors.append( lineLocationSpace + _("Trailing space in {!r}").format( adjText ) )
                 self.addPriorityError( 5, C, V, _("Trailing space in text line") )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("Trailing space in {} {!r}").format( marker, adjText ) )
-            if BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
+            if marker in ('v~','p~','c~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted( marker ): # Only do character counts on lines that will be printed
                 for char in adjText:
                     lcChar = char.lower()
 
@@ -4603,7 +4603,7 @@ class InternalBibleBook:
             lineLocation = '{} {}:{}'.format( self.BBB, C, V )
             lineLocationSpace = lineLocation + ' '
 
-            if text and BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker): # process this main text
+            if text and ( marker in ('v~','p~','c~') or BibleOrgSysGlobals.loadedUSFMMarkers.isPrinted(marker) ): # process this main text
                 lastTextWordTuple = countWordsForCheck( marker, cleanText, lastTextWordTuple )
 
             extras = entry.getExtras()
-- 
2.43.0


From 290c1c92b6d42bae05bf8c1fb2483ac3b979dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 185/217] fix: checking a book ignored the character markers
 and notes in the verse text

---
 BibleOrgSys/Internals/InternalBibleBook.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index afcb8b3..c6d198a 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3895,6 +3895,19 @@ class InternalBibleBook:
                             newlineMarkerErrors.append( lineLocationSpace + _("{!r} with text not normally used following {!r} with text").format( marker, lastMarker ) )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, lineLocationSpace + _("{!r} with text not normally used following {!r} with text").format( marker, lastMarker ) )
 
+            lastMarker, lastMarkerEmpty = marker, markerEmpty
+
+        C, V = '-1', '-1' # So first/id line starts at -1:0
+        for entry in self._processedLines: # Now check inside the fields (including the v~ and p~ lines which have most of the text)
+            marker, text, extras = entry.getMarker(), entry.getText(), entry.getExtras()
+            if marker=='c' and text: C, V = text.split()[0], '0'
+            elif marker=='v' and text: V = text.split()[0]
+            elif C == '-1' and V.lstrip('-').isdecimal() and marker not in ('headers','intro'): V = str( int(V) + 1 ) # first/id line will be -1:0
+            lineLocationSpace = f'{self.BBB} {C}:{V} '
+
+            if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('v=','c#','cl¤','vp#'):
+                continue # Just ignore these added markers
+
             getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             if text:
                 # Check the internal SFMs
@@ -4073,7 +4086,6 @@ class InternalBibleBook:
                         functionalCounts['Footnotes'] = 1 if 'Footnotes' not in functionalCounts else (functionalCounts['Footnotes'] + 1)
                     elif extraType == 'xr':
                         functionalCounts['Cross-References'] = 1 if 'Cross-References' not in functionalCounts else (functionalCounts['Cross-References'] + 1)
-            lastMarker, lastMarkerEmpty = marker, markerEmpty
 
 
         # Check the relative ordering of newline markers
-- 
2.43.0


From 238214345726468fdf4b0ffad92ae948e7bda5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 186/217] fix: discovery counted every book as neither Old nor
 New Testament

---
 BibleOrgSys/Internals/InternalBible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 8640115..285df74 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1303,15 +1303,15 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         for BBB in self.discoveryResults:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "discoveryResults for", BBB, len(self.discoveryResults[BBB]), self.discoveryResults[BBB] )
             isOT = isNT = isDC = False
-            if isOT:
+            if BibleOrgSysGlobals.loadedBibleBooksCodes.isOldTestament_NR( BBB ):
                 isOT = True
                 if 'OTBookCount' not in aggregateResults: aggregateResults['OTBookCount'], aggregateResults['OTBookCodes'] = 1, [BBB]
                 else: aggregateResults['OTBookCount'] += 1; aggregateResults['OTBookCodes'].append( BBB )
-            elif isNT:
+            elif BibleOrgSysGlobals.loadedBibleBooksCodes.isNewTestament_NR( BBB ):
                 isNT = True
                 if 'NTBookCount' not in aggregateResults: aggregateResults['NTBookCount'], aggregateResults['NTBookCodes'] = 1, [BBB]
                 else: aggregateResults['NTBookCount'] += 1; aggregateResults['NTBookCodes'].append( BBB )
-            elif isDC:
+            elif BibleOrgSysGlobals.loadedBibleBooksCodes.isDeuterocanon_NR( BBB ):
                 isDC = True
                 if 'DCBookCount' not in aggregateResults: aggregateResults['DCBookCount'], aggregateResults['DCBookCodes'] = 1, [BBB]
                 else: aggregateResults['DCBookCount'] += 1; aggregateResults['DCBookCodes'].append( BBB )
-- 
2.43.0


From f03aeb3d632ec83bf7f56bf26296834c0665a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:49 +0000
Subject: [PATCH 187/217] fix: checking a book counted word and figure
 attributes as words and characters

---
 BibleOrgSys/Internals/InternalBibleBook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index c6d198a..0ea68aa 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4266,7 +4266,7 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ['\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk ',] + BibleOrgSysGlobals.internal_SFMs_to_remove:
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    if cleanExtraText: countCharacters( cleanExtraText )
+                    if cleanExtraText and extraType not in ('fig','ww'): countCharacters( cleanExtraText ) # The attributes aren't printed
 
         # Add up the totals
         if (characterErrors or simpleCharacterCounts or unicodeCharacterCounts or letterCounts or punctuationCounts) and 'Characters' not in self.checkResultsDictionary:
@@ -4635,7 +4635,8 @@ class InternalBibleBook:
                     #    cleanExtraText = cleanExtraText.replace( sign, '' )
                     #for marker in ('\\xo*','\\xo ','\\xt*','\\xt ','\\xdc*','\\xdc ','\\fr*','\\fr ','\\ft*','\\ft ','\\fq*','\\fq ','\\fv*','\\fv ','\\fk*','\\fk '):
                     #    cleanExtraText = cleanExtraText.replace( marker, '' )
-                    countWordsForCheck( extraType, cleanExtraText )
+                    if extraType not in ('fig','ww'): # No useful words in those two extra types
+                        countWordsForCheck( extraType, cleanExtraText )
 
         # Add up the totals
         if (wordErrors or wordCounts or caseInsensitiveWordCounts) and 'Words' not in self.checkResultsDictionary: self.checkResultsDictionary['Words'] = {} # So we hopefully get the errors first
-- 
2.43.0


From 34a997ab06aacbb7d9c74189258ff56136537ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:09 +0000
Subject: [PATCH 188/217] fix: checking a book counted an introduction outline
 title that was not there

---
 BibleOrgSys/Internals/InternalBibleBook.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0ea68aa..0f931b8 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3716,6 +3716,7 @@ class InternalBibleBook:
         for entry in self._processedLines:
             marker, originalMarker, text, extras = entry.getMarker(), entry.getOriginalMarker(), entry.getText(), entry.getExtras()
             markerEmpty = not text
+            isAddedMarker = marker=='iot' and not originalMarker # It's not in the file
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text:
                 C, V = text.split()[0], '0'
@@ -3739,7 +3740,7 @@ class InternalBibleBook:
                 functionalCounts['Section Cross-References'] = 1 if 'Section Cross-References' not in functionalCounts else (functionalCounts['Section Cross-References'] + 1)
 
             # Check for markers that shouldn't be empty
-            if markerEmpty and not extras and ( BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType(marker)=='A' or marker in ('v~','c~','c#') ): # should always have text
+            if markerEmpty and not extras and not isAddedMarker and ( BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType(marker)=='A' or marker in ('v~','c~','c#') ): # should always have text
                 #if self.objectTypeString in ('USFM','USX'):
                     #if self.sahtCount != -1:
                         #self.sahtCount += 1
@@ -3756,7 +3757,7 @@ class InternalBibleBook:
                 if logger is not None:
                     logger( _("Marker {!r} has no content after").format( marker ) + " {} {}:{}".format( self.BBB, C, V ) )
 
-            if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
+            if marker[0] == '¬' or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=' or isAddedMarker:
                 continue # Just ignore these added markers
             elif marker == 'v~':
                 lastMarker, lastMarkerEmpty = 'v', markerEmpty
@@ -4802,7 +4803,7 @@ class InternalBibleBook:
                 elif cleanText[-1] in '.።':
                     introductionErrors.append( lineLocationSpace + _("{} heading ends with a period: {}").format( marker, text ) )
                     self.addPriorityError( 49, C, V, _("Heading ends with a period") )
-            elif marker=='iot':
+            elif marker=='iot' and entry.getOriginalMarker(): # Ignore any that we added ourselves
                 titleList.append( "{} {}:{} '{}'".format( self.BBB, C, V, text ) )
                 if not cleanText:
                     introductionErrors.append( lineLocationSpace + _("Missing outline title text for marker {}").format( marker ) )
-- 
2.43.0


From 84e7946dd7f85b6b0141983f8b000e986d72e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:58 +0000
Subject: [PATCH 189/217] fix: checking a book found repeated words but never
 reported them

---
 BibleOrgSys/Internals/InternalBibleBook.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index 0f931b8..be09e10 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4640,8 +4640,9 @@ class InternalBibleBook:
                         countWordsForCheck( extraType, cleanExtraText )
 
         # Add up the totals
-        if (wordErrors or wordCounts or caseInsensitiveWordCounts) and 'Words' not in self.checkResultsDictionary: self.checkResultsDictionary['Words'] = {} # So we hopefully get the errors first
+        if (wordErrors or repeatedWordErrors or wordCounts or caseInsensitiveWordCounts) and 'Words' not in self.checkResultsDictionary: self.checkResultsDictionary['Words'] = {} # So we hopefully get the errors first
         if wordErrors: self.checkResultsDictionary['Words']['Possible Word Errors'] = wordErrors
+        if repeatedWordErrors: self.checkResultsDictionary['Words']['Possible Repeated Word Errors'] = repeatedWordErrors
         if wordCounts:
             total = 0
             for word in wordCounts: total += wordCounts[word]
-- 
2.43.0


From d142164b71f9842f1c3eb39a757dfcbad429898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:31 +0000
Subject: [PATCH 190/217] fix: the speech marks check missed a paragraph break
 at the start of a chapter

---
 BibleOrgSys/Internals/InternalBibleBook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index be09e10..e933e8f 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -4319,7 +4319,7 @@ class InternalBibleBook:
         for entry in self._processedLines:
             marker, originalMarker, text, cleanText = entry.getMarker(), entry.getOriginalMarker(), entry.getText(), entry.getCleanText()
             if marker[0] == '¬': continue # ignore these added endMarkers here
-            if marker in ('r', ): continue # We don't care about these
+            if marker in ('r','c#','vp#'): continue # We don't care about these
 
             # Keep track of where we are for more helpful error messages
             if marker=='c' and text:
-- 
2.43.0


From 19b9af62fc197d5aaaca7690d2fb682c3cd957ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 191/217] fix: discovery thought a book was finished when its
 last verse had no text

---
 BibleOrgSys/Internals/InternalBibleBook.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Internals/InternalBibleBook.py b/BibleOrgSys/Internals/InternalBibleBook.py
index e933e8f..42752ea 100755
--- a/BibleOrgSys/Internals/InternalBibleBook.py
+++ b/BibleOrgSys/Internals/InternalBibleBook.py
@@ -3368,6 +3368,7 @@ class InternalBibleBook:
             lastMarker = marker
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'wordCount', self.BBB, bkDict['wordCount'] )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'uniqueWordCount', self.BBB, bkDict['uniqueWordCount'] )
+        if lastMarker=='v': bkDict['seemsFinished'] = False # The last verse has no text
         bkDict['uniqueWordCount'] = len( bkDict['allWordCounts'] )
         dPrint( 'Info', DEBUGGING_THIS_MODULE, f"    _discover() for {self.BBB} done word counts." )
 
-- 
2.43.0


From bb37c65fb83dbd18d6f59d0ab087259d6147475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:35 +0000
Subject: [PATCH 192/217] fix: last setting lost from Paratext 7 SSF files
 written on one line

---
 BibleOrgSys/Formats/PTX7Bible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index 5ddf4f8..030a023 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -44,6 +44,7 @@ import sys
 import os
 from pathlib import Path
 import logging
+import re
 import multiprocessing
 from xml.etree.ElementTree import ElementTree
 
@@ -243,9 +244,8 @@ def loadPTX7ProjectData( BibleObject, ssfFilepath, encoding='utf-8' ):
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ssfData", ssfData )
 
     # Handle Paratext 'bug' that produces XML files in different format
-    ssfData = ssfData.replace( '></', '=QwErTy=' ) # Protect a blank field like in "<CallerSequence></CallerSequence>"
-    ssfData = ssfData.replace( '><', '>\n<' )
-    ssfData = ssfData.replace( '=QwErTy=', '></' )
+    # (We don't split a blank field like in "<CallerSequence></CallerSequence>")
+    ssfData = re.sub( r'(</[^<>]*>|/>|\?>|<ScriptureText>)<', r'\1\n<', ssfData )
 
     for line in ssfData.split( '\n' ):
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ssfData line", repr(line) )
-- 
2.43.0


From f5bcfe9fd3c8fd61617ab95f44f5b1c0763eaa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:35 +0000
Subject: [PATCH 193/217] fix: crash or wrong value for empty Paratext 7 SSF
 fields with attributes

---
 BibleOrgSys/Formats/PTX7Bible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index 030a023..b6aeb72 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -275,7 +275,7 @@ def loadPTX7ProjectData( BibleObject, ssfFilepath, encoding='utf-8' ):
                 fieldname = bits[0]
                 attributes = bits[1]
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "attributes = {!r}".format( attributes) )
-                PTXSettingsDict[fieldname] = (contents, attributes)
+                PTXSettingsDict[fieldname] = ('', attributes) # There's no contents in an empty field
                 processed = True
         elif status==1 and line[0]=='<' and line[-1]=='>' and '/' in line:
             ix1 = line.find('>')
-- 
2.43.0


From ccb3b5461e86f287be8b92b4a15f87dc846e4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:35 +0000
Subject: [PATCH 194/217] fix: Paratext 7 SSF settings over several lines lost
 and XML entities not decoded

---
 BibleOrgSys/Formats/PTX7Bible.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index b6aeb72..d1bb2cc 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -46,6 +46,7 @@ from pathlib import Path
 import logging
 import re
 import multiprocessing
+from xml.sax.saxutils import unescape
 from xml.etree.ElementTree import ElementTree
 
 if __name__ == '__main__':
@@ -225,6 +226,8 @@ def PTX7BibleFileCheck( givenFolderName, strictCheck:bool=True, autoLoad:bool=Fa
 
 # The following loadPTX7…() functions are placed here because
 #   they are also used by the DBL and/or other Bible importers
+XML_ENTITIES = { '&quot;':'"', '&apos;':"'" } # besides &lt; &gt; and &amp;
+
 def loadPTX7ProjectData( BibleObject, ssfFilepath, encoding='utf-8' ):
     """
     Process the Paratext 7 SSF data file (XML) from the given filepath into PTXSettingsDict.
@@ -282,7 +285,7 @@ def loadPTX7ProjectData( BibleObject, ssfFilepath, encoding='utf-8' ):
             ix2 = line.find('</')
             if ix1!=-1 and ix2!=-1 and ix2>ix1:
                 fieldname = line[1:ix1]
-                contents = line[ix1+1:ix2]
+                contents = unescape( line[ix1+1:ix2], XML_ENTITIES )
                 if ' ' not in fieldname and line[ix2+2:-1]==fieldname:
                     PTXSettingsDict[fieldname] = contents
                     processed = True
@@ -306,6 +309,7 @@ def loadPTX7ProjectData( BibleObject, ssfFilepath, encoding='utf-8' ):
                 line = line[:-len(fieldname)-3]
                 status = 1
             contents += ' ' + line
+            if status == 1: PTXSettingsDict[fieldname] = unescape( contents.strip(), XML_ENTITIES )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Added {!r} to get {!r} for {}".format( line, contents, fieldname ) )
             processed = True
         if not processed: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("ERROR: Unexpected {} line in PTX7 SSF file").format( repr(line) ) )
-- 
2.43.0


From 78637e8d651301e3b6be1c0db04c19a4c695240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 195/217] fix: licence of a DBL bundle was discarded when the
 metadata was loaded

---
 BibleOrgSys/Formats/DBLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/DBLBible.py b/BibleOrgSys/Formats/DBLBible.py
index c980737..87517e6 100755
--- a/BibleOrgSys/Formats/DBLBible.py
+++ b/BibleOrgSys/Formats/DBLBible.py
@@ -459,7 +459,7 @@ class DBLBible( Bible ):
         # end of getContents
 
         if self.suppliedMetadata is None: self.suppliedMetadata = {}
-        self.suppliedMetadata['DBL'] = {}
+        if 'DBL' not in self.suppliedMetadata: self.suppliedMetadata['DBL'] = {} # Might already contain the licence
         #loadErrors:list[str] = []
 
         # Find the main container
-- 
2.43.0


From 471923a916a5e2bf3f9335cd4f07b4040ffa7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 196/217] fix: crash on Scripture Burrito metadata with lists
 of objects (e.g., copyright statements)

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index e03fc74..befa088 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -376,7 +376,7 @@ class ScriptureBurritoBible( Bible ):
                             #         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "How do we handle a tuple here???" )
                             else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Programming error3 in applySuppliedMetadata", mainKey, subKey, sub2Key, repr(sub2Value) ); halt
                     elif isinstance( subValue, list ): # flatten this
-                        flattenedMetadata[mainKey+'--'+subKey] = '--'.join( subValue )
+                        flattenedMetadata[mainKey+'--'+subKey] = '--'.join( json.dumps(entry,ensure_ascii=False) if isinstance(entry,(dict,list)) else str(entry) for entry in subValue )
                     else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Programming error2 in applySuppliedMetadata", mainKey, subKey, repr(subValue) ); halt
             else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Programming error in applySuppliedMetadata", mainKey, repr(value) ); halt
         # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "\nflattenedMetadata", flattenedMetadata )
-- 
2.43.0


From d6a578bd9aaf10809a6e64688f5c30adb17b8c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 197/217] fix: default publication of a DBL bundle wasn't
 preferred

---
 BibleOrgSys/Formats/DBLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/DBLBible.py b/BibleOrgSys/Formats/DBLBible.py
index 87517e6..cc0db0c 100755
--- a/BibleOrgSys/Formats/DBLBible.py
+++ b/BibleOrgSys/Formats/DBLBible.py
@@ -1193,7 +1193,8 @@ class DBLBible( Bible ):
                     self.availableBBBs.add( BBB )
             else: logging.error( "loadDBLMetadata: No books in contents (maybe has divisions?) {}".format( self.sourceFilepath ) ) # need to add code if so
         elif 'publications' in self.suppliedMetadata['DBL']:
-            for someKey,pubDict in self.suppliedMetadata['DBL']['publications'].items():
+            # Look at the default publication first
+            for someKey,pubDict in sorted( self.suppliedMetadata['DBL']['publications'].items(), key=lambda kv: not kv[1]['DefaultFlag'] ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, someKey, pubDict )
                 if 'CanonicalContent' in pubDict:
                     for USFMBookCode in pubDict['CanonicalContent']:
-- 
2.43.0


From e625d85a7b83cdc4a3bfe2f0d24a871ddc135422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:25 +0000
Subject: [PATCH 198/217] fix: crash loading a Scripture Burrito containing USX
 files

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index befa088..32266f4 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -184,7 +184,7 @@ class ScriptureBurritoBible( Bible ):
         self.sourceFolder, self.givenName, self.encoding = givenFolderName, givenName, encoding # Remember our parameters
 
         # Now we can set our object variables
-        self.sourceFilepath = self.sourceFolder
+        self.sourceFilepath = self.givenFolderName = self.sourceFolder # USXXMLBible.loadBooks() needs the latter
         self.name = self.givenName
 
         # Do a preliminary check on the readability of our folder
-- 
2.43.0


From e9fc673ed25a5818cf7d9b9a749228ba15b2cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 199/217] fix: Scripture Burrito without an English name was
 named with its language code

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index 32266f4..69ca63e 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -309,9 +309,9 @@ class ScriptureBurritoBible( Bible ):
 
         # (else) Apply our specialized SB metadata
         try: self.name = self.suppliedMetadata['SB']['identification']['name']['en']
-        except KeyError: self.name = list(self.suppliedMetadata['SB']['identification']['name'].keys())[0]
+        except KeyError: self.name = list(self.suppliedMetadata['SB']['identification']['name'].values())[0]
         try: self.abbreviation = self.suppliedMetadata['SB']['identification']['abbreviation']['en']
-        except KeyError: self.abbreviation = list(self.suppliedMetadata['SB']['identification']['abbreviation'].keys())[0]
+        except KeyError: self.abbreviation = list(self.suppliedMetadata['SB']['identification']['abbreviation'].values())[0]
         # print(self.name, self.abbreviation)
         self.encoding = 'utf-8'
 
-- 
2.43.0


From ea5b2d5575fc9504c0e5953fb97021fccd0f1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:21 +0000
Subject: [PATCH 200/217] fix: crash on Scripture Burrito ingredients that
 aren't Bible books

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index 69ca63e..ada1376 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -267,7 +267,8 @@ class ScriptureBurritoBible( Bible ):
                 else:
                     logging.error(f"Unrecognised {someKey} SB '{someValue['mimeType']}' format")
                     loadErrors.append(f"ERROR: Unrecognised {someKey} SB '{someValue['mimeType']}' format")
-                if len(someValue['scope']) == 1: # We only expect one book per file
+                if 'scope' not in someValue: pass # It doesn't contain any Bible books
+                elif len(someValue['scope']) == 1: # We only expect one book per file
                     USFMBookCode = list(someValue['scope'].keys())[0]
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromUSFMAbbreviation( USFMBookCode )
                     self.givenBookList.append( BBB )
-- 
2.43.0


From 9700973d464109822866d5c6a5ace77ef3e34a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:43 +0000
Subject: [PATCH 201/217] fix: crash on Scripture Burrito ingredients with a
 list of chapters in their scope

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index ada1376..edd0339 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -342,25 +342,22 @@ class ScriptureBurritoBible( Bible ):
                             if not sub2Value:  pass # ignore empty ones
                             elif isinstance( sub2Value, (str,bool,int) ):
                                 flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key] = sub2Value # Straight copy
-                            # elif isinstance( sub2Value, list ):
-                            #     assert sub2Key in ('books','CanonicalContent',)
-                            #     flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key] = sub2Value # Straight copy
+                            elif isinstance( sub2Value, list ):
+                                flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key] = sub2Value # Straight copy
                             elif isinstance( sub2Value, dict ):
                                 for sub3Key,sub3Value in sub2Value.items():
                                     if not sub3Value:  pass # ignore empty ones
                                     elif isinstance( sub3Value, (str,bool,int) ):
                                         flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key] = sub3Value # Straight copy
-                                    # elif isinstance( sub3Value, list ):
-                                    #     assert sub3Value in ('books','CanonicalContent',)
-                                    #     flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key] = sub3Value # Straight copy
+                                    elif isinstance( sub3Value, list ): # e.g., the chapters in the scope of an ingredient
+                                        flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key] = sub3Value # Straight copy
                                     elif isinstance( sub3Value, dict ):
                                         for sub4Key,sub4Value in sub3Value.items():
                                             if not sub4Value:  pass # ignore empty ones
                                             elif isinstance( sub4Value, (str,bool,int) ):
                                                 flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key+'--'+sub4Key] = sub4Value # Straight copy
-                                            # elif isinstance( sub4Value, list ):
-                                            #     assert sub3Value in ('books','CanonicalContent',)
-                                            #     flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key+'--'+sub4Key] = sub4Value # Straight copy
+                                            elif isinstance( sub4Value, list ):
+                                                flattenedMetadata[mainKey+'--'+subKey+'--'+sub2Key+'--'+sub3Key+'--'+sub4Key] = sub4Value # Straight copy
                                             # elif isinstance( sub4Value, dict ):
                                             #     if BibleOrgSysGlobals.debugFlag or DEBUGGING_THIS_MODULE:
                                             #         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "How do we handle a dict here???", sub3Key, sub4Value )
-- 
2.43.0


From 4a31919a01152cb139f166c3f686f773e4fcfc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 202/217] fix: last style of a Paratext stylesheet file was
 lost

---
 BibleOrgSys/Formats/PTX7Bible.py | 1 +
 BibleOrgSys/Formats/PTX8Bible.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index d1bb2cc..c37b539 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1687,6 +1687,7 @@ class PTX7Bible( Bible ):
                                     currentStyle[name] = value
                                 else: logging.error( "What's this style marker? {!r}".format( line ) )
                             else: logging.error( "What's this style line? {!r}".format( line ) )
+                    if currentStyle: PTXStyles[styleName][styleMarker] = currentStyle # Don't lose the last one
                     break; # Get out of decoding loop because we were successful
                 except UnicodeDecodeError:
                     logging.error( _("loadPTXStyles fails with encoding: {} on {}{}").format( encoding, styleFilepath, {} if encoding==encodings[-1] else ' -- trying again' ) )
diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index aed8913..9019524 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2523,6 +2523,7 @@ class PTX8Bible( Bible ):
                             else:
                                 logging.error( "What's this style line? {!r}".format( line ) )
                                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
+                    if currentStyle: PTXStyles[styleName][styleMarker] = currentStyle # Don't lose the last one
                     break; # Get out of decoding loop because we were successful
                 except UnicodeDecodeError:
                     logging.error( _("loadPTX8Styles fails with encoding: {} on {}{}").format( encoding, styleFilepath, {} if encoding==encodings[-1] else ' -- trying again' ) )
-- 
2.43.0


From 9e170f411c196a09ff6232340c951d76ab5a54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 203/217] fix: only the last of the Paratext 8 comment tags was
 kept

---
 BibleOrgSys/Formats/PTX8Bible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index 9019524..3eddbca 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -1299,7 +1299,8 @@ class PTX8Bible( Bible ):
                         else:
                             logging.error( _("Unprocessed {!r} attribute ({}) in {}").format( attrib, value, treeLocation ) )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                    commentTagDict[element.tag] = { 'Id':Id, 'Name':name, 'Icon':icon, 'CreatorResolve':creatorResolveFlag }
+                    if element.tag not in commentTagDict: commentTagDict[element.tag] = {}
+                    commentTagDict[element.tag][Id] = { 'Id':Id, 'Name':name, 'Icon':icon, 'CreatorResolve':creatorResolveFlag }
                 elif element.tag == 'LastUsedID':
                     BibleOrgSysGlobals.checkXMLNoAttributes( element, elementLocation )
                     commentTagDict[element.tag] = element.text
-- 
2.43.0


From a9dc934da8e122ef37232d49ef4e9bfa4a87d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 204/217] fix: comparing books lost or cancelled unrelated
 messages about unclosed brackets

---
 BibleOrgSys/Misc/CompareBibles.py | 62 ++++++++++++++-----------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 3e44adc..6a122d7 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -76,6 +76,7 @@ REGEX stuff:
         as well as numbers and the underscore. If the ASCII flag is used, only [a-zA-Z0-9_] is matched.
 """
 from gettext import gettext as _
+from collections import defaultdict
 from pathlib import Path
 import os.path
 import logging
@@ -462,7 +463,7 @@ def compareBooksPedantic( book1, book2,
     assert book1.workName != book2.workName
 
     bcResults:list[tuple[tuple[str,str,str],str]] = []
-    tempResults:list[tuple[tuple[str,str,str],str]] = [] # Used for warnings which might be rescinded, esp, parentheses closed in a different verse
+    openPairs:defaultdict[tuple[int,str],list[tuple[tuple[str,str,str],str]]] = defaultdict( list ) # Used for warnings which might be rescinded, esp, parentheses closed in a different verse
 
     len1, len2 = len(book1), len(book2)
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'len', len1, len2 )
@@ -498,12 +499,9 @@ def compareBooksPedantic( book1, book2,
         originalMarker = entry1.getOriginalMarker()
         reference = (C,V,' ' if originalMarker is None else originalMarker)
 
-        if tempResults \
-        and marker1 in ('c','p','s1','s2','s3','s4', 'ms', 'r', 'd', 'sp'):
+        if marker1 in ('c','p','s1','s2','s3','s4', 'ms', 'r', 'd', 'sp'):
             # parenthesis shouldn't normally cross these boundaries
-            while tempResults:
-                print( f"At {reference} activating {tempResults[0]}" )
-                bcResults.append(tempResults.pop(0))
+            openPairs.clear()
 
         if marker1 == marker2: # ok, formats of both books match
             numMismatchedMarkers = 0
@@ -530,52 +528,48 @@ def compareBooksPedantic( book1, book2,
                         if breakOnOne: break
                 for left,right in matchingPairs:
                     hadMatching1Error = hadMatching2Error = False
-                    ixl = checkLeftPair( left, right, line1 )
-                    if ixl >= 0:
-                        contextStart, contextEnd = max(0,ixl-5), ixl+7
-                        context = line1[contextStart:contextEnd]
-                        if contextStart > 0 and context[0]!=' ': context = '…' + context
-                        if contextEnd < line1len and context[-1]!=' ': context = context + '…'
-                        tempResults.append( (reference,"Missing second part of pair in Bible1: {!r} after {!r}".format( right, context )) )
-                        # print( f"Saved1 tmp {tempResults[-1]}" )
-                        hadMatching1Error = True
-                    ixl = checkLeftPair( left, right, line2 )
-                    if ixl >= 0:
-                        contextStart, contextEnd = max(0,ixl-5), ixl+7
-                        context = line2[contextStart:contextEnd]
-                        if contextStart > 0 and context[0]!=' ': context = '…' + context
-                        if contextEnd < line1len and context[-1]!=' ': context = context + '…'
-                        tempResults.append( (reference,"Missing second part of pair in Bible2: {!r} after {!r}".format( right, context )) )
-                        # print( f"Saved2 tmp {tempResults[-1]}" )
-                        hadMatching2Error = True
+                    # An unmatched right char in a line always precedes any unmatched left char so check it first
                     ixr = checkRightPair( left, right, line1 )
                     if ixr >= 0:
                         contextStart, contextEnd = max(0,ixr-6), ixr+6
                         context = line1[contextStart:contextEnd]
                         if contextStart > 0 and context[0]!=' ': context = '…' + context
                         if contextEnd < line1len and context[-1]!=' ': context = context + '…'
-                        if tempResults and "Missing second part" in tempResults[0][-1]:
-                            # print( f"At {reference} supressing1 {tempResults[0][-1]}" )
-                            tempResults.pop(0) # We match the number of messages, but don't check for exact matches
+                        if openPairs[(1,left)]: # It closes one from an earlier line, so rescind that message
+                            bcResults.remove( openPairs[(1,left)].pop() ) # We match the number of messages, but don't check for exact matches
                         else:
-                            assert not tempResults
                             bcResults.append( (reference,"Missing first part of pair in Bible1: {!r} before {!r}".format( left, context )) )
-                            # print( f"1 Appended {bcResults[-1]=}" )
                         hadMatching1Error = True # So we don't get more errors below
+                    ixl = checkLeftPair( left, right, line1 )
+                    if ixl >= 0:
+                        contextStart, contextEnd = max(0,ixl-5), ixl+7
+                        context = line1[contextStart:contextEnd]
+                        if contextStart > 0 and context[0]!=' ': context = '…' + context
+                        if contextEnd < line1len and context[-1]!=' ': context = context + '…'
+                        bcResults.append( (reference,"Missing second part of pair in Bible1: {!r} after {!r}".format( right, context )) )
+                        openPairs[(1,left)].append( bcResults[-1] ) # as this might be rescinded
+                        hadMatching1Error = True
+                    # An unmatched right char in a line always precedes any unmatched left char so check it first
                     ixr = checkRightPair( left, right, line2 )
                     if ixr >= 0:
                         contextStart, contextEnd = max(0,ixr-6), ixr+6
                         context = line2[contextStart:contextEnd]
                         if contextStart > 0 and context[0]!=' ': context = '…' + context
                         if contextEnd < line2len and context[-1]!=' ': context = context + '…'
-                        if tempResults and "Missing second part" in tempResults[-1][-1]:
-                            # print( f"At {reference} supressing2 {tempResults[-1][-1]}" )
-                            tempResults.pop() # We match the number of messages, but don't check for exact matches
+                        if openPairs[(2,left)]: # It closes one from an earlier line, so rescind that message
+                            bcResults.remove( openPairs[(2,left)].pop() ) # We match the number of messages, but don't check for exact matches
                         else:
-                            assert not tempResults
                             bcResults.append( (reference,"Missing first part of pair in Bible2: {!r} before {!r}".format( left, context )) )
-                            # print( f"2 Appended {bcResults[-1]=}" )
                         hadMatching2Error = True # So we don't get more errors below
+                    ixl = checkLeftPair( left, right, line2 )
+                    if ixl >= 0:
+                        contextStart, contextEnd = max(0,ixl-5), ixl+7
+                        context = line2[contextStart:contextEnd]
+                        if contextStart > 0 and context[0]!=' ': context = '…' + context
+                        if contextEnd < line2len and context[-1]!=' ': context = context + '…'
+                        bcResults.append( (reference,"Missing second part of pair in Bible2: {!r} after {!r}".format( right, context )) )
+                        openPairs[(2,left)].append( bcResults[-1] ) # as this might be rescinded
+                        hadMatching2Error = True
                     # The above doesn't detect ( ) ) so we do it here
                     if not hadMatching1Error: # already
                         l1cl, l1cr = line1.count( left ), line1.count( right )
-- 
2.43.0


From 274768fcb6585759356122acf9804f8c8f547ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 205/217] fix: comparing books used the legal pairs of the
 first Bible for the second one

---
 BibleOrgSys/Misc/CompareBibles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 6a122d7..9cf5c2c 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -630,7 +630,7 @@ def compareBooksPedantic( book1, book2,
                     for iString in illegalCleanTextOnlyStrings2:
                         iCount = entryCleanText2.count( iString )
                         if iCount:
-                            for illegalString,legalString in legalPairs1:
+                            for illegalString,legalString in legalPairs2:
                                 if illegalString==iString:
                                     iCount -= entryCleanText2.count( legalString )
                             if iCount > 0:
-- 
2.43.0


From 042e42a93bf66acd28f3778473dac6983f47265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 206/217] fix: crash or wrong marker when dividing books of
 different lengths into segments

---
 BibleOrgSys/Misc/CompareBibles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 9cf5c2c..4e1eb6a 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -829,7 +829,7 @@ def segmentizeBooks( book1:BibleBook, book2:BibleBook ) -> tuple[list,list]:
         assert remaining >= 1
         abResults.append( (reference,"Extra marker{} remaining in book2: {!r}{}" \
                                 .format( '' if remaining==1 else 's ({})'.format( remaining ),
-                                    book1._processedLines[ix2+offset2].getMarker(), '…' if remaining>1 else '' )) )
+                                    book2._processedLines[ix2+offset2].getMarker(), '…' if remaining>1 else '' )) )
 
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\nsegmentList', len(segmentList), segmentList )
     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\nabResults', len(abResults), abResults )
-- 
2.43.0


From eba08674fdb223b0a614c9b367b48e40260a9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 207/217] fix: alternatives in word comparison files also got
 each other's later entries

---
 BibleOrgSys/Misc/CompareBibles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 4e1eb6a..8005730 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -229,7 +229,7 @@ def loadWordCompares( folder, filename ):
                     if lBit in dict12:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  We already had {!r} = {} (now got {}) in dict12 ({})".format( lBit, dict12[lBit], rBits, use ) )
                         dict12[lBit].extend( rBits )
-                    else: dict12[lBit] = rBits
+                    else: dict12[lBit] = list( rBits )
                     #if lBit.title() != lBit:
                         #dict12[lBit.title()] = rBits
             if use in (21,1221):
@@ -237,7 +237,7 @@ def loadWordCompares( folder, filename ):
                     if rBit in dict21:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  We already had {!r} = {} (now got {}) in dict21 ({})".format( rBit, dict21[rBit], lBits, use ) )
                         dict21[rBit].extend( lBits )
-                    else: dict21[rBit] = lBits
+                    else: dict21[rBit] = list( lBits )
                     #if rBit.title() != rBit:
                         #dict21[rBit.title()] = lBits
 
-- 
2.43.0


From a47a69536b63f49f6c801f2dc6c4cede0323df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:57 +0000
Subject: [PATCH 208/217] fix: crash comparing books with notes in remarks

---
 BibleOrgSys/Misc/CompareBibles.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/BibleOrgSys/Misc/CompareBibles.py b/BibleOrgSys/Misc/CompareBibles.py
index 8005730..bf0ed5f 100755
--- a/BibleOrgSys/Misc/CompareBibles.py
+++ b/BibleOrgSys/Misc/CompareBibles.py
@@ -587,10 +587,7 @@ def compareBooksPedantic( book1, book2,
                 entryCleanText1, entryCleanText2 = entry1.getCleanText(), entry2.getCleanText() # So markers don't confuse things
                 entryFullText1, entryFullText2 = entry1.getFullText(), entry2.getFullText() # So can check AROUND markers also
                 extras1, extras2 = entry1.getExtras(), entry2.getExtras()
-                if marker1 in ( 'id','ide','rem', ): # Don't do illegal strings in these non-Bible-text fields
-                    assert not extras1
-                    assert not extras2
-                else:
+                if marker1 not in ( 'id','ide','rem', ): # Don't do illegal strings in these non-Bible-text fields
                     if extras1 is None: extras1 = () # So it's always iterable
                     if extras2 is None: extras2 = () # So it's always iterable
                     if len(extras1) != len(extras2):
-- 
2.43.0


From 2eb0325b54834cbb07e8edda06e4910b6e0d4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:11 +0000
Subject: [PATCH 209/217] fix: crash on books of Samuel written with a space in
 SwordSearcher Forge files

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index a76fb92..889d7a7 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -329,7 +329,8 @@ class ForgeForSwordSearcherBible( Bible ):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "metadataName", repr(metadataName) )
                             metadataContents = ''
                     else: # let's assume it's a BCV reference
-                        pointer = pointer.replace( '1 K','1K' ).replace( '2 K','2K' ) \
+                        pointer = pointer.replace( '1 S','1S' ).replace( '2 S','2S' ) \
+                                        .replace( '1 K','1K' ).replace( '2 K','2K' ) \
                                         .replace( '1 Chr','1Chr' ).replace( '2 Chr','2Chr' ) \
                                         .replace( '1 Cor','1Cor' ).replace( '2 Cor','2Cor' ) \
                                         .replace( '1 Thess','1Thess' ).replace( '2 Thess','2Thess' ) \
-- 
2.43.0


From cf9524bf19fe43b4fd128a946d6f9170b7613e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:58 +0000
Subject: [PATCH 210/217] fix: crash exporting USX2 or OSIS files when xmllint
 isn't installed

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index dfbce1d..73098fb 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4276,7 +4276,7 @@ class BibleWriter( InternalBible ):
         validationResults = ( 0, '', '', ) # xmllint result code, program output, error output
         for BBB,bookData in self.books.items():
             bookResults = writeUSXBook( BBB, bookData )
-            if validationSchema:
+            if bookResults: # else there was no validation, e.g., if xmllint isn't installed
                 if bookResults[0] > validationResults[0]: validationResults = ( bookResults[0], validationResults[1], validationResults[2], )
                 if bookResults[1]: validationResults = ( validationResults[0], validationResults[1] + bookResults[1], validationResults[2], )
                 if bookResults[2]: validationResults = ( validationResults[0], validationResults[1], validationResults[2] + bookResults[2], )
@@ -5608,6 +5608,7 @@ class BibleWriter( InternalBible ):
                 xw.close()
                 if validationSchema:
                     bookResults = xw.validate( validationSchema ) # Returns a 3-tuple: intCode, logString, errorLogString
+                    if not bookResults: continue # Couldn't be validated, e.g., if xmllint isn't installed
                     if bookResults[0] > validationResults[0]: validationResults = ( bookResults[0], validationResults[1], validationResults[2], )
                     if bookResults[1]: validationResults = ( validationResults[0], validationResults[1] + bookResults[1], validationResults[2], )
                     if bookResults[2]: validationResults = ( validationResults[0], validationResults[1], validationResults[2] + bookResults[2], )
-- 
2.43.0


From c69cae2550b1b9bab05a6ba4e5c6605ba90e13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 211/217] fix: verses missing from USFM exports without verse
 bridges if the book ends in a bridge

---
 BibleOrgSys/BibleWriter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 73098fb..50df5c1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -738,6 +738,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The last verse of the book was a bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
@@ -912,6 +915,9 @@ class BibleWriter( InternalBible ):
                     if not fullText: bookUSFM += '\\{}'.format( pseudoMarker )
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
+            if vBridgeStartInt and vBridgeEndInt: # The last verse of the book was a bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
 
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
-- 
2.43.0


From 07e341c5bd02d4f06959b0a0bcd9959369881b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:15 +0000
Subject: [PATCH 212/217] fix: links to bridged verses in exported web pages
 led nowhere

---
 BibleOrgSys/BibleWriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 50df5c1..c9c810b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2422,7 +2422,8 @@ class BibleWriter( InternalBible ):
                         logger.warning( "toHTML5: Have verse number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
                         if not haveOpenListItem:
                             writerObject.writeLineOpen( 'p', ('class','unknownParagraph') ); haveOpenParagraph = True
-                    writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
+                    idV = re.split( '[-–—]', V )[0] # The notes link to the first verse of a bridge
+                    writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+idV)] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseOnePrespace') )
                         writerObject.writeLineOpenClose( 'span', V, ('class','verseOneNumber') )
-- 
2.43.0


From fc198e16a3865f4d9da12de98bfb72591ad65c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:15 +0000
Subject: [PATCH 213/217] fix: links to whole chapters in exported web pages
 led nowhere

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c9c810b..a21c86f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2225,6 +2225,8 @@ class BibleWriter( InternalBible ):
             assert refTuple and len(refTuple)==4
             assert refTuple[0] is None or ( refTuple[0] and len(refTuple[0])==3 ) #BBB
             if refTuple[0] in filenameDict:
+                if not refTuple[2]: # It's a reference to a whole chapter
+                    return '{}#CS{}'.format( filenameDict[refTuple[0]], refTuple[1] )
                 return '{}#C{}V{}'.format( filenameDict[refTuple[0]], refTuple[1], refTuple[2] )
             else: logger.error( "toHTML5.convertToPageReference can't find book: {!r}".format( refTuple[0] ) )
         # end of toHTML5.convertToPageReference
-- 
2.43.0


From 9d3fb19d740c8aa9b1f758d35828c01d8fcaf8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:05 +0000
Subject: [PATCH 214/217] fix: links from notes with references like 3.4 led
 nowhere in exported web pages

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index a21c86f..f636091 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1775,9 +1775,9 @@ class BibleWriter( InternalBible ):
                 """
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatHTMLVerseText.liveCV( {} )".format( repr(CV) ) )
                 if len(CV) < 3: return ''
-                if CV and CV[-1]==':': CV = CV[:-1]
+                if CV and CV[-1] in ':.': CV = CV[:-1]
 
-                result = 'C' + CV.strip().replace( ':', 'V')
+                result = 'C' + CV.strip().replace( ':', 'V').replace( '.', 'V')
                 for bridgeChar in ('-', '–', '—'): # hyphen, endash, emdash
                     ix = result.find( bridgeChar )
                     if ix != -1: result = result[:ix] # Remove verse bridges
-- 
2.43.0


From d56555f5dece5b5f417122c8f24678565b35ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:18 +0000
Subject: [PATCH 215/217] fix: cross-references in introductions got an origin
 like -1:5 in exported web pages

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index f636091..a34eea1 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1924,7 +1924,7 @@ class BibleWriter( InternalBible ):
                                 .format( xrefText, xrefIndex )
 
                 endHTML5 = '<p id="XRef{}" class="xref">'.format( xrefIndex )
-                if not origin: # we'll try to make one
+                if not origin and C!='-1': # (not in the introduction) we'll try to make one
                     originCV = "{}:{}".format( C, V )
                 if originCV: # This only handles CV separator of : so far
                     endHTML5 += '<a class="xrefOrigin" title="Go back up to {} in the text" href="{}">{}</a> ' \
-- 
2.43.0


From ce44f5d12bde181265b892e58bc2242dd004d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:07 +0000
Subject: [PATCH 216/217] fix: crash comparing USFM files if the first one has
 more chapters

---
 BibleOrgSys/Misc/USFMBookCompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Misc/USFMBookCompare.py b/BibleOrgSys/Misc/USFMBookCompare.py
index 8140677..6475ecf 100755
--- a/BibleOrgSys/Misc/USFMBookCompare.py
+++ b/BibleOrgSys/Misc/USFMBookCompare.py
@@ -223,7 +223,7 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
         resultDict['Different']['ChapterMarkerCount'] = (resultDict['File1']['ChapterMarkerCount'],resultDict['File2']['ChapterMarkerCount'])
         if resultDict['File1']['ChapterMarkerCount'] > resultDict['File2']['ChapterMarkerCount']:
             difference = resultDict['File1']['ChapterMarkerCount'] - resultDict['File2']['ChapterMarkerCount']
-            resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file1Name,  )
+            resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file1Name, difference, '' if difference==1 else 's' )
         elif resultDict['File1']['ChapterMarkerCount'] < resultDict['File2']['ChapterMarkerCount']:
             difference = resultDict['File2']['ChapterMarkerCount'] - resultDict['File1']['ChapterMarkerCount']
             resultDict['Summary']['ChapterMarkerCount'] = "{} has {} more chapter marker{}".format( file2Name, difference, '' if difference==1 else 's' )
-- 
2.43.0


From bf077be804cdfcb84a6a2529e30b4786ec598053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:07 +0000
Subject: [PATCH 217/217] fix: crash comparing USFM files with missing or
 invalid verse numbers

---
 BibleOrgSys/Misc/USFMBookCompare.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Misc/USFMBookCompare.py b/BibleOrgSys/Misc/USFMBookCompare.py
index 6475ecf..7f338d7 100755
--- a/BibleOrgSys/Misc/USFMBookCompare.py
+++ b/BibleOrgSys/Misc/USFMBookCompare.py
@@ -154,7 +154,7 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
             lastC = intC
         elif marker=='v':
             resultDict['File1']['VerseMarkerCount'] += 1
-            V = line.strip().split()[0]
+            V = line.split()[0] if line.strip() else '' # Could be an (invalid) empty verse field
             if '-' in V: # it's a verse bridge
                 V,V2 = V.split( '-', 1 )
             else: V2 = None
@@ -164,8 +164,8 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
             if intV != lastV + 1:
                 if 'File1Verses' not in resultDict['Summary']: # only record the first one
                     resultDict['Summary']['File1Verses'] = "{} has verses out of order ({}:{} after {}:{})".format( file1Name, C, V, C, lastV )
-            if V2: lastV = int( V2 )
-            else: lastV = intV
+            try: lastV = int( V2 ) if V2 else intV
+            except ValueError: lastV = -1
         if not startedCVs: resultDict['File1']['IntroLineCount'] += 1
         if line.strip(): resultDict['File1']['HasContentCount'] += 1
         if '<<<<' in line or '====' in line or '>>>>' in line:
@@ -189,7 +189,7 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
             lastC = intC
         elif marker=='v':
             resultDict['File2']['VerseMarkerCount'] += 1
-            V = line.strip().split()[0]
+            V = line.split()[0] if line.strip() else '' # Could be an (invalid) empty verse field
             if '-' in V: # it's a verse bridge
                 V,V2 = V.split( '-', 1 )
             else: V2 = None
@@ -199,8 +199,8 @@ def USFMBookCompare( filepath1, filepath2, file1Name='file1', file2Name='file2'
             if intV != lastV + 1:
                 if 'File2Verses' not in resultDict['Summary']: # only record the first one
                     resultDict['Summary']['File2Verses'] = "{} has verses out of order ({}:{} after {}:{})".format( file2Name, C, V, C, lastV )
-            if V2: lastV = int( V2 )
-            else: lastV = intV
+            try: lastV = int( V2 ) if V2 else intV
+            except ValueError: lastV = -1
         if not startedCVs: resultDict['File2']['IntroLineCount'] += 1
         if line.strip(): resultDict['File2']['HasContentCount'] += 1
         if '<<<<' in line or '====' in line or '>>>>' in line:
-- 
2.43.0

