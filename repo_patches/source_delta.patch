From bc559b3248de44362431f13ff62649e0e4f0a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 01/25] fix: bit-field writes accepted 2**width and negative
 values

A write of the first value that does not fit (or of a negative one) to a bit,
range or whole field was accepted and spilled into the neighbouring field or
beyond the width of the word. Refuse it before anything is stored.
---
 h800/bitfield.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..377c659 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -315,7 +315,9 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
+        if value < 0:
+            raise ValueError("Value must not be negative!")
+        if value >= 2 ** width:
             raise ValueError("Value is greater than allowed for %d-bit field!"
                              % width)
 
-- 
2.43.0


From c50fd96aa17c22c9851f4d84907f89ec848113c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 02/25] fix: clearing registers did nothing after an earlier
 iteration

RegisterGroup.clear and Registers.clear walked the object's own one-shot
iterator, so once the group or register file had been iterated (or cleared)
nothing was cleared any more.
---
 h800/registers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..b515b68 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -191,7 +191,7 @@ class RegisterGroup:
         return text
 
     def clear(self):
-        for register in self:
+        for register in self._registers.values():
             register.clear()
 
 
@@ -249,5 +249,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From a2e314817336a31d91146b0cbcf1b1c6d4d76c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 03/25] fix: assigning a register into a group used the wrong
 key

Assignment by name added a stray string-keyed entry and left the register
unchanged, and assignment by number raised KeyError. Use the register number
in both cases, with the same checks as reading.
---
 h800/registers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index b515b68..e7e580c 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -167,9 +167,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
-- 
2.43.0


From b8907f91e65873a97008189f107681a4789722e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 04/25] fix: a memory bank could be iterated only once

The iteration cursor lived in the bank itself and was never reset, so a second
scan, or one started inside or alongside another, yielded nothing or skipped
words. Give every scan its own cursor.
---
 h800/memory.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..287075e 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -15,7 +15,6 @@ class MemoryBank:
         for addr in range(self.BANK_SIZE):
             self._data[addr] = Word(0)
         self._width = self.MEMORY_WIDTH
-        self._current = 0
 
     def _checkValue(self, value):
         if value < 0 or value > (2 ** self._width - 1):
@@ -64,14 +63,8 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(self._data):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._data[self._current - 1]
+        for addr in range(len(self._data)):
+            yield self._data[addr]
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From 5f534dfff6a535a604e252aefa754271d3c73d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 05/25] fix: a register group could be iterated only once

The iteration cursor lived in the group itself and was never reset. Give every
scan its own cursor.
---
 h800/registers.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index e7e580c..235b60f 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -145,7 +145,6 @@ class RegisterGroup:
         for regname in REGISTERS:
             self._registers[REGISTERS[regname]] = \
                 Register(name=regname, width=width)
-        self._current = 0
 
     @property
     def width(self):
@@ -179,14 +178,8 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(REGISTERS):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._registers[self._current - 1]
+        for number in range(len(REGISTERS)):
+            yield self._registers[number]
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From b24c04bb4fbb654871bfc397e98a22292fc9a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 06/25] fix: a refused range write to a memory bank was applied
 in part

Writing a range that runs past the end of the bank stored the value in the
words inside the bank before failing. Look up all the words first.
---
 h800/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index 287075e..1d75da7 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -54,8 +54,9 @@ class MemoryBank:
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            for i in range(key.start, key.stop):
-                self._data[i].value = value
+            words = [self._data[i] for i in range(key.start, key.stop)]
+            for word in words:
+                word.value = value
         else:
             self._data[key].value = value
 
-- 
2.43.0


From b4ead9c87e95c8cb9edba8675b484a8a4e8668ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 07/25] fix: remarks of P, R and L cards lost their first
 character

The text of these cards starts in column 9 (index 8), where the label field
starts; it was taken from column 10.
---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From f4ee1187e5b5d6c5453115040c5aedf8664fd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 08/25] fix: multiply-defined symbols were never reported

The previous definition was looked up one level too high in the table, so a
second definition silently replaced the first.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From 9701f794d93e65154d6abd163e6419a0968d6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 09/25] fix: symbols with a simple definition in a later
 segment were missed

The found flag was never reset, so after the first match only the first
segment of each symbol was looked at.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..baff2d9 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -323,8 +323,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From 524eca0b748ba5dddf7af1f348fbde16df7944d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 10/25] fix: listing file name for sources without an extension
 or named .lst

A source without an extension was listed to ".lst" (or to a name cut at a dot
in a directory), so several such sources overwrote one another's listing, and
a source named *.lst was overwritten by its own listing.
---
 tools/listing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..e1831bc 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -28,7 +29,9 @@ def main():
         sys.exit(1)
 
     for filename in args:
-        listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        listfile = os.path.splitext(filename)[0] + ".lst"
+        if listfile == filename:
+            parser.error("listing would overwrite source %s" % filename)
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From eea239e9397fe0d4527a65489f234e5bddd81cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 11/25] fix: page headers read "None" when the log card's
 column 8 is blank

---
 tools/genpages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..189537d 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -54,6 +54,9 @@ def main():
             else:
                 start = end = int(pageRange)
 
+    if logsectioncol8 is None:
+        logsectioncol8 = ' '
+
     if logsection is None:
         parser.error("Cannot determine log section!")
         sys.exit(1)
-- 
2.43.0


From 9cabe4ce02a3046a781fa1683cbaaeaf6e11372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 12/25] fix: parse dropped the symbol errors of all but the
 last file from its total

---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..46147e3 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, symerrs = buildSymbolTable(filename, symtab,
+                                           verbose=opts.verbose)
+        errcount += symerrs
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, symerrs), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From 63ad8a225926dd6081d3a45a29c671c029ac727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:16 +0000
Subject: [PATCH 13/25] fix: instruction counts of a source without
 instructions divided by zero

---
 tools/check-instructions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..c34414e 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -100,6 +100,7 @@ def main():
                         errcount += 1
 
     if opts.count:
+        total = float(max(instrcount, 1))
         print("\nSource lines: %d" % linecount)
         print("\nInstruction Frequencies:")
         print("%-8s %6d  %6.2f%%" % ("Total", instrcount, 100.0))
@@ -110,13 +111,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/total))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From 3abcc49d734a43fb16ab2692b69236d6a6386a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:24:44 +0000
Subject: [PATCH 14/25] fix: fuzzy symbol search crashed when no symbol has a
 simple definition

---
 h800/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baff2d9..b2bf44a 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -363,6 +363,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
+            if not absSyms:
+                return []
             matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
-- 
2.43.0


From 4b299878aa4aa604becd3904df00e65d41445b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:55 +0000
Subject: [PATCH 15/25] fix: sources given with a dot in their directory all
 got the same segment

The segment is the file name up to its first dot; for ./a.arg and ../x/b.arg
that was the empty string, so the same tag in two such files was reported as
multiply defined.
---
 h800/symbol_table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index b2bf44a..fb90bfc 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import os
 import sys
 from fuzzywuzzy import fuzz
 from fuzzywuzzy import process
@@ -177,7 +178,9 @@ class SymbolTable:
 
 def buildSymbolTable(filename, symtab, verbose=False):
     """Build the symbol table."""
-    seg = filename.split('.')[0]  # Default: name of the first file.
+    path, name = os.path.split(filename)
+    seg = os.path.join(path, name.split('.')[0])    # Default: name of the
+                                                    # first file.
     subsegs = []        # List of subsegments.
     subseg = "1"        # Current subsegment, default is 1 (no starting SETLOC)
     d = Deck(file=filename, verbose=verbose)
-- 
2.43.0


From 648bc2241628709690a96602cd70c29bd781c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:11 +0000
Subject: [PATCH 16/25] fix: list-symbols dropped the file name of sources in
 dotted directories

For a card of ./a.arg or ../x/b.arg the place was shown as ":12".
---
 tools/list-symbols.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/list-symbols.py b/tools/list-symbols.py
index 0317b3b..a10c7ce 100755
--- a/tools/list-symbols.py
+++ b/tools/list-symbols.py
@@ -9,12 +9,19 @@
 # This is intended for debugging assembler development.
 
 from __future__ import print_function
+import os
 import sys
 from optparse import OptionParser
 
 from h800.symbol_table import buildSymbolTable
 
 
+def stem(filename):
+    "Return the file name up to the first dot."
+    path, name = os.path.split(filename)
+    return os.path.join(path, name.split('.')[0])
+
+
 def main():
     parser = OptionParser("usage: %prog filename [filename]...")
     parser.add_option('-v', '--verbose',
@@ -46,7 +53,7 @@ def main():
                     print("        %-9s %1s %-38s      %s" %
                           ("<%s>" % symtype,
                            symdata["tagtype"],
-                           "%s:%s" % (symdata["file"].split('.')[0],
+                           "%s:%s" % (stem(symdata["file"]),
                                       symdata["line"]),
                            symdata["card"]))
 
-- 
2.43.0


From 34635f151c224209dc04b9b6dd0104c11ec042f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:49 +0000
Subject: [PATCH 17/25] fix: setting or clearing bit 0 of a bit field acted on
 all its bits

set(0) and clear(0) took the index for a missing one: with bits numbered
from 0 the whole field was changed, with bits numbered from 1 the index
was not refused.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 377c659..7790a51 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -412,7 +412,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -420,7 +420,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From 71ba6f4587f1aa96f49d753d54c0c1823b325500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:57 +0000
Subject: [PATCH 18/25] fix: register group numbers outside 0..7 were accepted
 when a group is put

---
 h800/registers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/registers.py b/h800/registers.py
index 235b60f..d1674e2 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -224,6 +224,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From 4fa2c45d9a6eb134bc5abb9fc5eb4183f8b8644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:53 +0000
Subject: [PATCH 19/25] fix: BitField: bit ranges of LSB-left fields used the
 wrong bits

The mask of a range was shifted to the range's last bit, which is the
least significant one only when the MSB is on the left.
---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 7790a51..e26bcac 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -328,7 +328,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 838991b7377af8f8ca15d327991aab751f240d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 20/25] fix: BitField.isRange: compare with the range's own
 ones

The value of a range is shifted down to bit 0, but it was compared with
the unshifted mask, so a range of ones not ending at the LSB was not
seen as set.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index e26bcac..1164c87 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -445,11 +445,11 @@ class BitField:
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
         subfield = self.__getitem__(slice(start, end))
-        bitmask = self._bitmask(start, end)
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            rstart, rend = self._getRange(start, end)
+            setval = 2 ** (rend - rstart + 1) - 1
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
-- 
2.43.0


From acc1f6125b4643d73d739d81514f95eb8bd06065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 21/25] fix: BitField.isRangeClr: a range with some ones is not
 clear

---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 1164c87..44193a3 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -458,4 +458,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 5792ca09bc26f725410d5b7ce6bc46895cf2d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 22/25] fix: BitField: refuse a negative initial value, as
 assignment does

---
 h800/bitfield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 44193a3..bab25f7 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,6 +110,8 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
+        if self._value < 0:
+            raise ValueError("Value must not be negative!")
         if self._value > self._maxval:
             raise ValueError("Value is greater than maximum allowed by "
                              "bit-field width!")
-- 
2.43.0


From b1bee7602d1b8ac2ce943dfea88766e4ce65181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:51 +0000
Subject: [PATCH 23/25] fix: SymbolTableEntry.value raised AttributeError

---
 h800/symbol_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index fb90bfc..7687b65 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -33,7 +33,9 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self._absoluteValue is not None:
+            return self._absoluteValue
+        return self._complexValue
 
     @property
     def references(self):
-- 
2.43.0


From b28ad266d5f03c107b321d1611bbd6381d8cebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:51 +0000
Subject: [PATCH 24/25] fix: pruning undefined symbols skipped the one after
 each removed

---
 h800/symbol_table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 7687b65..088c26d 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -132,11 +132,14 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        undefs = []
+        for symbol in self._undefs:
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+            else:
+                undefs.append(symbol)
+        self._undefs = undefs
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From eec41a5d8d5eb8d28328822efc913382aecfe754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:51 +0000
Subject: [PATCH 25/25] fix: SymbolTable.update could not update any symbol

---
 h800/symbol_table.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 088c26d..ca46482 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -16,17 +16,20 @@ class SymbolTableEntry:
                  segment=None, subsegment=None):
         self._name = name                    # Symbol name
         self._absoluteValue = self._complexValue = None
-        self._symtype = symtype                    # Type of record
-        if symtype == "absolute":
-            self._absoluteValue = value      # Absolute value
-        else:
-            self._complexValue = value       # Complex value
+        self.define(value, symtype)
         self._file = file
         self._line = line
         self._segment = segment
         self._subsegment = subsegment
         self._references = []
 
+    def define(self, value, symtype):
+        self._symtype = symtype                    # Type of record
+        if symtype == "absolute":
+            self._absoluteValue = value      # Absolute value
+        else:
+            self._complexValue = value       # Complex value
+
     @property
     def name(self):
         return self._name
@@ -103,12 +106,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].define(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0

