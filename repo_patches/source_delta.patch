From 0cd733f8e68a6c7189f65793e919d9993b20ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:30 +0000
Subject: [PATCH 01/25] fix: refuse bit-field values that are negative or one
 past the maximum

A value of exactly 2**width was accepted and spilled into the neighbouring
field (e.g. InstructionWord(1, 4096) changed the command code), and negative
values were stored as they were.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index a4af429..4704914 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -110,7 +110,7 @@ class BitField:
             raise ValueError("Width is greater than maximum allowed!")
         self._maxval = 2 ** width - 1
         self._value = value
-        if self._value > self._maxval:
+        if self._value < 0 or self._value > self._maxval:
             raise ValueError("Value is greater than maximum allowed by "
                              "bit-field width!")
         self._numbering = numbering
@@ -315,7 +315,7 @@ class BitField:
             width = self.width
         if width < 0 or width > self.maxval:
             raise ValueError("Illegal bit-field width %d!" % self.width)
-        if value > 2 ** width:
+        if value < 0 or value > 2 ** width - 1:
             raise ValueError("Value is greater than allowed for %d-bit field!"
                              % width)
 
-- 
2.43.0


From e0d8551eec808fe5e917cff14f35bb6a66d26315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:31 +0000
Subject: [PATCH 02/25] fix: mask the requested bits in slices of LSB-left
 bit-fields

_bitmask() took the right-hand end of the range as its LSB, which is only
true for MSB-left fields, so slices of LSB-left fields read and overwrote
the wrong bits.
---
 h800/bitfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 4704914..735472c 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -326,7 +326,7 @@ class BitField:
         if width == self._width:
             shift = 0
         else:
-            shift = self._shift(rend)
+            shift = self._shift(self._lsbIndex(rstart, rend))
         bitmask = (2 ** width - 1) << shift
         # print("BM: %d:%d | %d:%d | S=%d | B=0x%x" %
         #       (start, end, rstart, rend, shift, bitmask))
-- 
2.43.0


From 3f2fb3f856a38098e6e433af154244c027d444b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:32 +0000
Subject: [PATCH 03/25] fix: correct bit-range predicates

isRange() compared the (right-aligned) field with an unshifted mask, so ranges
not touching the LSB were never reported set; isRangeClr() reported any range
with at least one 0 bit as clear.
---
 h800/bitfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index 735472c..dc36865 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -443,11 +443,11 @@ class BitField:
         if value not in (0, 1):
             raise ValueError("Bit-field Value must be 0 or 1!")
         subfield = self.__getitem__(slice(start, end))
-        bitmask = self._bitmask(start, end)
+        rstart, rend = self._getRange(start, end)
         if value == 0:
             return True if subfield == 0 else False
         else:
-            setval = int(bitmask)
+            setval = 2 ** (rend - rstart + 1) - 1
             return True if subfield == setval else False
 
     def isRangeSet(self, start, end):
@@ -456,4 +456,4 @@ class BitField:
 
     def isRangeClr(self, start, end):
         "Return True if the specified range of bits are all 0."
-        return not self.isRangeSet(start, end)
+        return self.isRange(start, end, 0)
-- 
2.43.0


From 588502b5b1ae1f7900d3f010969b21e7eae23aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:33 +0000
Subject: [PATCH 04/25] fix: set(0) and clear(0) act on bit 0 only

Index 0 was taken for 'no index', changing every bit of the field.
---
 h800/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/bitfield.py b/h800/bitfield.py
index dc36865..24d8320 100755
--- a/h800/bitfield.py
+++ b/h800/bitfield.py
@@ -410,7 +410,7 @@ class BitField:
 
     def set(self, index=None):
         "Set the specified bit (or all bits if not specified) to 1."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 1)
         else:
@@ -418,7 +418,7 @@ class BitField:
 
     def clear(self, index=None):
         "Set the specified bit (or all bits if not specified) to 0."
-        if index:
+        if index is not None:
             self._checkIndex(index)
             self.__setitem__(index, 0)
         else:
-- 
2.43.0


From cb206c1fb21666d20247ff0ceb05e5dbe8017b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:58 +0000
Subject: [PATCH 05/25] fix: let a memory bank be iterated more than once

The bank was its own iterator and never rewound, so every iteration after the
first yielded nothing.
---
 h800/memory.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index ee4fe3e..287075e 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -15,7 +15,6 @@ class MemoryBank:
         for addr in range(self.BANK_SIZE):
             self._data[addr] = Word(0)
         self._width = self.MEMORY_WIDTH
-        self._current = 0
 
     def _checkValue(self, value):
         if value < 0 or value > (2 ** self._width - 1):
@@ -64,14 +63,8 @@ class MemoryBank:
         return len(self._data)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(self._data):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._data[self._current - 1]
+        for addr in range(len(self._data)):
+            yield self._data[addr]
 
     def __repr__(self):
         text = ""
-- 
2.43.0


From 350d63af4f5aa4cbc6c159563ddc528b6c82cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:00 +0000
Subject: [PATCH 06/25] fix: clear register groups every time, not just the
 first

RegisterGroup and Registers were their own iterators and never rewound;
clear() iterates, so a second clear() (or a clear() after a loop) silently
did nothing.
---
 h800/registers.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index cf8aa3e..fdbc0e8 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -145,7 +145,6 @@ class RegisterGroup:
         for regname in REGISTERS:
             self._registers[REGISTERS[regname]] = \
                 Register(name=regname, width=width)
-        self._current = 0
 
     @property
     def width(self):
@@ -175,14 +174,8 @@ class RegisterGroup:
         return len(self._registers)
 
     def __iter__(self):
-        return self
-
-    def __next__(self):
-        if self._current >= len(REGISTERS):
-            raise StopIteration
-        else:
-            self._current += 1
-            return self._registers[self._current - 1]
+        for number in range(len(REGISTERS)):
+            yield self._registers[number]
 
     def __repr__(self):
         text = ""
@@ -249,5 +242,5 @@ class Registers:
         return text
 
     def clear(self):
-        for group in self:
+        for group in self._registers.values():
             group.clear()
-- 
2.43.0


From a74172b57088cbdc543d8c52b80848858dd69e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:01 +0000
Subject: [PATCH 07/25] fix: register assignment by name and number

RegisterGroup.__setitem__ had its name and number branches swapped: assigning
by number raised KeyError and assigning by name added a 33rd register.
Registers.__setitem__ accepted any group number.
---
 h800/registers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/h800/registers.py b/h800/registers.py
index fdbc0e8..bf10136 100755
--- a/h800/registers.py
+++ b/h800/registers.py
@@ -166,9 +166,13 @@ class RegisterGroup:
         if isinstance(key, slice):
             raise ValueError("Slices not supported!")
         if isinstance(key, str):
-            self._registers[key] = value
-        else:
+            if key not in REGISTERS:
+                raise ValueError("Invalid register name %s!" % key)
             self._registers[REGISTERS[key]] = value
+        else:
+            if key < 0 or key >= len(REGISTERS):
+                raise ValueError("Invalid register number %d!" % key)
+            self._registers[key] = value
 
     def __len__(self):
         return len(self._registers)
@@ -220,6 +224,8 @@ class Registers:
         if not isinstance(key, int):
             raise ValueError("Invalid register group number %s!" % key)
         else:
+            if key < 0 or key >= self._NUM_GROUPS:
+                raise ValueError("Invalid register group number %d!" % key)
             self._registers[key] = value
 
     def __len__(self):
-- 
2.43.0


From adccaebeab9cfb066b9fe59460b1bedd23d7b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:19 +0000
Subject: [PATCH 08/25] fix: keep the line terminator out of card fields

The raw line was sliced instead of the card's text, so fields of cards read
from a file contained a newline.
---
 h800/punchcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 06cf50e..4336429 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -65,7 +65,7 @@ class PunchCard:
                 self._layout.append((fstart, fwidth))
             self._fields = []
             for s, w in self._layout:
-                self._fields.append(line[s-1:s-1+w])
+                self._fields.append(self._line[s-1:s-1+w])
             self._strippedFields = []
             self._record = {}
             if linenum != 0:
-- 
2.43.0


From 44e746ebd5b21b1393e5e5a8a3a5600754cf61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:20 +0000
Subject: [PATCH 09/25] fix: keep column 9 of P, R and L card remarks

The text of these cards starts in column 9, i.e. offset 8; its first character
was dropped.
---
 h800/arguscard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/arguscard.py b/h800/arguscard.py
index a1e19c0..33e61e9 100755
--- a/h800/arguscard.py
+++ b/h800/arguscard.py
@@ -41,9 +41,9 @@ class Card(punchcard.PunchCard):
             self._record["operand2"] = None
             self._record["operand3"] = None
             self._record["misc"] = None
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         if self.column1 == 'L':
-            self._record["remarks"] = self._line[9:].strip()
+            self._record["remarks"] = self._line[8:].strip()
         self._record["instruction"] = self._record["operation"]
         if self._record["operation"] and ',' in self._record["operation"]:
             self._record["instruction"] = \
-- 
2.43.0


From d2ff282dec8f381556c25235d97c7165435fe669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:21 +0000
Subject: [PATCH 10/25] fix: make meta-comment cards usable

A card made from a '#' line had no fields or record at all, so reading them,
or constructing an ARGUS card from such a line, raised AttributeError.
---
 h800/punchcard.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/h800/punchcard.py b/h800/punchcard.py
index 4336429..7672b29 100755
--- a/h800/punchcard.py
+++ b/h800/punchcard.py
@@ -55,7 +55,12 @@ class PunchCard:
         self._linenum = linenum
         self._verbose = verbose
         self._comment = line.startswith('#')
-        if not self._comment:
+        self._fields = []
+        self._strippedFields = []
+        self._record = {}
+        if self._comment:
+            self._record = dict.fromkeys(fieldnames)
+        else:
             for i, col in enumerate(fields):
                 fstart = col
                 if i == len(fields) - 1:
@@ -63,11 +68,8 @@ class PunchCard:
                 else:
                     fwidth = fields[i+1] - col
                 self._layout.append((fstart, fwidth))
-            self._fields = []
             for s, w in self._layout:
                 self._fields.append(self._line[s-1:s-1+w])
-            self._strippedFields = []
-            self._record = {}
             if linenum != 0:
                 self._record["linenum"] = linenum
             for i, field in enumerate(self._fields):
-- 
2.43.0


From 2e97e3c54542e7ec97ff73e83782bf50d430851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:39 +0000
Subject: [PATCH 11/25] fix: report multiply-defined symbols

The previous definition was looked up under the symbol instead of its segment
and subsegment, so it was never found and a redefinition silently replaced
the original.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 631e9bc..44b28ef 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -277,7 +277,7 @@ def buildSymbolTable(filename, symtab, verbose=False):
                 symtab[tagName][seg][subseg] = {}
                 symtab[tagName][seg][subseg][symtype] = symtabEntry
             else:
-                prevdef = symtab[tagName]
+                prevdef = symtab[tagName][seg][subseg]
                 if symtype not in prevdef.keys():
                     symtab[tagName][seg][subseg][symtype] = symtabEntry
                 else:
-- 
2.43.0


From c1d0c8496c4e5be6c47790780b9e3cec83fe98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:41 +0000
Subject: [PATCH 12/25] fix: keep segments of different files apart

The segment name was the file name up to its first dot, so './a' and './b' (or
'PASS_1.argus' and 'PASS_1.5.argus') shared one segment and their symbols were
mixed up.
---
 h800/symbol_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 44b28ef..264962c 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+import os.path
 import sys
 from fuzzywuzzy import fuzz
 from fuzzywuzzy import process
@@ -177,7 +178,7 @@ class SymbolTable:
 
 def buildSymbolTable(filename, symtab, verbose=False):
     """Build the symbol table."""
-    seg = filename.split('.')[0]  # Default: name of the first file.
+    seg = os.path.splitext(filename)[0]  # Default: name of the first file.
     subsegs = []        # List of subsegments.
     subseg = "1"        # Current subsegment, default is 1 (no starting SETLOC)
     d = Deck(file=filename, verbose=verbose)
-- 
2.43.0


From 76b2e10dfc69998039171f98f2a6d1c366c7f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:43 +0000
Subject: [PATCH 13/25] fix: look through all segments for absolute definitions

The 'found' flag was not reset between symbols, so after the first hit only
the first segment of each later symbol was considered.
---
 h800/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index 264962c..baaf09e 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -324,8 +324,8 @@ def checkSymbolTable(symtab, verbose=False, complexOnlyError=False):
 def getAbsoluteSymbols(symtab):
     """Return a list of the symbols that have absolute definitions."""
     syms = []
-    found = False
     for symbol in sorted(symtab.keys()):
+        found = False
         for seg in sorted(symtab[symbol].keys()):
             for subseg in sorted(symtab[symbol][seg].keys()):
                 if "simple" in symtab[symbol][seg][subseg].keys():
-- 
2.43.0


From eb98ab13bba662e3c2289a77f82ed9095fca17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:44 +0000
Subject: [PATCH 14/25] fix: make symbol values readable and updatable

SymbolTableEntry.value and SymbolTable.update() referred to attributes that do
not exist and always raised AttributeError.
---
 h800/symbol_table.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index baaf09e..d09df36 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -33,7 +33,9 @@ class SymbolTableEntry:
 
     @property
     def value(self):
-        return self._value
+        if self._complexValue is not None:
+            return self._complexValue
+        return self._absoluteValue
 
     @property
     def references(self):
@@ -68,6 +70,13 @@ class SymbolTableEntry:
     def isMultiple(self):
         return self.isAbsolute() and self.isComplex()
 
+    def update(self, value, symtype=None):
+        self._symtype = symtype
+        if symtype == "absolute":
+            self._absoluteValue = value
+        else:
+            self._complexValue = value
+
     def addReference(self, ref):
         self._references.append(ref)
 
@@ -101,12 +110,9 @@ class SymbolTable:
     def update(self, name, value=None, symtype=None):
         if name:
             if name not in list(self._symbols.keys()):
-                self.context.error("symbol \"%s\" not defined!" % (name))
+                print("ERROR: Symbol \"%s\" not defined!" % (name))
             else:
-                entry = self._symbols[name]
-                entry.value = value
-                entry.type = symtype
-                self._symbols[name] = entry
+                self._symbols[name].update(value, symtype)
 
     def resolve(self, maxPasses=10):
         nPrevUndefs = nUndefs = len(self._undefs)
-- 
2.43.0


From d19b99e8a97290d0fbbca2dd9f17562c48418245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:56:45 +0000
Subject: [PATCH 15/25] fix: prune every symbol that has become defined

Entries were deleted from the list while it was being enumerated, which skipped
the symbol following each removed one.
---
 h800/symbol_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index d09df36..eb245d4 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -136,11 +136,11 @@ class SymbolTable:
         # Prune the undefs list.
         numUndefs = len(self._undefs)
         print("Pruning undefined symbols list (%d undefs)" % numUndefs)
-        for i, symbol in enumerate(self._undefs):
+        for symbol in list(self._undefs):
             entry = self._symbols[symbol]
             if entry.isValid():
                 print("Removing %s from undefined symbols list" % (symbol))
-                del self._undefs[i]
+                self._undefs.remove(symbol)
         print("Removed %d symbols from undef list" %
               (numUndefs - len(self._undefs)))
 
-- 
2.43.0


From c9dcfa3366fe567d92a65ad2233fb6614567599e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:09 +0000
Subject: [PATCH 16/25] fix: genlines stops at the end number

When the step did not divide the range, one line number past the requested end
was generated.
---
 tools/genlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genlines.py b/tools/genlines.py
index c530463..fcaf3f8 100755
--- a/tools/genlines.py
+++ b/tools/genlines.py
@@ -69,7 +69,7 @@ def main():
     if len(args) >= 5:
         endcol = int(args[4])
 
-    for i in range(start, end+step, step):
+    for i in range(start, end + (1 if step > 0 else -1), step):
         print("%s%s%s" % ((startcol - 1) * ' ',
                           "{num:{fill}{width}}".format(num=i, fill='0',
                                                        width=width),
-- 
2.43.0


From 90fe35d556c3e2c19658aefcfe2a286c1a0e32c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:10 +0000
Subject: [PATCH 17/25] fix: genpages keeps a blank column 8 blank

With a log section card whose column 8 is blank, the text 'None' was written
into the generated cards, shifting the section name.
---
 tools/genpages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/genpages.py b/tools/genpages.py
index b063d50..e9cc593 100755
--- a/tools/genpages.py
+++ b/tools/genpages.py
@@ -36,7 +36,7 @@ def main():
     d = h800.arguscard.Deck(inlines)
 
     logsection = d.log_section
-    logsectioncol8 = d.log_section_col8
+    logsectioncol8 = d.log_section_col8 or ' '
 
     for line in inlines:
         if logsection is None:
-- 
2.43.0


From 95fa7ce24f232a963d0270b78ef4a9b92aab2970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:12 +0000
Subject: [PATCH 18/25] fix: name the class that implements TS

The opcode table referred to a class that does not exist.
---
 h800/instructions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/instructions.py b/h800/instructions.py
index 06c3f07..361eaab 100755
--- a/h800/instructions.py
+++ b/h800/instructions.py
@@ -173,7 +173,7 @@ OPCODES = {
     "TX":   Opcode("TX", "Transfer",
                    0b10, 0b1, 0o20, "maskable"),
 
-    "TS":   Opcode("TS", "TransferAndChangeSequence",
+    "TS":   Opcode("TS", "TransferChangeSequence",
                    0b10, 0b1, 0o04, "maskable"),
 
     "HA":   Opcode("HA", "HalfAdd",
-- 
2.43.0


From 6d5ead6a0f4f1904eeda2323f0784af78cb0e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:13 +0000
Subject: [PATCH 19/25] fix: parse counts the symbol errors of every file

The error count was overwritten for each file, so only the last file's symbol
errors were included in the total.
---
 tools/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/parse.py b/tools/parse.py
index 8a59c7b..46147e3 100755
--- a/tools/parse.py
+++ b/tools/parse.py
@@ -44,10 +44,11 @@ def main():
 
     symtab = {}
     for filename in args:
-        symtab, errcount = buildSymbolTable(filename, symtab,
-                                            verbose=opts.verbose)
+        symtab, symerrs = buildSymbolTable(filename, symtab,
+                                           verbose=opts.verbose)
+        errcount += symerrs
         print("%s: %d errors encountered building symbol table." %
-              (filename, errcount), file=sys.stderr)
+              (filename, symerrs), file=sys.stderr)
 
     for filename in args:
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
-- 
2.43.0


From 7584038fd1e01f6a89b1cf5d4048b604ddafee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:15 +0000
Subject: [PATCH 20/25] fix: count instructions of a source that has none

check-instructions --count divided by zero.
---
 tools/check-instructions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check-instructions.py b/tools/check-instructions.py
index 850422a..b854270 100755
--- a/tools/check-instructions.py
+++ b/tools/check-instructions.py
@@ -110,13 +110,13 @@ def main():
                 if opts.unused and freqtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, freqtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
         else:
             for inst in sorted(instrtab.keys()):
                 if opts.unused and instrtab[inst] != 0 or not opts.unused:
                     print("%-8s %6d  %6.2f%%" %
                           (inst, instrtab[inst],
-                           100 * float(freqtab[inst])/float(instrcount)))
+                           100 * float(freqtab[inst])/float(instrcount or 1)))
 
     if opts.unused:
         print("\nUnused Instructions:")
-- 
2.43.0


From 7026e6f7c1c7fa04b2ae7d0220fbc5a41981d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:16 +0000
Subject: [PATCH 21/25] fix: name the listing of a file without an extension
 after it

The listing of 'yul' was written to '.lst' and that of 'v1.2/yul' to 'v1.lst',
so listings of different sources overwrote each other.
---
 tools/listing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/listing.py b/tools/listing.py
index 0957557..95285cc 100755
--- a/tools/listing.py
+++ b/tools/listing.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -28,7 +29,7 @@ def main():
         sys.exit(1)
 
     for filename in args:
-        listfile = '.'.join(filename.split('.')[:-1]) + ".lst"
+        listfile = os.path.splitext(filename)[0] + ".lst"
 
         d = h800.arguscard.Deck(file=filename, verbose=opts.verbose)
 
-- 
2.43.0


From 9889b339e03f3a9435b0bfe04e2cea8d472ce1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:57:18 +0000
Subject: [PATCH 22/25] fix: list-symbols names the defining file in full

The file name was cut at its first dot, so symbols of './a.argus' were listed
without a file and those of 'PASS_1.5.argus' under PASS_1.
---
 tools/list-symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/list-symbols.py b/tools/list-symbols.py
index 0317b3b..3199a0f 100755
--- a/tools/list-symbols.py
+++ b/tools/list-symbols.py
@@ -9,6 +9,7 @@
 # This is intended for debugging assembler development.
 
 from __future__ import print_function
+import os.path
 import sys
 from optparse import OptionParser
 
@@ -46,7 +47,7 @@ def main():
                     print("        %-9s %1s %-38s      %s" %
                           ("<%s>" % symtype,
                            symdata["tagtype"],
-                           "%s:%s" % (symdata["file"].split('.')[0],
+                           "%s:%s" % (os.path.splitext(symdata["file"])[0],
                                       symdata["line"]),
                            symdata["card"]))
 
-- 
2.43.0


From f5deb75c79ce296aa7b83db83ab7ca74b700e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:00:54 +0000
Subject: [PATCH 23/25] fix: give the asterisk its character code

Code 101100 (44) had no character; the ARGUS manual (Section IV, Symbolic
Tags) lists it as the asterisk.
---
 h800/charset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/h800/charset.py b/h800/charset.py
index 1bfc868..35f6131 100755
--- a/h800/charset.py
+++ b/h800/charset.py
@@ -50,7 +50,7 @@ CHARSET = {
     41: 'R',
     42: '#',
     43: '$',
-    44: None,
+    44: '*',
     45: '"',
     46: ' ',
     47: ' ',
-- 
2.43.0


From edbe1aec87e4e312514063a46ca786de2cb5484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:18 +0000
Subject: [PATCH 24/25] fix: fuzzy search when no symbol has a simple
 definition

The fuzzy matcher raises on an empty list of choices, so check-symbols -c
and find-symbols -f crashed instead of reporting no matches.
---
 h800/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/h800/symbol_table.py b/h800/symbol_table.py
index eb245d4..d50cd1f 100755
--- a/h800/symbol_table.py
+++ b/h800/symbol_table.py
@@ -370,6 +370,8 @@ def findSymbolDef(symtab, name, symtype=None, begin=False, end=False,
         if fuzzy:
             # Try fuzzy finder.
             absSyms = getAbsoluteSymbols(symtab)
+            if not absSyms:
+                return []
             matches = process.extract(name, absSyms, limit=10)
             if len(matches) > 0:
                 matchList = []
-- 
2.43.0


From 6e0feff336add4a3524a10f2e2e596acc616a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:54 +0000
Subject: [PATCH 25/25] fix: refuse a block write past the end of a memory bank
 before changing any word

---
 h800/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/h800/memory.py b/h800/memory.py
index 287075e..1d75da7 100755
--- a/h800/memory.py
+++ b/h800/memory.py
@@ -54,8 +54,9 @@ class MemoryBank:
 
     def __setitem__(self, key, value):
         if isinstance(key, slice):
-            for i in range(key.start, key.stop):
-                self._data[i].value = value
+            words = [self._data[i] for i in range(key.start, key.stop)]
+            for word in words:
+                word.value = value
         else:
             self._data[key].value = value
 
-- 
2.43.0

