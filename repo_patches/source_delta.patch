From 3b4df56ed5ad9e13834bd7c0c62cf951eeb72aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:21 +0000
Subject: [PATCH 01/32] fix: let WorkSheet.to_file() choose the encoding like
 every other document

---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..fc04c1d 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform 
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From e5d1d8c76b8194050d089d9a2e8871d17bf135a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:22 +0000
Subject: [PATCH 02/32] fix: remember the path a footprint was loaded from, as
 documented

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..0ded3b3 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -932,7 +932,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From fa82e7cee28722fc3172306186f5daef4387dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:23 +0000
Subject: [PATCH 03/32] fix: serialise the document before truncating the file
 it is saved to

---
 src/kiutils/board.py     | 4 +++-
 src/kiutils/dru.py       | 4 +++-
 src/kiutils/footprint.py | 4 +++-
 src/kiutils/libraries.py | 4 +++-
 src/kiutils/schematic.py | 4 +++-
 src/kiutils/symbol.py    | 4 +++-
 src/kiutils/wks.py       | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..ed0b53c 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,10 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..0df0a2b 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,10 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 0ded3b3..a3465f6 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1005,8 +1005,10 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..d054930 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,10 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..dcb65d4 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,10 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..e1f81a1 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -569,8 +569,10 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index fc04c1d..4324924 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -939,8 +939,10 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialise first: a document that can not be written must not truncate an existing file
+        contents = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(contents)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From 1d51b46a9b487a9788a9a0827f3cb99901a0cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:24 +0000
Subject: [PATCH 04/32] fix: write the opening token of symbol curves

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From 16aaa15dfe9e4f062469fd5475ae87057c3112f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:25 +0000
Subject: [PATCH 05/32] fix: load the diameter of junctions instead of
 overwriting their color

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From 07fb2131448b60f7bcc6b26d3cdbf5a3c35a4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:26 +0000
Subject: [PATCH 06/32] fix: give every NetclassFlag its own position and
 effects

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From 44e00979339f4a4ca145e33c63a466a7c8b4b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:38 +0000
Subject: [PATCH 07/32] fix: write the useAuxOrigin plot setting

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..5327d7b 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {str(self.useAuxOrigin).lower()})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From 14b245a6db6519fcc157e20689655226ec137730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:39 +0000
Subject: [PATCH 08/32] fix: write and load the angle of graphical lines

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..f6c72c3 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -328,6 +328,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -349,7 +350,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From 994c682f305d4706f3a8ae758c3e55357f2d797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 09/32] fix: write the locked state of footprint lines

---
 src/kiutils/items/fpitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..ec14bdc 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -155,8 +155,6 @@ class FpLine():
     stroke: Optional[Stroke] = None   # Used for KiCad >= 7
     """The ``stroke`` describes the line width and style of the line. (version 7)"""
 
-    # FIXME: This is not implemented in to_sexpr() because it does not seem to be used on lines
-    #        in footprints. Further testing required ..
     locked: bool = False
     """The optional ``locked`` token defines if the line cannot be edited"""
 
@@ -222,7 +220,9 @@ class FpLine():
         else:
             width = ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        locked = ' locked' if self.locked else ''
+
+        return f'{indents}(fp_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From 6c760ac9960c52ce0622a2b6b78c9aaf2e5845f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:25 +0000
Subject: [PATCH 10/32] fix: save dimensions as they are (locked, without
 tstamp, any layer name)

---
 src/kiutils/items/dimensions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..ef1f17b 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,10 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From b33d6f592bc84620da3aa242de60bb6b04f01eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:26 +0000
Subject: [PATCH 11/32] fix: save targets as they are (without tstamp, any
 layer name)

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5327d7b..5140b8c 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1101,4 +1101,6 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From 49ca1910fa63a16b291997008858d2b71e7018b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:27 +0000
Subject: [PATCH 12/32] fix: keep segments without tstamp loadable

---
 src/kiutils/items/brditems.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5140b8c..c0f0c6e 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -830,7 +830,9 @@ class Segment():
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
+
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From 90358833da3379b960a2776b9e230c37c3958554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:29 +0000
Subject: [PATCH 13/32] fix: escape quotes in the type of stackup layers

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index c0f0c6e..4661721 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From 1c0f05f331598ccf35f134e55cccc8633737a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:30 +0000
Subject: [PATCH 14/32] fix: load the text of locked graphical texts

---
 src/kiutils/items/gritems.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index f6c72c3..5c7b5af 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,13 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        # The ``locked`` token is written in front of the text
+        textIndex = 1
+        if exp[1] == 'locked' and not isinstance(exp[2], list):
+            object.locked = True
+            textIndex = 2
+        object.text = exp[textIndex]
+        for item in exp[textIndex + 1:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From fb1a82c3cbbce771750a523edb848e1140d85d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:56 +0000
Subject: [PATCH 15/32] fix: do not take the drill offset for its diameter or
 width

---
 src/kiutils/footprint.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index a3465f6..2cac84a 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -259,14 +259,13 @@ class DrillDefinition():
 
         object = cls()
         # Depending on the ``oval`` token, the fields may be shifted ..
-        if exp[1] == 'oval':
+        if len(exp) > 1 and exp[1] == 'oval':
             object.oval = True
-            object.diameter = exp[2]
-            object.width = exp[3]
-        else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
-                object.width = exp[2]
+        sizes = [item for item in exp[1:] if not isinstance(item, list) and item != 'oval']
+        if len(sizes) > 0:
+            object.diameter = sizes[0]
+        if len(sizes) > 1:
+            object.width = sizes[1]
 
         # The ``offset`` token may not be given
         for item in exp:
-- 
2.43.0


From a4fb6e974facd5df3b87551936618d5028ab65af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:57 +0000
Subject: [PATCH 16/32] fix: do not lock groups that are named locked

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f511ec8 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 24813f418b35b088448a575fd67b2f0164b077a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:59 +0000
Subject: [PATCH 17/32] fix: load render caches of empty texts, and their id as
 a number

---
 src/kiutils/items/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f511ec8..cf64dab 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -991,8 +991,10 @@ class RenderCache():
 
         object = cls()
         object.text = exp[1]
-        object.id = exp[2]
-        for item in exp:
+        # The parser leaves numbers at the end of a line as text
+        object.id = float(exp[2])
+        if object.id.is_integer(): object.id = int(object.id)
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 22022ae22f187e0d52c485759c9b755280a64a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:00 +0000
Subject: [PATCH 18/32] fix: do not drop leading zeros of symbol names that
 look like units

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index e1f81a1..43004d1 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9]\d*)_(0|[1-9]\d*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From 6b03d03d1d602ca0a807053d7e5d0e2c329f7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:01 +0000
Subject: [PATCH 19/32] fix: omit the generator of symbol libraries that have
 none

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 43004d1..4100546 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -587,7 +587,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 0d272b191d663ac0ab6e02fa0002ceb5ff5a38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:02 +0000
Subject: [PATCH 20/32] fix: omit thermal settings of zone fills that have none

---
 src/kiutils/items/zones.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..0654287 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -237,6 +237,8 @@ class FillSettings():
 
         yes = ' yes' if self.yes else ''
         mode = f' (mode {self.mode})' if self.mode is not None else ''
+        tg = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        tbw = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
         smoothing = f' (smoothing {self.smoothingStyle})' if self.smoothingStyle is not None else ''
         radius = f' (radius {self.smoothingRadius})' if self.smoothingRadius is not None else ''
         irm = f' (island_removal_mode {self.islandRemovalMode})' if self.islandRemovalMode is not None else ''
@@ -249,7 +251,7 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        return f'{indents}(fill{yes}{mode}{tg}{tbw}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From 48fd75012c7f910dbb67dbf7c618fe60a613df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:03 +0000
Subject: [PATCH 21/32] fix: load very small and very large numbers as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..c1af3a8 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From d546bb197cd784bb808221f8f329204c28be79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:04 +0000
Subject: [PATCH 22/32] fix: do not invent an edit time for loaded footprints
 that have none

---
 src/kiutils/footprint.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 2cac84a..e8c590f 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -725,7 +725,7 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
     """The ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
@@ -857,6 +857,7 @@ class Footprint():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+        object.tedit = None
         object.libId = exp[1]
         for item in exp[2:]:
             if not isinstance(item, list):
@@ -1034,7 +1035,10 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        if self.tedit is not None:
+            expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        elif self.tstamp is not None:
+            expression += f'{indents} {tstamp}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From 325e40a419db323c411e856c3cffd0b45f871f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:05 +0000
Subject: [PATCH 23/32] fix: do not accept files that end inside of a quoted
 string

---
 src/kiutils/utils/sexpr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index c1af3a8..b4b82f0 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -36,6 +36,8 @@ def parse_sexp(sexp):
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
         elif term == 's':
+            assert value[0] != '"' or re.search(r'(?<!\\)"', sexp[termtypes.start('s') + 1:]), \
+                "Trouble with unterminated string"
             out.append(value)
         else:
             raise NotImplementedError("Error: %r" % (term, value))
-- 
2.43.0


From d6a871c54dc1b0c99b7fe4158849f6e654135629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:31 +0000
Subject: [PATCH 24/32] fix: do not take top-level symbols for units because of
 their name

---
 src/kiutils/schematic.py | 2 +-
 src/kiutils/symbol.py    | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index dcb65d4..8072a30 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -143,7 +143,7 @@ class Schematic():
             if item[0] == 'title_block': object.titleBlock = TitleBlock().from_sexpr(item)
             if item[0] == 'lib_symbols':
                 for symbol in item[1:]:
-                    object.libSymbols.append(Symbol().from_sexpr(symbol))
+                    object.libSymbols.append(Symbol().from_sexpr(symbol).as_top_level())
             if item[0] == 'junction': object.junctions.append(Junction().from_sexpr(item))
             if item[0] == 'no_connect': object.noConnects.append(NoConnect().from_sexpr(item))
             if item[0] == 'bus_entry': object.busEntries.append(BusEntry().from_sexpr(item))
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 4100546..1f5cad9 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -407,6 +407,12 @@ class Symbol():
 
         return object
 
+    def as_top_level(self) -> Symbol:
+        """Make this a top-level symbol: what looks like unit and style id is part of its name then"""
+        if self.unitId is not None:
+            self.entryName, self.unitId, self.styleId = self.libId, None, None
+        return self
+
     @classmethod
     def create_new(cls, id: str, reference: str, value: str,
                         footprint: str = "", datasheet: str = "") -> Symbol:
@@ -549,7 +555,7 @@ class SymbolLib():
         for item in exp[1:]:
             if item[0] == 'version': object.version = item[1]
             if item[0] == 'generator': object.generator = item[1]
-            if item[0] == 'symbol': object.symbols.append(Symbol().from_sexpr(item))
+            if item[0] == 'symbol': object.symbols.append(Symbol().from_sexpr(item).as_top_level())
         return object
 
     def to_file(self, filepath = None, encoding: Optional[str] = None):
-- 
2.43.0


From ad644e1911959e84ae6e76ecc4fb02c3249e0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:07 +0000
Subject: [PATCH 25/32] fix: do not truncate the file when the encoding can not
 represent the document

---
 src/kiutils/board.py         |  3 ++-
 src/kiutils/dru.py           |  3 ++-
 src/kiutils/footprint.py     |  3 ++-
 src/kiutils/libraries.py     |  3 ++-
 src/kiutils/schematic.py     |  2 ++
 src/kiutils/symbol.py        |  3 ++-
 src/kiutils/utils/strings.py | 21 ++++++++++++++++++++-
 src/kiutils/wks.py           |  3 ++-
 8 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index ed0b53c..b871a86 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -24,7 +24,7 @@ from kiutils.items.zones import Zone
 from kiutils.items.brditems import *
 from kiutils.items.gritems import *
 from kiutils.items.dimensions import Dimension
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import check_encoding, dequote
 from kiutils.utils import sexpr
 from kiutils.footprint import Footprint
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR, KIUTILS_CREATE_NEW_GENERATOR_STR
@@ -239,6 +239,7 @@ class Board():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 0df0a2b..4bb73ff 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import check_encoding, dequote
 
 @dataclass
 class Constraint():
@@ -291,6 +291,7 @@ class DesignRules():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index e8c590f..850cdb1 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -27,7 +27,7 @@ from kiutils.items.common import Image, Position, Coordinate, Net, Group, Font
 from kiutils.items.fpitems import *
 from kiutils.items.gritems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote, remove_prefix
+from kiutils.utils.strings import check_encoding, dequote, remove_prefix
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -1007,6 +1007,7 @@ class Footprint():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index d054930..2bafe75 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -16,7 +16,7 @@ from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
 
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import check_encoding, dequote
 from kiutils.utils import sexpr
 
 @dataclass
@@ -195,6 +195,7 @@ class LibTable():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index 8072a30..ae788da 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -23,6 +23,7 @@ from kiutils.items.common import Image, PageSettings, TitleBlock
 from kiutils.items.schitems import *
 from kiutils.symbol import Symbol
 from kiutils.utils import sexpr
+from kiutils.utils.strings import check_encoding
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -228,6 +229,7 @@ class Schematic():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 1f5cad9..3f0074d 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -22,7 +22,7 @@ import re
 from kiutils.items.common import Effects, Position, Property, Font
 from kiutils.items.syitems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import check_encoding, dequote
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -577,6 +577,7 @@ class SymbolLib():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
diff --git a/src/kiutils/utils/strings.py b/src/kiutils/utils/strings.py
index e2e97a7..864f663 100644
--- a/src/kiutils/utils/strings.py
+++ b/src/kiutils/utils/strings.py
@@ -10,6 +10,11 @@ Major changes:
     28.02.2022 - created
 """
 
+from __future__ import annotations
+
+import io
+from typing import Optional
+
 def dequote(input: str) -> str:
     """Escapes double-quotes in a string using a backslash
 
@@ -33,4 +38,18 @@ def remove_prefix(input: str, prefix: str) -> str:
     Returns:
         - str: String with removed prefix, or the ``input`` string as is, if the prefix was not found
     """
-    return input[len(prefix):] if input.startswith(prefix) else input
\ No newline at end of file
+    return input[len(prefix):] if input.startswith(prefix) else input
+
+
+def check_encoding(input: str, encoding: Optional[str]):
+    """Checks that a text file opened with the given encoding would take the string
+
+    Args:
+        - input (str): String to be written
+        - encoding (str, optional): Encoding as taken by ``open()``
+
+    Raises:
+        - LookupError: If the encoding does not exist
+        - UnicodeError: If the string can not be represented in the encoding
+    """
+    io.TextIOWrapper(io.BytesIO(), encoding=encoding).write(input)
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index 4324924..774ed67 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.items.common import Justify
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import check_encoding, dequote
 from kiutils.utils import sexpr
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
@@ -941,6 +941,7 @@ class WorkSheet():
 
         # Serialise first: a document that can not be written must not truncate an existing file
         contents = self.to_sexpr()
+        check_encoding(contents, encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(contents)
 
-- 
2.43.0


From f90c1a5da4be66f632ccddb502c9e3d9eb662985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:19 +0000
Subject: [PATCH 26/32] fix: load edit times that consist of digits only as
 text, like all others

---
 src/kiutils/footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 850cdb1..da6e94c 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -868,7 +868,7 @@ class Footprint():
             if item[0] == 'version': object.version = item[1]
             if item[0] == 'generator': object.generator = item[1]
             if item[0] == 'layer': object.layer = item[1]
-            if item[0] == 'tedit': object.tedit = item[1]
+            if item[0] == 'tedit': object.tedit = str(item[1])
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'descr': object.description = item[1]
             if item[0] == 'tags': object.tags = item[1]
-- 
2.43.0


From 41663ad69542d4a40af82d9bcad9de9dcdef142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:18 +0000
Subject: [PATCH 27/32] fix: refuse files cut off directly after the closing
 quote of a text

A file ending in a quoted text that holds an escaped quote and closing
brackets was read as complete: the quote at the end of the data was not
taken for a closing one, so the brackets inside of the text were used.
---
 src/kiutils/utils/sexpr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index b4b82f0..8a0fbc8 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -11,7 +11,7 @@ term_regex = r'''(?mx)
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
-        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
+        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)|\Z))|
         (?P<s>[^(^)\s]+)
        )'''
 
@@ -36,7 +36,7 @@ def parse_sexp(sexp):
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
         elif term == 's':
-            assert value[0] != '"' or re.search(r'(?<!\\)"', sexp[termtypes.start('s') + 1:]), \
+            assert value[0] != '"' or re.search(r'(?<!\\)"(?!\0)', sexp[termtypes.start('s') + 1:]), \
                 "Trouble with unterminated string"
             out.append(value)
         else:
-- 
2.43.0


From efdb7c3d266d342d055aee0d21d1e7bb6eddb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:33 +0000
Subject: [PATCH 28/32] fix: keep footprint names that consist of digits only
 as text

The name of a KiCad 5 footprint given as a bare number became a number
when loaded, but text after the document was saved and loaded again.
---
 src/kiutils/footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index da6e94c..e777d1d 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -700,7 +700,7 @@ class Footprint():
             self.entryName = parse_symbol_id.group(2)
         else:
             self.libraryNickname = None
-            self.entryName = symbol_id
+            self.entryName = str(symbol_id)
 
     libraryNickname: Optional[str] = None
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
-- 
2.43.0


From 3cc9823b06204f092c73aa8ee210479c1ded5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:07 +0000
Subject: [PATCH 29/32] fix: load whole numbers beyond 2^53 with all of their
 digits

---
 src/kiutils/utils/sexpr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 8a0fbc8..8847fd9 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -31,7 +31,8 @@ def parse_sexp(sexp):
             out.append(tmpout)
         elif term == 'num':
             v = float(value)
-            if v.is_integer(): v = int(v)
+            # Whole numbers are taken from their digits, a float would round large ones
+            if v.is_integer(): v = int(value) if value.lstrip('+-').isdigit() else int(v)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From 05ea987945c0952d2cf96bb2dd5d5554e90dbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:27 +0000
Subject: [PATCH 30/32] fix: load bare numbers followed directly by a line
 break or tab as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 8847fd9..5cf778d 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\ \)])|[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+(?:\.\d+)?[eE][+-]\d+(?=[\s\)])|[+-]?\d+\.\d+(?=[\s\)])|\-?\d+(?=[\s\)]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)|\Z))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From 7de48ae9440b77a324eeddcb825156b91f17a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:02 +0000
Subject: [PATCH 31/32] fix: stamp new footprints with the time they are
 created, not the local time of the import

---
 src/kiutils/footprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index e777d1d..738db1c 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -725,7 +725,8 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    tedit: Optional[str] = field(default_factory=lambda: remove_prefix(hex(calendar.timegm(
+        datetime.datetime.now(datetime.timezone.utc).utctimetuple())), '0x'))
     """The ``tedit`` token defines a the last time the footprint was edited"""
 
     tstamp: Optional[str] = None
-- 
2.43.0


From c688f319fe5456c8155f037bca578992e4c68320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:11 +0000
Subject: [PATCH 32/32] fix: load zones whose connect_pads token has no
 clearance

---
 src/kiutils/items/zones.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 0654287..ec662bc 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -589,11 +589,9 @@ class Zone():
                 object.hatch = Hatch(style=item[1], pitch=item[2])
             if item[0] == 'priority': object.priority = item[1]
             if item[0] == 'connect_pads':
-                if len(item) == 2:
-                    object.clearance = item[1][1]
-                else:
-                    object.connectPads = item[1]
-                    object.clearance = item[2][1]
+                for token in item[1:]:
+                    if isinstance(token, list): object.clearance = token[1]
+                    else: object.connectPads = token
             if item[0] == 'min_thickness': object.minThickness = item[1]
             if item[0] == 'filled_areas_thickness': object.filledAreasThickness = item[1]
             if item[0] == 'keepout': object.keepoutSettings = KeepoutSettings().from_sexpr(item)
-- 
2.43.0

