From 17ac84ec58c8083b2f7cf83e8f2cd0a17ad1f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 01/96] fix: terminate the &quot; reference in escaped
 attribute values

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From 7e17a05de09a565f11da48d5f39a6b84c7397163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 02/96] fix: escape the image target used as title when only a
 size is given

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..13a7742 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -273,7 +273,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From 8969dd4a77205bf80bf88df7f454cfa55b8c0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 03/96] fix: escape headlines in the table of contents and in
 heading anchors

---
 creole/emitter/creol2html_emitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 13a7742..74820a2 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = escape(nested_headlines, {'"': '&quot;'})
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
@@ -248,7 +250,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From 968a6e47bd016b8e81a6fa15fb4f8fda65e315d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 04/96] fix: don't store the table of contents of one document
 in the caller's macros

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 74820a2..c31c02c 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -120,13 +120,11 @@ class HtmlEmitter:
                     self.toc = self.macros["toc"]
                 else:
                     self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
             else:
                 try:
                     self.toc = getattr(self.macros, "toc")
                 except AttributeError:
                     self.toc = TableOfContent()
-                    self.macros.toc = self.toc
 
         if verbose is None:
             self.verbose = 1
@@ -303,7 +301,9 @@ class HtmlEmitter:
         macro_kwargs["text"] = text
 
         exc_info = None
-        if isinstance(self.macros, dict):
+        if macro_name == "toc":
+            macro = self.toc
+        elif isinstance(self.macros, dict):
             try:
                 macro = self.macros[macro_name]
             except KeyError:
-- 
2.43.0


From 1ecb04d562dbc8e2ccacb7cd74264348f8166ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 05/96] fix: report a toc depth that is no number as macro
 error instead of crashing

---
 creole/emitter/creol2html_emitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index c31c02c..35f3a14 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,6 +27,9 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
+        if depth is not None and not isinstance(depth, int):
+            raise TypeError("toc depth must be a number")
+
         self._created = True
         if depth is not None:
             self.max_depth = depth
-- 
2.43.0


From 1653aeed04e36f948818601f92ebd1a70c47f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 06/96] fix: apply the toc depth to headlines above the toc
 tag, too

---
 creole/emitter/creol2html_emitter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 35f3a14..73588c1 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -38,10 +38,9 @@ class TableOfContent:
 
     def add_headline(self, level, content):
         """Add the current header to the toc."""
-        if self.max_depth is None or level <= self.max_depth:
-            self.headlines.append(
-                (level, content)
-            )
+        self.headlines.append(
+            (level, content)
+        )
 
     def flat_list2nest_list(self, flat_list):
         # this func code based on borrowed code from EyDu, Thanks!
@@ -82,7 +81,11 @@ class TableOfContent:
 
     def emit(self, document):
         """Emit the toc where the <<toc>> macro was."""
-        nested_headlines = self.flat_list2nest_list(self.headlines)
+        headlines = [
+            (level, content) for level, content in self.headlines
+            if self.max_depth is None or level <= self.max_depth
+        ]
+        nested_headlines = self.flat_list2nest_list(headlines)
         html = self.nested_headlines2html(nested_headlines)
 
         # FIXME: We should not use <p> here, because it doesn't match
-- 
2.43.0


From ffb4c3175b2fd19deffae2b5be27ff5dc394ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 07/96] fix: escape the exception text shown in macro error
 messages

---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 73588c1..16b2040 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -329,7 +329,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -356,7 +356,7 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
-- 
2.43.0


From a74c4f0ec0afacd3bcaba5d0936ddfd986ae2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 08/96] fix: keep blank lines at the start of preformatted
 blocks

---
 creole/parser/creol2html_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 07754c9..24f51f9 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -128,7 +128,7 @@ class BlockRules:
     separator = r'(?P<separator> ^ \s* ----) [ \t]* $'  # horizontal line
 
     pre_block = r'''(?P<pre_block>
-            ^{{{ \s* $
+            ^{{{ [ \t]* $
             (?P<pre_block_text>
                 ([\#]!(?P<pre_block_kind>\w*?)(\s+.*)?$)?
                 (.|\n)+?
-- 
2.43.0


From 2e872e9792e8d3b779051a2d827f6c77fd3c1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 09/96] fix: don't nest a list of another kind into the last
 item of the same level

---
 creole/parser/creol2html_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..d14b203 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -285,8 +285,12 @@ class CreoleParser:
             self.cur = lst
         else:
             # Create a new level of list
-            self.cur = self._upto(self.cur,
-                                  ('list_item', 'document', 'section', 'blockquote'))
+            if lst and lst.kind in ('number_list', 'bullet_list'):
+                # same level, but the other kind: not part of the last item
+                self.cur = lst.parent
+            else:
+                self.cur = self._upto(self.cur,
+                                      ('list_item', 'document', 'section', 'blockquote'))
             self.cur = DocNode(kind, self.cur)
             self.cur.level = level
         self.cur = DocNode('list_item', self.cur)
-- 
2.43.0


From ea2564632966795cfbca25f4e2e8b1f517f2b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 10/96] fix: don't drop table cells beyond the shortest row

README.md and README.rst regenerated: their first table had lost its second column.
---
 README.md                     |  6 +++---
 README.rst                    | 18 +++++++++---------
 creole/shared/markup_table.py |  8 +++++++-
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/README.md b/README.md
index 047689f..d337561 100644
--- a/README.md
+++ b/README.md
@@ -22,9 +22,9 @@ Existing converters:
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
 | ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
diff --git a/README.rst b/README.rst
index 4f70129..bdadc7e 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..848174c 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,3 +1,6 @@
+from itertools import zip_longest
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -51,7 +54,7 @@ class MarkupTable:
             cells.append(line_cells)
 
         # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip(*cells)]
+        widths = [max(map(len, col)) for col in zip_longest(*cells, fillvalue='')]
 
         return cells, widths
 
@@ -81,6 +84,9 @@ class MarkupTable:
         # preformat every table cell
         cells, widths = self._get_preformat_info()
 
+        # Every row must have the same number of cells in ReSt
+        cells = [row + [''] * (len(widths) - len(row)) for row in cells]
+
         separator_line = f"+{'+'.join(('-' * width) for width in widths)}+"
         headline_separator = f"+{'+'.join(('=' * width) for width in widths)}+"
 
-- 
2.43.0


From 25f92f52f28bdec8a7e176873978e1ee45485717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 11/96] fix: keep table cells with no blank between their pipes

README.md regenerated: the empty cell in its first table is now kept.
---
 README.md                          | 2 +-
 creole/parser/creol2html_parser.py | 2 +-
 creole/parser/creol2html_rules.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index d337561..5c33262 100644
--- a/README.md
+++ b/README.md
@@ -21,7 +21,7 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
 | ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
 | ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
 | ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index d14b203..d985d96 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -323,7 +323,7 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell:
+            if cell is not None:
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 24f51f9..cc29fb4 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -181,7 +181,7 @@ class SpecialRules:
             \| \s*
             (
                 (?P<head> [=][^|]+ ) |
-                (?P<cell> (  %s | [^|])+ )
+                (?P<cell> (  %s | [^|])+ | (?=\|) )
             ) \s*
         ''' % '|'.join([
         InlineRules.link,
-- 
2.43.0


From b0235e6deaf6c68327db3d3b6bae1008d16247f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 12/96] fix: measure ReSt headings and table columns with wide
 characters like docutils

---
 creole/emitter/html2rest_emitter.py |  4 ++--
 creole/shared/markup_table.py       | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..04f5531 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -14,7 +14,7 @@
 import posixpath
 
 from creole.shared.base_emitter import BaseEmitter
-from creole.shared.markup_table import MarkupTable
+from creole.shared.markup_table import MarkupTable, text_width
 
 
 # Kink of nodes in which hyperlinks are stored in references intead of embedded urls.
@@ -116,7 +116,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * len(text)
+        markup = char * text_width(text)
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 848174c..6883600 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -1,6 +1,23 @@
+import unicodedata
 from itertools import zip_longest
 
 
+def text_width(text):
+    """
+    Number of columns the text needs: East Asian wide characters use two.
+
+    >>> text_width('foo')
+    3
+    >>> text_width('\u65e5\u672c')
+    4
+    """
+    return sum(2 if unicodedata.east_asian_width(char) in 'WF' else 1 for char in text)
+
+
+def ljust(text, width):
+    return text + ' ' * (width - text_width(text))
+
+
 class MarkupTable:
     """
     Container for holding table data and render the data in creole markup.
@@ -54,7 +71,7 @@ class MarkupTable:
             cells.append(line_cells)
 
         # Build a list of max len for every column
-        widths = [max(map(len, col)) for col in zip_longest(*cells, fillvalue='')]
+        widths = [max(map(text_width, col)) for col in zip_longest(*cells, fillvalue='')]
 
         return cells, widths
 
@@ -71,7 +88,7 @@ class MarkupTable:
             # Join every line with ljust
             lines = []
             for row in cells:
-                cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+                cells = [ljust(cell, width) for cell, width in zip(row, widths)]
                 lines.append("|" + "|".join(cells) + "|")
 
         result = "\n".join(lines)
@@ -98,7 +115,7 @@ class MarkupTable:
                 lines.append(separator_line)
 
             # Join every line with ljust
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [ljust(cell, width) for cell, width in zip(row, widths)]
             lines.append("|" + "|".join(cells) + "|")
 
         lines.append(separator_line)
@@ -114,7 +131,7 @@ class MarkupTable:
             if no == 1 and self.has_header:
                 cells = ['-' * (width - 2) for width in widths]
                 lines.append(f'| {" | ".join(cells)} |')
-            cells = [cell.ljust(width) for cell, width in zip(row, widths)]
+            cells = [ljust(cell, width) for cell, width in zip(row, widths)]
             lines.append(f'|{"|".join(cells)}|')
 
         result = "\n".join(lines)
-- 
2.43.0


From cbce2d4b22aabf91a28336d96feadbf916f7282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 13/96] fix: keep the text after an end tag that closes nothing

---
 creole/parser/html_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..c98351b 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -243,12 +243,12 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol"):
+        if tag in ("ul", "ol") and self.__list_level > 0:
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS or self.cur is None:
+        if tag in BLOCK_TAGS:
             self._go_up()
-        else:
+        elif self.cur.parent is not None:
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From e1fa0eb904b333c7681e11a71109a5a8191489bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 14/96] fix: don't lose text buffered at the end of the html

---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index c98351b..60e3a21 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        HTMLParser.close(self)  # handle buffered data at the end, too
 
         return self.root
 
-- 
2.43.0


From 3753be477c5bb31bdfdabe31f5cf61378a75b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 15/96] fix: don't treat tags like h0 or h1foo as headlines

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 60e3a21..46fada8 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-9])$")
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From deb37e065c6f3e817266d33b97d40467af2eb87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 16/96] fix: don't swallow the content after <hr> and other
 void tags

---
 creole/parser/html_parser.py        | 8 ++++----
 creole/parser/html_parser_config.py | 4 ++++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 46fada8..773bdb1 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -197,8 +197,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in VOID_TAGS:
+            # Work-a-round if e.g. img or br tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -239,7 +239,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag in VOID_TAGS:  # handled in starttag
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..f5e3e49 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -19,3 +19,7 @@ BLOCK_TAGS = (
     "br"
 )
 IGNORE_TAGS = ("tbody",)
+VOID_TAGS = (  # tags without content and end tag
+    "area", "base", "br", "col", "embed", "hr", "img", "input",
+    "link", "meta", "param", "source", "track", "wbr",
+)
-- 
2.43.0


From a7f064f784d152c31f2328a0ea93b418e25eaeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 17/96] fix: keep the cells of an outer table and of cells
 outside of tables

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++++
 creole/emitter/html2rest_emitter.py     | 2 ++
 creole/shared/base_emitter.py           | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..b6bb236 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -45,21 +45,29 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
         self.emit_children(node)
         content = self._table.get_markdown_table()
+        self._table = outer_table
         return f'\n{content}\n'
 
     def tr_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ''
 
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_th(self.emit_children(node))
         return ''
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_td(self.emit_children(node))
         return ''
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 04f5531..2d22cd3 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -282,6 +282,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix="",
             auto_width=True,
@@ -289,4 +290,5 @@ class ReStructuredTextEmitter(BaseEmitter):
         )
         self.emit_children(node)
         content = self._table.get_rest_table()
+        self._table = outer_table
         return f"{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..2c86149 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -33,6 +33,7 @@ class BaseEmitter:
 
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
+        self._table = None  # the MarkupTable instance inside a table
         self._mask_linebreak = False
 
     # --------------------------------------------------------------------------
@@ -125,6 +126,7 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
+        outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
@@ -132,9 +134,12 @@ class BaseEmitter:
         )
         self.emit_children(node)
         content = self._table.get_table_markup()
+        self._table = outer_table
         return f"{content}\n"
 
     def tr_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         self._table.add_tr()
         self.emit_children(node)
         return ""
@@ -149,12 +154,16 @@ class BaseEmitter:
         return content
 
     def th_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
+        if self._table is None:  # not in a table
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
-- 
2.43.0


From dd86db1c001f5ff441baabe7b0e9f0763f5947ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 18/96] fix: don't drop the caption and other text outside of
 table cells

---
 creole/emitter/html2markdown_emitter.py |  7 +++----
 creole/emitter/html2rest_emitter.py     |  4 ++--
 creole/shared/base_emitter.py           | 17 +++++++++++++----
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b6bb236..c3640a8 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -47,17 +47,16 @@ class MarkdownEmitter(BaseEmitter):
     def table_emit(self, node):
         outer_table = self._table
         self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
+        text = self._get_table_text(node)
         content = self._table.get_markdown_table()
         self._table = outer_table
-        return f'\n{content}\n'
+        return f'\n{text}{content}\n'
 
     def tr_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
         self._table.add_tr()
-        self.emit_children(node)
-        return ''
+        return self.emit_children(node)
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2d22cd3..984fd1a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -288,7 +288,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             auto_width=True,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
+        text = self._get_table_text(node)
         content = self._table.get_rest_table()
         self._table = outer_table
-        return f"{content}\n\n"
+        return f"{text}{content}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 2c86149..3d72d91 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -132,17 +132,26 @@ class BaseEmitter:
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
+        text = self._get_table_text(node)
         content = self._table.get_table_markup()
         self._table = outer_table
-        return f"{content}\n"
+        return f"{text}{content}\n"
+
+    def _get_table_text(self, node):
+        """
+        Fill the table and return the text outside of the cells, e.g. the caption:
+        It's placed before the table.
+        """
+        text = self.emit_children(node).strip()
+        if text:
+            text += "\n\n"
+        return text
 
     def tr_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
         self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
-- 
2.43.0


From e8ac3c79554e4ba3b9fb493bf3bc2d9998c9ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 19/96] fix: ignore thead and tfoot like tbody, instead of
 treating them as unknown tags

---
 creole/parser/html_parser_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index f5e3e49..939b18b 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -18,7 +18,7 @@ BLOCK_TAGS = (
     "p", "pre",
     "br"
 )
-IGNORE_TAGS = ("tbody",)
+IGNORE_TAGS = ("tbody", "thead", "tfoot")
 VOID_TAGS = (  # tags without content and end tag
     "area", "base", "br", "col", "embed", "hr", "img", "input",
     "link", "meta", "param", "source", "track", "wbr",
-- 
2.43.0


From 15862b0907bb7bdf1a415d308544f1c84975bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 20/96] fix: give empty columns a width, ReSt and Markdown
 tables are malformed without

---
 creole/shared/markup_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 6883600..80e02dd 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -71,7 +71,7 @@ class MarkupTable:
             cells.append(line_cells)
 
         # Build a list of max len for every column
-        widths = [max(map(text_width, col)) for col in zip_longest(*cells, fillvalue='')]
+        widths = [max(1, *map(text_width, col)) for col in zip_longest(*cells, fillvalue='')]
 
         return cells, widths
 
@@ -129,7 +129,7 @@ class MarkupTable:
         lines = []
         for no, row in enumerate(cells):
             if no == 1 and self.has_header:
-                cells = ['-' * (width - 2) for width in widths]
+                cells = ['-' * max(1, width - 2) for width in widths]
                 lines.append(f'| {" | ".join(cells)} |')
             cells = [ljust(cell, width) for cell, width in zip(row, widths)]
             lines.append(f'|{"|".join(cells)}|')
-- 
2.43.0


From 025407c682ef2e8b704a8d90be773ce5eeed6d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 21/96] fix: treat html attributes without value as empty

---
 creole/parser/html_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 773bdb1..4b7ead3 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -186,6 +186,8 @@ class HtmlParser(HTMLParser):
         if tag in IGNORE_TAGS:
             return
 
+        attrs = self._clean_attrs(attrs)
+
         headline = headline_tag_re.match(tag)
         if headline:
             self.cur = DocNode(
@@ -205,6 +207,10 @@ class HtmlParser(HTMLParser):
         else:
             self.cur = DocNode(tag, self.cur, None, attrs)
 
+    def _clean_attrs(self, attrs):
+        # The value of e.g.: <option selected> is None: same as selected=""
+        return [(name, value or "") for name, value in attrs]
+
     def handle_data(self, data):
         self.debug_msg("data", f"{data!r}")
         assert isinstance(data, str)
@@ -231,7 +237,7 @@ class HtmlParser(HTMLParser):
                 #                attrs = attr_dict
             )
         else:
-            DocNode(tag, self.cur, None, attrs)
+            DocNode(tag, self.cur, None, self._clean_attrs(attrs))
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 0542e97f752e0ced70f89e57f98d07aec0e761ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 22/96] fix: emit only the text of links without a target

---
 creole/emitter/html2creole_emitter.py   | 5 ++---
 creole/emitter/html2markdown_emitter.py | 7 ++++++-
 creole/emitter/html2rest_emitter.py     | 6 +++++-
 creole/emitter/html2textile_emitter.py  | 5 ++++-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..856f50e 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -97,9 +97,8 @@ class CreoleEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        try:
-            url = node.attrs["href"]
-        except KeyError:
+        url = node.attrs.get("href")
+        if not url:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
         if link_text == url:
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index c3640a8..39b8f33 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -157,7 +157,12 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        url = node.attrs.get('href')
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
+        url = quote_link(url)
 
         title = node.attrs.get('title')
         if title:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 984fd1a..efded3a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,11 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..204104a 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,7 +96,10 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-- 
2.43.0


From 0b7d985579a06c962e4c26e4a8a334bf507a34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 23/96] fix: emit only the text of images without a source

---
 creole/emitter/html2creole_emitter.py   | 4 +++-
 creole/emitter/html2markdown_emitter.py | 8 ++++++--
 creole/emitter/html2rest_emitter.py     | 4 +++-
 creole/emitter/html2textile_emitter.py  | 4 +++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 856f50e..bf0111c 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -107,7 +107,9 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt") or node.attrs.get("title", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 39b8f33..56512fe 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -171,10 +171,14 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
-
         title = node.attrs.get('title')
         alt = node.attrs.get('alt', '')
+
+        src = node.attrs.get('src')
+        if not src:
+            return alt or title or ''
+
+        src = quote_link(src)
         if title and alt:
             return f'![{alt}]({src} "{title}")'
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index efded3a..0827be8 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -228,7 +228,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt") or node.attrs.get("title", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 204104a..4884183 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -103,7 +103,9 @@ class TextileEmitter(BaseEmitter):
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt") or node.attrs.get("title", "")
 
         if src.split(':')[0] == 'data':
             return ""
-- 
2.43.0


From c461eeb0c71a1c090a9db06cf7c98521dcf64172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 24/96] fix: don't quote markdown link targets twice and accept
 invalid URLs

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++--
 creole/emitter/html2rest_emitter.py     | 1 -
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 56512fe..d802f5d 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,12 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+    except ValueError:
+        # e.g.: Invalid IPv6 URL
+        return uri
+    url = quote(url, safe='/%')  # Don't quote again e.g.: "%20"
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 0827be8..972b3e7 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -208,7 +208,6 @@ class ReStructuredTextEmitter(BaseEmitter):
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
 
-
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
         if self._should_do_substitution(node):
-- 
2.43.0


From cadadd6b1e0d3b7549990d1722a651ff722a441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 25/96] fix: keep the blank between two inline elements in
 markdown

---
 creole/emitter/html2markdown_emitter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index d802f5d..a90539c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -11,6 +11,7 @@
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
+from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
@@ -219,11 +220,21 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
     def data_emit(self, node: DocNode):
         content = node.content
-        if content == ' ':
+        if content == ' ' and not self._between_inline_nodes(node):
             # FIXME: Because of bug in creole.html_tools.strip_html.strip_html()
             return ''
         return node.content
 
+    def _between_inline_nodes(self, node: DocNode):
+        siblings = node.parent.children
+        index = siblings.index(node)
+        if index == 0 or index == len(siblings) - 1:
+            return False
+        return not any(
+            neighbor.kind in (*BLOCK_TAGS, 'headline', 'blockdata_pre', 'inlinedata_pre')
+            for neighbor in (siblings[index - 1], siblings[index + 1])
+        )
+
     def code_emit(self, node: DocNode):
         code_block = self._emit_content(node)
         assert '\n' not in code_block
-- 
2.43.0


From 7d09bfa8a5da8c82052dec1a9a3b4359da4c51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 26/96] fix: emit <pre><code> as complete markdown code fence

The code was cut off at the first character reference, started on the fence
line, crashed if empty, and parsing it printed debug output and a warning.
---
 creole/emitter/html2markdown_emitter.py | 41 +++++++++++++++++--------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index a90539c..33c75fd 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -8,6 +8,7 @@
     :license: GNU GPL v3 or above, see LICENSE for more details.
 
 """
+import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
@@ -17,6 +18,10 @@ from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
 
 
+# The content of e.g.: <pre><code class="language-python">...</code></pre>
+code_re = re.compile(r'\s*(<code(?:\s[^>]*)?>)(.*)</code>\s*$', re.DOTALL)
+
+
 def quote_link(uri):
     """
     >>> quote_link('http://foo.tld/a image with spaces.png')
@@ -76,30 +81,40 @@ class MarkdownEmitter(BaseEmitter):
         return ''
     # --------------------------------------------------------------------------
 
+    def _code_fence(self, code, language=''):
+        if not code.startswith('\n'):
+            code = f'\n{code}'
+        if not code.endswith('\n'):
+            code = f'{code}\n'
+
+        fence = '```'
+        while fence in code:
+            fence += '`'
+
+        return f'{fence}{language}{code}{fence}\n'
+
     def blockdata_pre_emit(self, node: DocNode):
         """pre block -> with newline at the end"""
-        return f'```{self.deentity.replace_all(node.content)}```\n'
+        return self._code_fence(self.deentity.replace_all(node.content))
 
     def inlinedata_pre_emit(self, node: DocNode):
         """a pre inline block -> no newline at the end"""
         pre_content = node.content
+        language = ''
 
-        if pre_content.endswith('</code>'):
+        match = code_re.match(pre_content)
+        if match:
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
-            root_node: DocNode = p.feed(pre_content, preprocess=False)
+            start_tag, pre_content = match.groups()
+            root_node: DocNode = HtmlParser().feed(start_tag, preprocess=False)
             code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
-
-            class_value = code_node.attrs.get('class')
-            if class_value:
-                if class_value.startswith('language-'):
-                    language = class_value.partition('-')[2]
-                    return f'\n```{language}{code}```\n'
 
-            return f'\n```{code}```\n'
+            class_value = code_node.attrs.get('class', '')
+            if class_value.startswith('language-'):
+                language = class_value.partition('-')[2]
 
-        return f'\n```{self.deentity.replace_all(pre_content)}```\n'
+        code = self.deentity.replace_all(pre_content)
+        return f'\n{self._code_fence(code, language)}'
 
     def blockdata_pass_emit(self, node: DocNode):
         return f'\n{node.content}\n'
-- 
2.43.0


From 1befdc6ece59030636512f3c8f63bac8493517c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 27/96] fix: accept <li> outside of a list in html2markdown

---
 creole/emitter/html2markdown_emitter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 33c75fd..de63184 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -220,12 +220,10 @@ class MarkdownEmitter(BaseEmitter):
 
         list_node = node.parent
         list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        if list_kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
-- 
2.43.0


From 42fceb5456ac1675d44864a62be66004e02bf9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 28/96] fix: restore the list markup after a nested list of the
 other kind in ReSt

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 972b3e7..9b98096 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -267,8 +267,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        outer_list_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = outer_list_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From 0fff7de3650c59e685391237d1688e22be105b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 29/96] fix: replace references to no valid character by U+FFFD
 instead of crashing

---
 creole/html_tools/deentity.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..4ca8fdd 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -42,15 +42,22 @@ class Deentity:
     '&'
     """
 
+    def _chr(self, text, base):
+        try:
+            char = chr(int(text, base))
+        except (ValueError, OverflowError):
+            return "\ufffd"  # there is no such character
+        if "\ud800" <= char <= "\udfff":
+            return "\ufffd"  # surrogates are no characters
+        return char
+
     def replace_number(self, text):
         """ unicode number entity """
-        unicode_no = int(text)
-        return chr(unicode_no)
+        return self._chr(text, 10)
 
     def replace_hex(self, text):
         """ hex entity """
-        unicode_no = int(text, 16)
-        return chr(unicode_no)
+        return self._chr(text, 16)
 
     def replace_named(self, text):
         """ named entity """
-- 
2.43.0


From 66a4d63a6851b6036fdb7ba9096622b5a7076cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 30/96] fix: accept the uppercase X in hexadecimal character
 references

---
 creole/html_tools/deentity.py | 2 +-
 creole/shared/base_emitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 4ca8fdd..e23f003 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,7 +14,7 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
     r"(&(?P<named>[a-zA-Z]+);)",
 ])
 # print(entities_rules)
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 3d72d91..eb6f9e4 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -70,7 +70,7 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
+        if entity.startswith(("x", "X")):
             # entity in hex
             hex_no = entity[1:]
             return self.deentity.replace_hex(hex_no)
-- 
2.43.0


From 04ed53d33b93ff56fc386b86fb01016dc13e2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 31/96] fix: know all HTML5 entities, keep unknown ones in
 preformatted areas

---
 creole/html_tools/deentity.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index e23f003..4e53b20 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -15,7 +15,7 @@ from html import entities
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
     r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
-    r"(&(?P<named>[a-zA-Z]+);)",
+    r"(&(?P<named>[a-zA-Z][a-zA-Z0-9]*);)",
 ])
 # print(entities_rules)
 entities_regex = re.compile(
@@ -65,8 +65,7 @@ class Deentity:
             # Non breaking spaces is not in htmlentitydefs
             return " "
         else:
-            codepoint = entities.name2codepoint[text]
-            return chr(codepoint)
+            return entities.html5[f"{text};"]
 
     def replace_all(self, content):
         """ replace all html entities form the given text. """
@@ -75,7 +74,10 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except KeyError:  # unknown named entity
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
-- 
2.43.0


From e87cb87fab3bfe241a2a4cacb545c0b5a33bd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 32/96] fix: write attributes of unknown tags as html
 attributes, not as JSON

---
 creole/shared/document_tree.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 7e22266..750a176 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -9,8 +9,7 @@
 
 import inspect
 import warnings
-
-from creole.shared.utils import dict2string
+from xml.sax.saxutils import escape
 
 
 class DocNode:
@@ -47,7 +46,13 @@ class DocNode:
         >>> node.get_attrs_as_string()
         'foo="bar" no="ABC"'
         """
-        return dict2string(self.attrs)
+        attr_list = []
+        for key, value in sorted(self.attrs.items()):
+            if isinstance(value, str):
+                value = escape(value, {'"': '&quot;'})
+                value = f'"{value}"'
+            attr_list.append(f"{key}={value}")
+        return " ".join(attr_list)
 
     def __str__(self):
         return str(self.__repr__())
-- 
2.43.0


From efc7ec9f197ce1148227af14e9d698c64378d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 33/96] fix: keep non-ASCII characters in dict2string()

---
 creole/shared/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/utils.py b/creole/shared/utils.py
index 9c8ffc8..4c60f86 100644
--- a/creole/shared/utils.py
+++ b/creole/shared/utils.py
@@ -74,7 +74,7 @@ def dict2string(d):
     """
     attr_list = []
     for key, value in sorted(d.items()):
-        value_string = json.dumps(value)
+        value_string = json.dumps(value, ensure_ascii=False)
         attr_list.append(f"{key}={value_string}")
     return " ".join(attr_list)
 
-- 
2.43.0


From d0fb7b656e872855733e6781ef4fa736541164d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 34/96] fix: let string2dict() read back all values that
 dict2string() has written

---
 creole/shared/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/creole/shared/utils.py b/creole/shared/utils.py
index 4c60f86..9621220 100644
--- a/creole/shared/utils.py
+++ b/creole/shared/utils.py
@@ -7,7 +7,6 @@
 """
 
 
-import json
 import shlex
 
 
@@ -74,7 +73,11 @@ def dict2string(d):
     """
     attr_list = []
     for key, value in sorted(d.items()):
-        value_string = json.dumps(value, ensure_ascii=False)
+        if isinstance(value, str):
+            value_string = value.replace('\\', '\\\\').replace('"', '\\"')
+            value_string = f'"{value_string}"'
+        else:
+            value_string = str(value)
         attr_list.append(f"{key}={value_string}")
     return " ".join(attr_list)
 
-- 
2.43.0


From d88f7767bc4138b0b3f48d14f0b7e3ad49f73052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 35/96] fix: guess the lexer from the text in the code macro

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From 143701f70f429ee6ab7bac2671d9a8bea99ac412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 36/96] fix: accept a number as extension in the code macro

---
 creole/shared/example_macros.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 0002a2e..3280764 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -46,6 +46,7 @@ def code(ext, text):
     if not PYGMENTS:
         return pre(text)
 
+    ext = str(ext)  # e.g.: ext="7" is a number
     try:
         source_type = ''
         if '.' in ext:
-- 
2.43.0


From baac04dae0ec32f17f58dfdc27f83caa04040e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:00 +0000
Subject: [PATCH 37/96] fix: rewrite README files that are missing or differ in
 any way from the source

Only the lines common to both were compared, so removed lines at the end and
changed trailing blanks left a stale README. All files are UTF-8.
---
 creole/setup_utils.py | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..9756a16 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,7 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='utf-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +131,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -144,6 +144,15 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _get_generated_content(readme_path):
+    """
+    Content of the existing README file without the note about generation.
+    """
+    if not readme_path.is_file():
+        return None
+    return readme_path.read_text(encoding='utf-8').rsplit('\n', 4)[0]
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -161,20 +170,12 @@ def update_rst_readme(package_root, filename='README.creole'):
 
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
-    # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _get_generated_content(rest_readme_path) == rest_readme:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='utf-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -209,20 +210,12 @@ def update_markdown_readme(package_root, filename='README.creole'):
 
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
-    # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
-    if not changed:
+    if _get_generated_content(markdown_readme_path) == markdown_readme:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='utf-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From af266eecb9ed4d7be4abb96d797ec81afe16e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 38/96] fix: let get_long_description() convert again

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 9756a16..ca5eb09 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 129f6a0a610906f497669ebe7c481b4d618c74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 39/96] fix: let the CLI keep the destination if the conversion
 fails

---
 creole/cmdline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..e5d9e93 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,14 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+
+        # Touch the destination only if everything before was successful:
+        converted = self.convert_func(content)
+        converted = codecs.encode(converted, encoding)
+
+        with open(destination, "wb") as outfile:
+            outfile.write(converted)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From 32d5488151e5b5c5ee9065619c696db52c764212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 40/96] fix: handle tabs, upper case tags, void tags and '>' in
 attributes in strip_html()

---
 README.md                       |  2 +-
 README.rst                      |  2 +-
 creole/html_tools/strip_html.py | 51 +++++++++++++++++++++++----------
 3 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/README.md b/README.md
index 5c33262..30d72da 100644
--- a/README.md
+++ b/README.md
@@ -318,7 +318,7 @@ Note: In this case you must install **docutils**! See above.
   * Bugfix: Don't allow `ftp:/broken` (Only one slash) to be a link.
 * v1.0.4 - 2012-06-11
   * html2rest: Handle double link/image substitution and raise better error messages
-  * Bugfix in unittests (include test README file in python package).  Thanks to Wen Heping for reporting this.
+  * Bugfix in unittests (include test README file in python package). Thanks to Wen Heping for reporting this.
 * v1.0.3 - 2012-06-11
   * Bugfix: `AttributeError: 'module' object has no attribute 'interesting_cdata'` from HTMLParser patch. Thanks to Wen Heping for reporting this.
   * Fix a bug in get_long_description() ReSt test for Py3k and his unittests.
diff --git a/README.rst b/README.rst
index bdadc7e..69e680b 100644
--- a/README.rst
+++ b/README.rst
@@ -475,7 +475,7 @@ history
 
     * html2rest: Handle double link/image substitution and raise better error messages
 
-    * Bugfix in unittests (include test README file in python package).  Thanks to Wen Heping for reporting this.
+    * Bugfix in unittests (include test README file in python package). Thanks to Wen Heping for reporting this.
 
 * v1.0.3 - 2012-06-11
 
diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 39613cc..27db40e 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -10,21 +10,33 @@
 
 import re
 
-from creole.parser.html_parser_config import BLOCK_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, VOID_TAGS
 
 
+# Only these characters are whitespace in html (e.g.: not the no-break space)
+whitespace_regex = re.compile(r"[ \t\n\r\f\v]+")
+
+comment_regex = re.compile(r" *(?P<comment><!--.*?--\s*>) *", re.DOTALL)
+
 strip_html_regex = re.compile(
     r"""
-        \s*
+        [ ]*
         <
-            (?P<end>/{0,1})       # end tag e.g.: </end>
-            (?P<tag>[^ >]+)       # tag name
-            .*?
-            (?P<startend>/{0,1})  # closed tag e.g.: <closed />
+            (?!!--)               # don't touch comments
+            (?P<end>/?)           # end tag e.g.: </end>
+            (?P<tag>[^\s/>]+)     # tag name
+            (?P<attrs>
+                (?:
+                    = \s* " [^"]* "                        # a quoted value
+                    | = \s* ' [^']* '                      # can contain ">"
+                    | = (?! \s* (?: "[^"]*" | '[^']*' ) )
+                    | [^>=]
+                )*
+            )
         >
-        \s*
+        [ ]*
     """,
-    re.VERBOSE | re.MULTILINE | re.UNICODE
+    re.VERBOSE | re.UNICODE
 )
 
 
@@ -55,11 +67,20 @@ def strip_html(html_code):
     '<p>a <img src="/image.jpg" /> image.</p>'
     """
 
+    def strip_comment(match):
+        block = match.group(0)
+        comment = match.group("comment")
+        if block != comment:
+            # Keep only one space: It's deleted if a block tag follows
+            comment += " "
+        return comment
+
     def strip_tag(match):
         block = match.group(0)
-        end_tag = match.group("end") in ("/", "/")
-        startend_tag = match.group("startend") in ("/", "/")
-        tag = match.group("tag")
+        tag = match.group("tag").lower()
+        end_tag = match.group("end") == "/"
+        # closed tag e.g.: <closed /> or tag without a end tag e.g.: <img>
+        startend_tag = match.group("attrs").endswith("/") or tag in VOID_TAGS
 
 #        print("_"*40)
 #        print(match.groupdict())
@@ -69,12 +90,12 @@ def strip_html(html_code):
 #        print("tag.........: %r" % tag)
 
         if tag in BLOCK_TAGS:
-            return block.strip()
+            return block.strip(" ")
 
         space_start = block.startswith(" ")
         space_end = block.endswith(" ")
 
-        result = block.strip()
+        result = block.strip(" ")
 
         if end_tag:
             # It's a normal end tag e.g.: </strong>
@@ -95,8 +116,8 @@ def strip_html(html_code):
 
         return result
 
-    data = html_code.strip()
-    clean_data = " ".join(line.strip() for line in data.split("\n"))
+    clean_data = whitespace_regex.sub(" ", html_code).strip(" ")
+    clean_data = comment_regex.sub(strip_comment, clean_data)
     clean_data = strip_html_regex.sub(strip_tag, clean_data)
     return clean_data
 
-- 
2.43.0


From c10f05be55abbe9afa41e84738049ef090e74072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 41/96] fix: recognize <pre> tags with attributes or in upper
 case

---
 creole/parser/html_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 4b7ead3..9497a14 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -18,21 +18,21 @@ from creole.shared.document_tree import DebugList, DocNode
 # ------------------------------------------------------------------------------
 
 block_re = re.compile(r'''
-    ^<pre> \s* $
+    ^<pre(?:\s[^>]*)?> \s* $
     (?P<pre_block>
         (\n|.)*?
     )
-    ^</pre> \s* $
+    ^</pre\s*> \s* $
     [\s\n]*
-''', re.VERBOSE | re.UNICODE | re.MULTILINE)
+''', re.VERBOSE | re.UNICODE | re.MULTILINE | re.IGNORECASE)
 
 inline_re = re.compile(r'''
-    <pre>
+    <pre(?:\s[^>]*)?>
     (?P<pre_inline>
         (\n|.)*?
     )
-    </pre>
-''', re.VERBOSE | re.UNICODE)
+    </pre\s*>
+''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
 
 
 headline_tag_re = re.compile(r"h([1-9])$")
-- 
2.43.0


From 1845e483874feb209c2bf772fcec0c9c2b96b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 42/96] fix: keep blank lines and the indentation at the start
 of <pre> blocks

---
 creole/emitter/html2rest_emitter.py | 6 ++++--
 creole/parser/html_parser.py        | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 9b98096..ea0960e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -57,8 +57,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        pre_block = self.deentity.replace_all(node.content).strip()
-        pre_block = "\n".join(f"    {line}" for line in pre_block.splitlines())
+        lines = self.deentity.replace_all(node.content).rstrip().splitlines()
+        while lines and not lines[0].strip():
+            del lines[0]  # keep the indentation of the first line
+        pre_block = "\n".join(f"    {line}" for line in lines)
         return f"::\n\n{pre_block}\n\n"
 
     def inlinedata_pre_emit(self, node):
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 9497a14..cfd09ee 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -18,7 +18,7 @@ from creole.shared.document_tree import DebugList, DocNode
 # ------------------------------------------------------------------------------
 
 block_re = re.compile(r'''
-    ^<pre(?:\s[^>]*)?> \s* $
+    ^<pre(?:\s[^>]*)?> [^\S\n]* $
     (?P<pre_block>
         (\n|.)*?
     )
-- 
2.43.0


From a79b1ef14481d108184f3aa8aee7b1caa4bccaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 43/96] fix: convert <pre> with several lines on the same line
 as its tags to a preformatted block

---
 creole/emitter/html2creole_emitter.py | 14 +++++++++++++-
 creole/emitter/html2rest_emitter.py   |  4 ++++
 creole/shared/base_emitter.py         | 11 +++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index bf0111c..260586b 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -9,6 +9,7 @@
 
 
 import posixpath
+import re
 
 from creole.shared.base_emitter import BaseEmitter
 
@@ -34,10 +35,21 @@ class CreoleEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        return "{{{%s}}}\n" % self.deentity.replace_all(node.content)
+        content = self.deentity.replace_all(node.content)
+        if not content.startswith("\n"):
+            content = f"\n{content}"
+        if not content.endswith("\n"):
+            content += "\n"
+        # A line with closing braces must be guarded:
+        content = re.sub(r"^(\}\}\}\s*)$", r"~\1", content, flags=re.MULTILINE)
+        return "{{{%s}}}\n" % content
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
+        if node.parent is self.root and "\n" in node.content:
+            # In creole only a block can contain more than one line
+            start = "\n\n" if self._follows_inline(node) else ""
+            return start + self.blockdata_pre_emit(node)
         return "{{{%s}}}" % self.deentity.replace_all(node.content)
 
     def blockdata_pass_emit(self, node):
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index ea0960e..fd93e36 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -65,6 +65,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
+        if node.parent is self.root:
+            # <pre>foo</pre> between other blocks is a preformatted block, too
+            start = "\n\n" if self._follows_inline(node) else ""
+            return start + self.blockdata_pre_emit(node)
         return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
 
     def blockdata_pass_emit(self, node):
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index eb6f9e4..a4e972c 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -43,6 +43,17 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _follows_inline(self, node):
+        """
+        Is there text or a inline element directly before the node?
+        """
+        siblings = node.parent.children
+        index = siblings.index(node)
+        if index == 0:
+            return False
+        block_kinds = (*BLOCK_TAGS, "headline", "blockdata_pre")
+        return siblings[index - 1].kind not in block_kinds
+
     def data_emit(self, node):
         # node.debug()
         return node.content
-- 
2.43.0


From 093374b27bdf633e908477ff39b5f3d659870705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 44/96] fix: wiki line breaks: do not join a block with the
 line before it; separate the lines of a list item

---
 creole/parser/creol2html_parser.py | 11 ++++++++++-
 creole/parser/creol2html_rules.py  |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index d985d96..cc714a3 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -75,6 +75,7 @@ class CreoleParser:
         self.cur = self.root        # The most recent document node
         self.text = None            # The node to add inline characters to
         self.last_text_break = None  # Last break node, inserted by _text_repl()
+        self.last_text_space = None  # Line end after the last text, separates the next line
 
         # Filled with all macros that's in the text
         self.root.used_macros = set()
@@ -126,9 +127,17 @@ class CreoleParser:
 
         text = groups.get('text', "")
 
-        if groups.get('space') and self.cur.children:
+        if self.cur.kind == 'list_item':
+            # the list item continues on a new line
+            if self.cur.children and self.cur.children[-1].kind != 'break':
+                if self.blog_line_breaks:
+                    DocNode('break', self.cur, "")
+                else:
+                    text = " " + text
+        elif self.last_text_space and self.cur.children:
             # use wikipedia style line breaks and seperate a new line with one space
             text = " " + text
+        self.last_text_space = groups.get('space')
 
         self.parse_inline(text)
 
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index cc29fb4..0c487a8 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -156,7 +156,7 @@ class BlockRules:
             self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<space> (?<!\\)$\n(?!\s*$) )? (?P<text> .+ )'
+            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From 3d21cd67f77b9897d47702489ab15cdf03ea08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 45/96] fix: a single backslash at the end of a line does not
 remove the line end

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 0c487a8..e9dfb9e 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -153,10 +153,10 @@ class BlockRules:
     def __init__(self, blog_line_breaks=True):
         if blog_line_breaks:
             # use blog style line breaks (every line break would be converted into <br />)
-            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<break> (?<!\\\\)$\n(?!\s*$) )?'
         else:
             # use wiki style line breaks, seperate lines with one space
-            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\)$\n(?!\s*$) )?'
+            self.text = r'(?P<text> .+ ) (?P<space> (?<!\\\\)$\n(?!\s*$) )?'
 
         self.rules = (
             self.macro_block,
-- 
2.43.0


From 97b01da2e26c86ce3a4059fe33bd8075a8e9349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 46/96] fix: empty list items, headings and table rows do not
 swallow the next line

---
 creole/parser/creol2html_rules.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index e9dfb9e..113ee74 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -121,9 +121,9 @@ class BlockRules:
 
     head = r'''(?P<head>
         ^
-        (?P<head_head>=+) \s*
+        (?P<head_head>=+) [ \t]*
         (?P<head_text> .*? )
-        (=|\s)*?$
+        (=|[ \t])*?$
     )'''
     separator = r'(?P<separator> ^ \s* ----) [ \t]* $'  # horizontal line
 
@@ -139,14 +139,14 @@ class BlockRules:
     # Matches the whole list, separate items are parsed later.
     # The list *must* start with a single bullet.
     list = r'''(?P<list>
-        ^ \s* ([*][^*\#]|[\#][^\#*]).* $
+        ^ \s* ([*](?![*\#])|[\#](?![\#*])).* $
         ( \n[ \t]* [*\#]+.* $ )*
     )'''
 
     table = r'''^ \s*(?P<table>
-            [|].*? \s*
+            [|].*? [ \t]*
             [|]?
-        ) \s* $'''
+        ) [ \t]* $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
@@ -172,9 +172,9 @@ class SpecialRules:
     """
     # Matches single list items:
     item = r'''^ \s* (?P<item>
-        (?P<item_head> [\#*]+) \s*
+        (?P<item_head> [\#*]+) [ \t]*
         (?P<item_text> .*?)
-    ) \s* $'''
+    ) [ \t]* $'''
 
     # For splitting table cells:
     cell = r'''
-- 
2.43.0


From 7801b35303785c71cccedc0e8b1bb2cb4e08aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 47/96] fix: a pipe in inline code containing '}}' does not
 split the table cell

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 113ee74..56c874d 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -186,8 +186,8 @@ class SpecialRules:
         ''' % '|'.join([
         InlineRules.link,
         InlineRules.macro_inline, InlineRules.macro_tag,
-        InlineRules.image,
-        InlineRules.pre_inline
+        InlineRules.pre_inline,
+        InlineRules.image
     ])
 
     # For pre escaping, in creole 1.0 done with ~:
-- 
2.43.0


From 1df049be165b1794916d5bdc9f8ad65f8bd9a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 48/96] fix: a macro tag is not taken for a macro whose name is
 a prefix of its name

---
 creole/parser/creol2html_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 56c874d..f888f5c 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -59,7 +59,7 @@ class InlineRules:
     # a macro like: <<macro>>text<</macro>>
     macro_inline = r'''
         (?P<macro_inline>
-        << \s* (?P<macro_inline_start>\w+) \s* (?P<macro_inline_args>.*?) \s* >>
+        << \s* (?P<macro_inline_start>\w+)\b \s* (?P<macro_inline_args>.*?) \s* >>
         (?P<macro_inline_text>(.|\n)*?)
         <</ \s* (?P=macro_inline_start) \s* >>
         )
@@ -111,7 +111,7 @@ class BlockRules:
 
     macro_block = r'''
         (?P<macro_block>
-        << \s* (?P<macro_block_start>\w+) \s* (?P<macro_block_args>.*?) \s* >>
+        << \s* (?P<macro_block_start>\w+)\b \s* (?P<macro_block_args>.*?) \s* >>
         (?P<macro_block_text>(.|\n)*?)
         <</ \s* (?P=macro_block_start) \s* >>
         )
-- 
2.43.0


From 1f30efe92748e6af5b48593095873aac38380a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 49/96] fix: escape the value in the error message about a
 macro's result

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 16b2040..1580505 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -363,7 +363,7 @@ class HtmlEmitter:
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += self.html_escape(f" - returns: {result!r}, type {type(result)!r}")
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 7312f1fc70224893a42d07a73825f858bc6ec30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 50/96] fix: report a macro's own TypeError subclass at
 verbosity 2

---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1580505..12ec947 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -346,11 +346,11 @@ class HtmlEmitter:
                     try:
                         sourceline = inspect.getsourcelines(macro)[0][0].strip()
                     except OSError as err:
-                        evalue = etype(
+                        evalue = TypeError(
                             f"{evalue} (error getting sourceline: {err} from {filename})"
                         )
                     else:
-                        evalue = etype(f"{evalue} (sourceline: {sourceline!r} from {filename})")
+                        evalue = TypeError(f"{evalue} (sourceline: {sourceline!r} from {filename})")
                     exc_info = etype, evalue, etb
 
             return self.error(msg, exc_info)
-- 
2.43.0


From cdc5bbeeca347dac26fe478673e7d993773b2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 51/96] fix: pipes in links, images and code don't split a
 header cell

---
 creole/parser/creol2html_parser.py | 4 ++--
 creole/parser/creol2html_rules.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index cc714a3..77776a8 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -332,12 +332,12 @@ class CreoleParser:
 
         for m in self.cell_re.finditer(row):
             cell = m.group('cell')
-            if cell is not None:
+            if m.group('head') is None:
                 text = cell.strip()
                 self.cur = DocNode('table_cell', tr)
                 self.text = None
             else:
-                text = m.group('head').strip('= ')
+                text = cell.strip('= ')
                 self.cur = DocNode('table_head', tr)
                 self.text = DocNode('text', self.cur, "")
             self.parse_inline(text)
diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index f888f5c..3325b6e 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -180,7 +180,7 @@ class SpecialRules:
     cell = r'''
             \| \s*
             (
-                (?P<head> [=][^|]+ ) |
+                (?P<head> = (?=[^|]) )?
                 (?P<cell> (  %s | [^|])+ | (?=\|) )
             ) \s*
         ''' % '|'.join([
-- 
2.43.0


From d10f4b141589dcc1daf078c12d4e4a7ef3778da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 52/96] fix: text and block elements beside it are not joined
 into one word

---
 creole/shared/base_emitter.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index a4e972c..2822743 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -14,6 +14,10 @@ from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
+# These nodes never continue the text before them:
+SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag not in ("br", "ins")))
+
+
 class BaseEmitter:
     """
     Build from a document_tree (html2creole.parser.HtmlParser instance) a
@@ -218,12 +222,28 @@ class BaseEmitter:
         """Emit all the children of a node."""
         self.last = node
         result = []
+        last_kind = None
+        last_content = ""
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
+            if content:
+                # A block doesn't join with the text beside it, e.g.: foo<p>bar</p>
+                is_block = child.kind in SEPARATED_KINDS or last_kind in SEPARATED_KINDS
+                if is_block and last_content and not (last_content[-1].isspace() or content[0].isspace()):
+                    result.append(" " if self._in_single_line(node) else "\n\n")
+                last_kind = child.kind
+                last_content = content
             result.append(content)
         return result
 
+    def _in_single_line(self, node):
+        while node is not None:
+            if node.kind in ("li", "headline"):
+                return True
+            node = node.parent
+        return False
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
-- 
2.43.0


From be65f16acae1cf6c18d74ae23583782398806000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 53/96] fix: adjacent tables stay separate tables (creole,
 textile)

---
 creole/emitter/html2textile_emitter.py | 6 ++++++
 creole/shared/base_emitter.py          | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 4884183..198eb2c 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -124,6 +124,12 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def table_emit(self, node):
+        # In textile every block must be ended by a blank line
+        return f"{super().table_emit(node)}\n"
+
+    # --------------------------------------------------------------------------
+
     def ul_emit(self, node):
         return self._list_emit(node, list_type="*")
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 2822743..0c4a0e8 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -141,6 +141,8 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
+        # Without a blank line two tables would be one
+        start = "\n" if self.last is not None and self.last.kind == "table" else ""
         outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
@@ -150,7 +152,7 @@ class BaseEmitter:
         text = self._get_table_text(node)
         content = self._table.get_table_markup()
         self._table = outer_table
-        return f"{text}{content}\n"
+        return f"{start}{text}{content}\n"
 
     def _get_table_text(self, node):
         """
-- 
2.43.0


From 1af89ae3e96c525f13b2c8fbc21b48e00464b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 54/96] fix: blocks inside of e.g. a div keep their lines

---
 creole/shared/base_emitter.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 0c4a0e8..4faf94f 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -197,8 +197,20 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _contains_blocks(self, node):
+        return any(
+            child.kind in SEPARATED_KINDS or child.kind.startswith("blockdata_") or self._contains_blocks(child)
+            for child in node.children
+        )
+
     def _emit_content(self, node):
         content = self.emit_children(node)
+        if self._in_single_line(node):
+            return self._escape_linebreaks(content)
+        if self._contains_blocks(node):
+            # The line breaks are part of the markup, e.g.: <div><ul>...</ul></div>
+            content = content.strip("\n")
+            return f"{content}\n\n"
         content = self._escape_linebreaks(content)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
-- 
2.43.0


From feba762b847b3dfacdda62618d55ff6e32dba6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 55/96] fix: dt, dd, caption and the HTML5 block elements are
 block tags

---
 creole/parser/html_parser_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 939b18b..baa5e94 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -16,7 +16,9 @@ BLOCK_TAGS = (
     "hr", "ins", "isindex", "men", "noframes", "noscript",
     "ul", "ol", "li", "table", "th", "tr", "td",
     "p", "pre",
-    "br"
+    "br",
+    "article", "aside", "body", "caption", "dd", "details", "dt", "figcaption", "figure", "footer",
+    "head", "header", "html", "main", "nav", "section", "summary", "title",
 )
 IGNORE_TAGS = ("tbody", "thead", "tfoot")
 VOID_TAGS = (  # tags without content and end tag
-- 
2.43.0


From 1b38f13abad44f6a62019ca6e0ea9c60841dfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 56/96] fix: line breaks in a cell don't break the Markdown
 table

---
 creole/emitter/html2markdown_emitter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index de63184..665bb7f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -68,16 +68,21 @@ class MarkdownEmitter(BaseEmitter):
         self._table.add_tr()
         return self.emit_children(node)
 
+    def _cell_content(self, node):
+        # A table row is always one line
+        lines = (line.strip() for line in self.emit_children(node).split('\n'))
+        return '<br />'.join(line for line in lines if line)
+
     def th_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_th(self.emit_children(node))
+        self._table.add_th(self._cell_content(node))
         return ''
 
     def td_emit(self, node):
         if self._table is None:  # not in a table
             return self._emit_content(node)
-        self._table.add_td(self.emit_children(node))
+        self._table.add_td(self._cell_content(node))
         return ''
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From f9d3cfc54e031b4bdad4f2157c7844ade10dc84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:50 +0000
Subject: [PATCH 57/96] fix: an image named data is no data URL

---
 creole/emitter/html2creole_emitter.py  | 2 +-
 creole/emitter/html2rest_emitter.py    | 2 +-
 creole/emitter/html2textile_emitter.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 260586b..0cdd940 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -123,7 +123,7 @@ class CreoleEmitter(BaseEmitter):
         if not src:
             return node.attrs.get("alt") or node.attrs.get("title", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index fd93e36..7ecfc02 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -237,7 +237,7 @@ class ReStructuredTextEmitter(BaseEmitter):
         if not src:
             return node.attrs.get("alt") or node.attrs.get("title", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 198eb2c..53b1cb7 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -107,7 +107,7 @@ class TextileEmitter(BaseEmitter):
         if not src:
             return node.attrs.get("alt") or node.attrs.get("title", "")
 
-        if src.split(':')[0] == 'data':
+        if src.startswith('data:'):
             return ""
 
         title = node.attrs.get("title", "")
-- 
2.43.0


From 0cbbeca4a71be9c7eb05f739197d3da425afddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 58/96] fix: adjacent tables stay separate inside of e.g. a
 div, too

---
 creole/shared/base_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 4faf94f..d07a874 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -141,8 +141,6 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def table_emit(self, node):
-        # Without a blank line two tables would be one
-        start = "\n" if self.last is not None and self.last.kind == "table" else ""
         outer_table = self._table
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
@@ -152,7 +150,7 @@ class BaseEmitter:
         text = self._get_table_text(node)
         content = self._table.get_table_markup()
         self._table = outer_table
-        return f"{start}{text}{content}\n"
+        return f"{text}{content}\n"
 
     def _get_table_text(self, node):
         """
@@ -246,6 +244,8 @@ class BaseEmitter:
                 is_block = child.kind in SEPARATED_KINDS or last_kind in SEPARATED_KINDS
                 if is_block and last_content and not (last_content[-1].isspace() or content[0].isspace()):
                     result.append(" " if self._in_single_line(node) else "\n\n")
+                elif last_content.endswith("|\n") and content.startswith("|"):
+                    result.append("\n")  # Without a blank line two tables would be one
                 last_kind = child.kind
                 last_content = content
             result.append(content)
-- 
2.43.0


From 6ca723897f0aa19121f846d9de13f0602a91a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 59/96] fix: emphasised text at the start of a Textile cell
 doesn't make it a header cell

---
 creole/emitter/html2textile_emitter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 53b1cb7..8e6edd3 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -124,6 +124,12 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def td_emit(self, node):
+        result = super().td_emit(node)
+        if self._table is not None and self._table.rows[-1][-1].startswith("_"):
+            self._table.rows[-1][-1] = " " + self._table.rows[-1][-1]  # "|_" starts a header cell
+        return result
+
     def table_emit(self, node):
         # In textile every block must be ended by a blank line
         return f"{super().table_emit(node)}\n"
-- 
2.43.0


From f3801b3f26e9eef41dcb60a315cf9b1e1d23da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 60/96] fix: an empty one column table is a table in ReSt, too

---
 creole/shared/markup_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 80e02dd..9fad3cb 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -101,6 +101,9 @@ class MarkupTable:
         # preformat every table cell
         cells, widths = self._get_preformat_info()
 
+        # A table with only one narrow column isn't a table in ReSt
+        widths = [max(3, width) for width in widths]
+
         # Every row must have the same number of cells in ReSt
         cells = [row + [''] * (len(widths) - len(row)) for row in cells]
 
-- 
2.43.0


From b9b394cc78bac244272ccdf18fedbef612d0b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 61/96] fix: ins is an inline element

---
 creole/parser/html_parser_config.py | 2 +-
 creole/shared/base_emitter.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index baa5e94..31813d0 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -13,7 +13,7 @@ BLOCK_TAGS = (
     "address", "blockquote", "center", "dir", "div", "dl", "fieldset",
     "form",
     "h1", "h2", "h3", "h4", "h5", "h6",
-    "hr", "ins", "isindex", "men", "noframes", "noscript",
+    "hr", "isindex", "men", "noframes", "noscript",
     "ul", "ol", "li", "table", "th", "tr", "td",
     "p", "pre",
     "br",
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index d07a874..4f30169 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -15,7 +15,7 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
 # These nodes never continue the text before them:
-SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag not in ("br", "ins")))
+SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag != "br"))
 
 
 class BaseEmitter:
-- 
2.43.0


From 0b16e3cd5def30d805a9413eaa1ad6d30c452993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 62/96] fix: unknown tags named like an internal node kind,
 e.g. <data>

---
 creole/shared/base_emitter.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 4f30169..7e835e3 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -17,6 +17,12 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 # These nodes never continue the text before them:
 SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag != "br"))
 
+# Kinds of nodes, created by the HtmlParser itself:
+INTERNAL_KINDS = (
+    "document", "headline", "data", "charref", "entityref", "list",
+    "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+)
+
 
 class BaseEmitter:
     """
@@ -258,6 +264,13 @@ class BaseEmitter:
             node = node.parent
         return False
 
+    def _is_tag_like_internal_node(self, node):
+        """
+        A unknown html tag with the name of a internal node kind, e.g.: <data>foo</data>
+        """
+        is_internal_kind = node.kind in INTERNAL_KINDS
+        return is_internal_kind and node is not self.root and node.content is None and node.level is None
+
     def emit_node(self, node):
         """Emit a single node."""
         def unicode_error(method_name, method, node, content):
@@ -273,6 +286,8 @@ class BaseEmitter:
 
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
+        if self._is_tag_like_internal_node(node):
+            emit_method = None
 
         if emit_method:
             content = emit_method(node)
-- 
2.43.0


From b690d4e6741938f66b4ccf773d8b77655733f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 63/96] fix: a tag of the html code is never taken for the
 placeholder of a pre area

---
 creole/parser/html_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index cfd09ee..c7fd916 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -88,6 +88,7 @@ class HtmlParser(HTMLParser):
             self.result = []
 
         self.blockdata = []
+        self._placeholder_key = "key0"
 
         self.root = DocNode("document", None)
         self.cur = self.root
@@ -101,7 +102,7 @@ class HtmlParser(HTMLParser):
         assert isinstance(data, str), "blockdata is not unicode"
         self.blockdata.append(data)
         id = len(self.blockdata) - 1
-        return f'<{placeholder} type="{type}" id="{id}" />'
+        return f'<{placeholder} type="{type}" id="{id}" key="{self._placeholder_key}" />'
 
     def _pre_pre_inline_cut(self, groups):
         return self._pre_cut(groups["pre_inline"], "pre", self._inline_placeholder)
@@ -130,6 +131,10 @@ class HtmlParser(HTMLParser):
         assert isinstance(raw_data, str), "feed data must be unicode!"
         data = raw_data.strip()
         if preprocess:
+            # A value to recognize our placeholders: It must not be used in the html code
+            while self._placeholder_key in data:
+                self._placeholder_key += "0"
+
             # cut out <pre> and <tt> areas block tag areas
             data = block_re.sub(self._pre_cut_out, data)
             data = inline_re.sub(self._pre_cut_out, data)
@@ -227,7 +232,8 @@ class HtmlParser(HTMLParser):
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
         attr_dict = dict(attrs)
-        if tag in (self._block_placeholder, self._inline_placeholder):
+        is_placeholder = attr_dict.get("key") == self._placeholder_key
+        if is_placeholder and tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
 #            block_type = attr_dict["type"]
             DocNode(
-- 
2.43.0


From 03d18898fddbbf4db96286c46e0f39d2480103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 64/96] fix: empty list item tag in markdown and rest, e.g.
 <li/>

---
 creole/parser/html_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index c7fd916..e3e22a4 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -243,7 +243,8 @@ class HtmlParser(HTMLParser):
                 #                attrs = attr_dict
             )
         else:
-            DocNode(tag, self.cur, None, self._clean_attrs(attrs))
+            level = self.__list_level if tag in ("li", "ul", "ol") else None
+            DocNode(tag, self.cur, None, self._clean_attrs(attrs), level=level)
 
     def handle_endtag(self, tag):
         if tag in IGNORE_TAGS:
-- 
2.43.0


From 258846fd1b79447299e6eef10cd6b442d39c0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 65/96] fix: blocks inside of inline code in markdown and rest

---
 creole/emitter/html2markdown_emitter.py | 2 +-
 creole/emitter/html2rest_emitter.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 665bb7f..9afed64 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -254,7 +254,7 @@ class MarkdownEmitter(BaseEmitter):
         )
 
     def code_emit(self, node: DocNode):
-        code_block = self._emit_content(node)
+        code_block = self._escape_linebreaks(self.emit_children(node))
         assert '\n' not in code_block
 
         if '`' in code_block:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 7ecfc02..a425d8f 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -263,7 +263,8 @@ class ReStructuredTextEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
 
     def code_emit(self, node):
-        return f"``{self._emit_content(node)}``"
+        content = self._escape_linebreaks(self.emit_children(node))
+        return f"``{content}``"
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From e77319f19ba7c99c352a032966b09b7574b3065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 66/96] fix: an end tag closes its own element: blocks inside
 inline or unknown elements, stray and missing end tags

---
 creole/parser/html_parser.py        | 54 ++++++++++++++++-------------
 creole/parser/html_parser_config.py |  1 +
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index e3e22a4..750ffd0 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -11,7 +11,7 @@ import warnings
 from html.parser import HTMLParser
 
 from creole.html_tools.strip_html import strip_html
-from creole.parser.html_parser_config import BLOCK_TAGS, IGNORE_TAGS, VOID_TAGS
+from creole.parser.html_parser_config import IGNORE_TAGS, TABLE_TAGS, VOID_TAGS
 from creole.shared.document_tree import DebugList, DocNode
 
 
@@ -93,7 +93,6 @@ class HtmlParser(HTMLParser):
         self.root = DocNode("document", None)
         self.cur = self.root
 
-        self.__list_level = 0
 
     def _pre_cut(self, data, type, placeholder):
         # TODO: Check if we have a code block, e.g.: "<pre><code>...</code></pre>"
@@ -165,23 +164,30 @@ class HtmlParser(HTMLParser):
 
     # -------------------------------------------------------------------------
 
-    def _upto(self, node, kinds):
+    def _get_open_node(self, tag):
         """
-        Look up the tree to the first occurence
-        of one of the listed kinds of nodes or root.
-        Start at the node node.
+        Look up the tree to the open node of the given end tag.
         """
-        while node is not None and node.parent is not None:
+        kind = "headline" if headline_tag_re.match(tag) else tag
+        node = self.cur
+        while node is not self.root:
+            if node.kind == kind:
+                return node
+            if node.kind == "table" or node.kind in TABLE_TAGS and tag not in TABLE_TAGS:
+                return None  # don't close the table or the cell around
             node = node.parent
-            if node.kind in kinds:
-                break
 
-        return node
-
-    def _go_up(self):
-        kinds = list(BLOCK_TAGS) + ["document"]
-        self.cur = self._upto(self.cur, kinds)
-        self.debug_msg("go up to", self.cur)
+    def _get_list_level(self, tag):
+        """
+        The number of lists which are open, a list itself counts, too.
+        """
+        level = 1 if tag in ("ul", "ol") else 0
+        node = self.cur
+        while node is not self.root:
+            if node.kind in ("ul", "ol"):
+                level += 1
+            node = node.parent
+        return level
 
     # -------------------------------------------------------------------------
 
@@ -201,9 +207,7 @@ class HtmlParser(HTMLParser):
             return
 
         if tag in ("li", "ul", "ol"):
-            if tag in ("ul", "ol"):
-                self.__list_level += 1
-            self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
+            self.cur = DocNode(tag, self.cur, None, attrs, level=self._get_list_level(tag))
         elif tag in VOID_TAGS:
             # Work-a-round if e.g. img or br tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
@@ -243,7 +247,7 @@ class HtmlParser(HTMLParser):
                 #                attrs = attr_dict
             )
         else:
-            level = self.__list_level if tag in ("li", "ul", "ol") else None
+            level = self._get_list_level(tag) if tag in ("li", "ul", "ol") else None
             DocNode(tag, self.cur, None, self._clean_attrs(attrs), level=level)
 
     def handle_endtag(self, tag):
@@ -257,13 +261,13 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol") and self.__list_level > 0:
-            self.__list_level -= 1
+        node = self._get_open_node(tag)
+        if node is None:  # a end tag without a start tag
+            return
 
-        if tag in BLOCK_TAGS:
-            self._go_up()
-        elif self.cur.parent is not None:
-            self.cur = self.cur.parent
+        # Close all unclosed tags inside, too
+        self.cur = node.parent
+        self.debug_msg("go up to", self.cur)
 
     # -------------------------------------------------------------------------
 
diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 31813d0..a4731e0 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -20,6 +20,7 @@ BLOCK_TAGS = (
     "article", "aside", "body", "caption", "dd", "details", "dt", "figcaption", "figure", "footer",
     "head", "header", "html", "main", "nav", "section", "summary", "title",
 )
+TABLE_TAGS = ("table", "caption", "tr", "th", "td")
 IGNORE_TAGS = ("tbody", "thead", "tfoot")
 VOID_TAGS = (  # tags without content and end tag
     "area", "base", "br", "col", "embed", "hr", "img", "input",
-- 
2.43.0


From 1a121e0cd25d51f7db7146350e5cfcc146e0d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 67/96] fix: short headings in ReSt need an adornment of four
 characters

---
 creole/emitter/html2rest_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index a425d8f..76c0f96 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -122,7 +122,7 @@ class ReStructuredTextEmitter(BaseEmitter):
             level = 6
 
         char, both = self.HEADLINE_DATA[level]
-        markup = char * text_width(text)
+        markup = char * max(4, text_width(text))  # docutils ignores a overline that is too short
 
         if both:
             format = "%(m)s\n%(t)s\n%(m)s\n\n"
-- 
2.43.0


From 7dc53a413cfbc4dc3e9cfe0533d8ccf3ef1539e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 68/96] fix: pre as a block: text after it isn't indented, in
 containers, spanning blocks; no pre in comments, attributes, scripts

---
 creole/emitter/html2creole_emitter.py   |  3 +-
 creole/emitter/html2markdown_emitter.py |  3 ++
 creole/emitter/html2rest_emitter.py     |  7 ++-
 creole/emitter/html2textile_emitter.py  |  5 ++-
 creole/html_tools/strip_html.py         |  2 +-
 creole/parser/html_parser.py            | 33 +++++++++-----
 creole/shared/base_emitter.py           | 60 ++++++++++++++++++++++---
 7 files changed, 89 insertions(+), 24 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 0cdd940..911b3bb 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -46,8 +46,7 @@ class CreoleEmitter(BaseEmitter):
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-        if node.parent is self.root and "\n" in node.content:
-            # In creole only a block can contain more than one line
+        if self._is_pre_block(node):
             start = "\n\n" if self._follows_inline(node) else ""
             return start + self.blockdata_pre_emit(node)
         return "{{{%s}}}" % self.deentity.replace_all(node.content)
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 9afed64..0792595 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -102,6 +102,9 @@ class MarkdownEmitter(BaseEmitter):
         """pre block -> with newline at the end"""
         return self._code_fence(self.deentity.replace_all(node.content))
 
+    def _is_pre_block(self, node: DocNode):
+        return True  # it's always a code block
+
     def inlinedata_pre_emit(self, node: DocNode):
         """a pre inline block -> no newline at the end"""
         pre_content = node.content
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 76c0f96..3978811 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -63,10 +63,13 @@ class ReStructuredTextEmitter(BaseEmitter):
         pre_block = "\n".join(f"    {line}" for line in lines)
         return f"::\n\n{pre_block}\n\n"
 
+    def _is_pre_block(self, node):
+        # <pre>foo</pre> between other blocks is a preformatted block, too
+        return self._is_between_blocks(node)
+
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
-        if node.parent is self.root:
-            # <pre>foo</pre> between other blocks is a preformatted block, too
+        if self._is_pre_block(node):
             start = "\n\n" if self._follows_inline(node) else ""
             return start + self.blockdata_pre_emit(node)
         return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 8e6edd3..c43d579 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -33,10 +33,13 @@ class TextileEmitter(BaseEmitter):
 
     def blockdata_pre_emit(self, node):
         """ pre block -> with newline at the end """
-        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n"
+        return f"<pre>{self.deentity.replace_all(node.content)}</pre>\n\n"
 
     def inlinedata_pre_emit(self, node):
         """ a pre inline block -> no newline at the end """
+        if self._is_pre_block(node):
+            start = "\n\n" if self._follows_inline(node) else ""
+            return start + self.blockdata_pre_emit(node)
         return f"<pre>{self.deentity.replace_all(node.content)}</pre>"
 
     def blockdata_pass_emit(self, node):
diff --git a/creole/html_tools/strip_html.py b/creole/html_tools/strip_html.py
index 27db40e..8c2dda1 100644
--- a/creole/html_tools/strip_html.py
+++ b/creole/html_tools/strip_html.py
@@ -16,7 +16,7 @@ from creole.parser.html_parser_config import BLOCK_TAGS, VOID_TAGS
 # Only these characters are whitespace in html (e.g.: not the no-break space)
 whitespace_regex = re.compile(r"[ \t\n\r\f\v]+")
 
-comment_regex = re.compile(r" *(?P<comment><!--.*?--\s*>) *", re.DOTALL)
+comment_regex = re.compile(r" *(?P<comment><!--.*?--[!\s]*>) *", re.DOTALL)
 
 strip_html_regex = re.compile(
     r"""
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 750ffd0..26e6f46 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -17,22 +17,29 @@ from creole.shared.document_tree import DebugList, DocNode
 
 # ------------------------------------------------------------------------------
 
-block_re = re.compile(r'''
-    ^<pre(?:\s[^>]*)?> [^\S\n]* $
+ATTRS = r'''(?: = \s* "[^"]*" | = \s* '[^']*' | = (?! \s* (?: "[^"]*" | '[^']*' ) ) | [^>=] )*'''
+
+pre_re = re.compile(rf'''
+    # Not interpreted: the content of comments, attributes and e.g.: <script>
+    (?P<other>
+        <!--.*?--!?>
+        | <(?P<raw_tag>script|style|textarea|title|xmp|iframe|noembed|noframes) (?:\s{ATTRS})?> .*? </(?P=raw_tag)\s*>
+        | <(?!pre[\s/>])[a-z]{ATTRS}>
+    )
+    |
+    ^<pre(?:\s{ATTRS})?> [^\S\n]* $
     (?P<pre_block>
-        (\n|.)*?
+        (?: (?!</pre\s*>). )*?
     )
     ^</pre\s*> \s* $
-    [\s\n]*
-''', re.VERBOSE | re.UNICODE | re.MULTILINE | re.IGNORECASE)
-
-inline_re = re.compile(r'''
-    <pre(?:\s[^>]*)?>
+    \s*
+    |
+    <pre(?:\s{ATTRS})?>
     (?P<pre_inline>
-        (\n|.)*?
+        .*?
     )
     </pre\s*>
-''', re.VERBOSE | re.UNICODE | re.IGNORECASE)
+''', re.VERBOSE | re.DOTALL | re.MULTILINE | re.IGNORECASE)
 
 
 headline_tag_re = re.compile(r"h([1-9])$")
@@ -117,6 +124,9 @@ class HtmlParser(HTMLParser):
 
     def _pre_cut_out(self, match):
         groups = match.groupdict()
+        if groups.pop("other") is not None:
+            return match.group(0)
+
         for name, text in groups.items():
             if text is not None:
                 if self.debugging:
@@ -135,8 +145,7 @@ class HtmlParser(HTMLParser):
                 self._placeholder_key += "0"
 
             # cut out <pre> and <tt> areas block tag areas
-            data = block_re.sub(self._pre_cut_out, data)
-            data = inline_re.sub(self._pre_cut_out, data)
+            data = pre_re.sub(self._pre_cut_out, data)
 
             # Delete whitespace from html code
             data = strip_html(data)
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 7e835e3..8b5e832 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -17,6 +17,12 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 # These nodes never continue the text before them:
 SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag != "br"))
 
+# Tags which can contain all other blocks:
+CONTAINER_TAGS = (
+    "address", "article", "aside", "blockquote", "body", "center", "details", "div", "fieldset", "figure", "footer",
+    "form", "header", "html", "main", "nav", "section",
+)
+
 # Kinds of nodes, created by the HtmlParser itself:
 INTERNAL_KINDS = (
     "document", "headline", "data", "charref", "entityref", "list",
@@ -53,16 +59,53 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _is_inline(self, node):
+        if node.kind == "inlinedata_pre":
+            return not self._is_pre_block(node)
+        return node.kind not in (*BLOCK_TAGS, "headline", "blockdata_pre")
+
+    def _get_neighbor(self, node, step):
+        """
+        The next sibling in the given direction, which isn't only a blank.
+        """
+        siblings = node.parent.children
+        index = siblings.index(node) + step
+        while 0 <= index < len(siblings):
+            if siblings[index].kind != "data" or siblings[index].content.strip(" "):
+                return siblings[index]
+            index += step
+
     def _follows_inline(self, node):
         """
         Is there text or a inline element directly before the node?
         """
-        siblings = node.parent.children
-        index = siblings.index(node)
-        if index == 0:
+        neighbor = self._get_neighbor(node, step=-1)
+        return neighbor is not None and self._is_inline(neighbor)
+
+    def _is_pre_block(self, node):
+        """
+        Is this <pre>...</pre> a block and not a part of a text?
+        """
+        if not self._is_between_blocks(node):
             return False
-        block_kinds = (*BLOCK_TAGS, "headline", "blockdata_pre")
-        return siblings[index - 1].kind not in block_kinds
+        if "\n" in node.content:  # More than one line doesn't fit in a text
+            return True
+        neighbors = [self._get_neighbor(node, step=-1), self._get_neighbor(node, step=1)]
+        neighbors = [neighbor for neighbor in neighbors if neighbor is not None]
+        return neighbors != [] and all(
+            neighbor.kind == "inlinedata_pre" or not self._is_inline(neighbor)
+            for neighbor in neighbors
+        )
+
+    def _is_between_blocks(self, node):
+        """
+        Can a block be placed here? e.g.: in <body>...</body>, but not in a table cell
+        """
+        while node.parent is not self.root:
+            node = node.parent
+            if node.kind not in CONTAINER_TAGS:
+                return False
+        return True
 
     def data_emit(self, node):
         # node.debug()
@@ -203,7 +246,10 @@ class BaseEmitter:
 
     def _contains_blocks(self, node):
         return any(
-            child.kind in SEPARATED_KINDS or child.kind.startswith("blockdata_") or self._contains_blocks(child)
+            child.kind in SEPARATED_KINDS
+            or child.kind.startswith("blockdata_")
+            or child.kind == "inlinedata_pre" and self._is_pre_block(child)
+            or self._contains_blocks(child)
             for child in node.children
         )
 
@@ -245,6 +291,8 @@ class BaseEmitter:
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
+            if child.kind == "data" and last_content.endswith("\n"):
+                content = content.lstrip(" ")  # e.g.: <pre>...</pre> foo
             if content:
                 # A block doesn't join with the text beside it, e.g.: foo<p>bar</p>
                 is_block = child.kind in SEPARATED_KINDS or last_kind in SEPARATED_KINDS
-- 
2.43.0


From e54a7b411bed0f7e8c0392c2ebc61bc0ad02b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 69/96] fix: a link text is always one line, e.g.: <a
 href="/foo/"><p>foo</p></a>

---
 creole/emitter/html2creole_emitter.py   | 2 +-
 creole/emitter/html2markdown_emitter.py | 2 +-
 creole/emitter/html2rest_emitter.py     | 2 +-
 creole/emitter/html2textile_emitter.py  | 2 +-
 creole/shared/base_emitter.py           | 9 ++++++++-
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 911b3bb..64a677d 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -107,7 +107,7 @@ class CreoleEmitter(BaseEmitter):
         return "----\n\n"
 
     def a_emit(self, node):
-        link_text = self.emit_children(node)
+        link_text = self._get_link_text(node)
         url = node.attrs.get("href")
         if not url:
             # e.g.: <a name="anchor-one">foo</a>
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 0792595..67564eb 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -183,7 +183,7 @@ class MarkdownEmitter(BaseEmitter):
         return '\n----\n'
 
     def a_emit(self, node: DocNode):
-        link_text = self.emit_children(node)
+        link_text = self._get_link_text(node)
 
         url = node.attrs.get('href')
         if not url:
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 3978811..fa7409a 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -211,7 +211,7 @@ class ReStructuredTextEmitter(BaseEmitter):
                 raise Html2restException(msg)
 
     def a_emit(self, node):
-        link_text = self.emit_children(node)
+        link_text = self._get_link_text(node)
         url = node.attrs.get("href")
         if not url:
             # e.g.: <a name="anchor-one">foo</a>
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index c43d579..b73158c 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -98,7 +98,7 @@ class TextileEmitter(BaseEmitter):
         return "----\n\n"
 
     def a_emit(self, node):
-        link_text = self.emit_children(node)
+        link_text = self._get_link_text(node)
         url = node.attrs.get("href")
         if not url:
             # e.g.: <a name="anchor-one">foo</a>
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 8b5e832..e80032b 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -71,7 +71,7 @@ class BaseEmitter:
         siblings = node.parent.children
         index = siblings.index(node) + step
         while 0 <= index < len(siblings):
-            if siblings[index].kind != "data" or siblings[index].content.strip(" "):
+            if siblings[index].kind != "data" or siblings[index].content != " ":
                 return siblings[index]
             index += step
 
@@ -158,6 +158,13 @@ class BaseEmitter:
     def _typeface(self, node, key):
         return key + self.emit_children(node) + key
 
+    def _get_link_text(self, node):
+        content = self.emit_children(node)
+        if self._contains_blocks(node):
+            # e.g.: <a href="/foo/"><p>foo</p></a> - A link text is always one line
+            content = " ".join(content.split())
+        return content
+
     # --------------------------------------------------------------------------
 
     def li_emit(self, node):
-- 
2.43.0


From a7fb9febe93f4ba79a6061b040ecfe70801b80e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 70/96] fix: pre in a unclosed script or textarea stays text

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 26e6f46..0ac151f 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -23,7 +23,7 @@ pre_re = re.compile(rf'''
     # Not interpreted: the content of comments, attributes and e.g.: <script>
     (?P<other>
         <!--.*?--!?>
-        | <(?P<raw_tag>script|style|textarea|title|xmp|iframe|noembed|noframes) (?:\s{ATTRS})?> .*? </(?P=raw_tag)\s*>
+        | <(?P<raw_tag>script|style|textarea|title|xmp|iframe|noembed|noframes) (?:\s{ATTRS})?> .*? (?:</(?P=raw_tag)\s*>|\Z)
         | <(?!pre[\s/>])[a-z]{ATTRS}>
     )
     |
-- 
2.43.0


From 31d9e54ef0a5d75082c2253c8bde755583c82361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:55 +0000
Subject: [PATCH 71/96] fix: tags after a invalid character reference are still
 tags

---
 creole/parser/html_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0ac151f..f46abaa 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -23,7 +23,7 @@ pre_re = re.compile(rf'''
     # Not interpreted: the content of comments, attributes and e.g.: <script>
     (?P<other>
         <!--.*?--!?>
-        | <(?P<raw_tag>script|style|textarea|title|xmp|iframe|noembed|noframes) (?:\s{ATTRS})?> .*? (?:</(?P=raw_tag)\s*>|\Z)
+        | <(?P<raw_tag>script|style|textarea|title|xmp|iframe|noembed|noframes) (?:\s{ATTRS})? (?<!/)> .*? (?:</(?P=raw_tag)\s*>|\Z)
         | <(?!pre[\s/>])[a-z]{ATTRS}>
     )
     |
@@ -42,6 +42,9 @@ pre_re = re.compile(rf'''
 ''', re.VERBOSE | re.DOTALL | re.MULTILINE | re.IGNORECASE)
 
 
+# "&#" without a number: HTMLParser takes all tags after it as text
+invalid_charref_re = re.compile(r"&#(?!(?:[0-9]+|[xX][0-9a-fA-F]+)(?:[^0-9a-fA-F]|$))")
+
 headline_tag_re = re.compile(r"h([1-9])$")
 
 # ------------------------------------------------------------------------------
@@ -147,6 +150,8 @@ class HtmlParser(HTMLParser):
             # cut out <pre> and <tt> areas block tag areas
             data = pre_re.sub(self._pre_cut_out, data)
 
+            data = invalid_charref_re.sub("&amp;#", data)
+
             # Delete whitespace from html code
             data = strip_html(data)
 
-- 
2.43.0


From ab5d5941020a3507ae21096a052796e3033b064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 72/96] fix: no typeface markup around blocks, e.g.:
 <b><p>foo</p><p>bar</p></b>

---
 creole/emitter/html2rest_emitter.py    | 3 ---
 creole/emitter/html2textile_emitter.py | 3 ---
 creole/shared/base_emitter.py          | 3 +++
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index fa7409a..6aef501 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -136,9 +136,6 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def _typeface(self, node, key):
-        return key + self.emit_children(node) + key
-
     def strong_emit(self, node):
         return self._typeface(node, key="**")
 
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index b73158c..7784bdd 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -55,9 +55,6 @@ class TextileEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
-    def _typeface(self, node, key):
-        return key + self.emit_children(node) + key
-
     def strong_emit(self, node):
         return self._typeface(node, key="*")
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index e80032b..71f8695 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -156,6 +156,9 @@ class BaseEmitter:
     # --------------------------------------------------------------------------
 
     def _typeface(self, node, key):
+        if self._contains_blocks(node):
+            # e.g.: <b><p>foo</p><p>bar</p></b> - Typefaces end with the paragraph
+            return self._emit_content(node)
         return key + self.emit_children(node) + key
 
     def _get_link_text(self, node):
-- 
2.43.0


From 585119cce975208479cb1c6edd3a121768331c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 73/96] fix: line breaks in a link text in ReSt

---
 creole/emitter/html2rest_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 6aef501..17b8d3b 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -207,6 +207,10 @@ class ReStructuredTextEmitter(BaseEmitter):
                 ) % (text, old_url, url)
                 raise Html2restException(msg)
 
+    def _get_link_text(self, node):
+        # e.g.: The text of ".. _foo: /bar/" can't be continued in the next line
+        return " ".join(super()._get_link_text(node).split("\n"))
+
     def a_emit(self, node):
         link_text = self._get_link_text(node)
         url = node.attrs.get("href")
-- 
2.43.0


From 89c2e84f06d8e8e5007acacb1a254a064944ecf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 74/96] fix: no ReSt substitution data in the middle of a text
 outside of a paragraph

---
 creole/emitter/html2rest_emitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 17b8d3b..d1cd126 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -99,7 +99,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def emit_node(self, node):
         result = ""
-        if self._substitution_data and node.parent == self.root:
+        is_block = node.kind != "br" and not self._is_inline(node)
+        if self._substitution_data and is_block and node.parent == self.root:
             result += f"{self._get_block_data()}\n\n"
 
         result += super().emit_node(node)
-- 
2.43.0


From aab382b9fdaded51b379c41286fccf3a411d65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 75/96] fix: tag named inlinedata_pre in a container

---
 creole/shared/base_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 71f8695..dde4126 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -86,7 +86,7 @@ class BaseEmitter:
         """
         Is this <pre>...</pre> a block and not a part of a text?
         """
-        if not self._is_between_blocks(node):
+        if not self._is_between_blocks(node) or self._is_tag_like_internal_node(node):
             return False
         if "\n" in node.content:  # More than one line doesn't fit in a text
             return True
-- 
2.43.0


From 30db1a6da258885c6e4662e0dd688553efbe6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 76/96] fix: a text outside of a paragraph and the paragraph
 beside it are separated in Markdown; line breaks in a div are line breaks

---
 creole/emitter/html2markdown_emitter.py | 10 ++++++++++
 creole/shared/base_emitter.py           | 19 ++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 67564eb..b028e65 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -129,6 +129,16 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
 
+    def _get_separator(self, node, last_content, content):
+        if self._in_single_line(node.parent) or node.kind in ('li', 'blockdata_pre', 'inlinedata_pre'):
+            return super()._get_separator(node, last_content, content)
+        # Only a blank line ends a paragraph
+        newlines = len(last_content) - len(last_content.rstrip('\n'))
+        newlines += len(content) - len(content.lstrip('\n'))
+        return '\n' * max(0, 2 - newlines)
+
+    # --------------------------------------------------------------------------
+
     def p_emit(self, node: DocNode):
         return f'\n{self.emit_children(node)}\n'
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index dde4126..d5a7379 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -271,7 +271,8 @@ class BaseEmitter:
             # The line breaks are part of the markup, e.g.: <div><ul>...</ul></div>
             content = content.strip("\n")
             return f"{content}\n\n"
-        content = self._escape_linebreaks(content)
+        lines = (line.strip() for line in content.split("\n"))
+        content = "\n".join(line for line in lines if line)
         if node.kind in BLOCK_TAGS:
             content = f"{content}\n\n"
         return content
@@ -306,15 +307,23 @@ class BaseEmitter:
             if content:
                 # A block doesn't join with the text beside it, e.g.: foo<p>bar</p>
                 is_block = child.kind in SEPARATED_KINDS or last_kind in SEPARATED_KINDS
-                if is_block and last_content and not (last_content[-1].isspace() or content[0].isspace()):
-                    result.append(" " if self._in_single_line(node) else "\n\n")
-                elif last_content.endswith("|\n") and content.startswith("|"):
-                    result.append("\n")  # Without a blank line two tables would be one
+                if is_block and last_content:
+                    result.append(self._get_separator(child, last_content, content))
                 last_kind = child.kind
                 last_content = content
             result.append(content)
         return result
 
+    def _get_separator(self, node, last_content, content):
+        """
+        What is needed between the node and the content before it: one of both is a block
+        """
+        if last_content.endswith("|\n") and content.startswith("|"):
+            return "\n"  # Without a blank line two tables would be one
+        if last_content[-1].isspace() or content[0].isspace():
+            return ""
+        return " " if self._in_single_line(node.parent) else "\n\n"
+
     def _in_single_line(self, node):
         while node is not None:
             if node.kind in ("li", "headline"):
-- 
2.43.0


From be49639b7fe44aaa31d2706b582661ac5d0f45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 77/96] fix: no ReSt substitution data in the middle of a text
 before a pre area

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index d1cd126..3016a63 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -101,6 +101,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         result = ""
         is_block = node.kind != "br" and not self._is_inline(node)
         if self._substitution_data and is_block and node.parent == self.root:
+            if self._follows_inline(node):
+                result += "\n\n"
             result += f"{self._get_block_data()}\n\n"
 
         result += super().emit_node(node)
-- 
2.43.0


From e8260cd1629eea0b8b73bf081b4d45e718599d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 78/96] fix: text outside of paragraphs beside blocks and pre
 areas is separated

---
 creole/shared/base_emitter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index d5a7379..dcbaaa2 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -15,7 +15,7 @@ from creole.shared.unknown_tags import transparent_unknown_nodes
 
 
 # These nodes never continue the text before them:
-SEPARATED_KINDS = ("headline", *(tag for tag in BLOCK_TAGS if tag != "br"))
+SEPARATED_KINDS = ("headline", "blockdata_pre", *(tag for tag in BLOCK_TAGS if tag != "br"))
 
 # Tags which can contain all other blocks:
 CONTAINER_TAGS = (
@@ -75,6 +75,10 @@ class BaseEmitter:
                 return siblings[index]
             index += step
 
+    def _touches_block(self, node):
+        neighbors = (self._get_neighbor(node, step=-1), self._get_neighbor(node, step=1))
+        return any(neighbor is not None and neighbor.kind in SEPARATED_KINDS for neighbor in neighbors)
+
     def _follows_inline(self, node):
         """
         Is there text or a inline element directly before the node?
@@ -302,6 +306,8 @@ class BaseEmitter:
         for child in node.children:
             content = self.emit_node(child)
             assert isinstance(content, str)
+            if content == " " and self._touches_block(child) and not self._in_single_line(node):
+                continue
             if child.kind == "data" and last_content.endswith("\n"):
                 content = content.lstrip(" ")  # e.g.: <pre>...</pre> foo
             if content:
@@ -320,9 +326,9 @@ class BaseEmitter:
         """
         if last_content.endswith("|\n") and content.startswith("|"):
             return "\n"  # Without a blank line two tables would be one
-        if last_content[-1].isspace() or content[0].isspace():
-            return ""
-        return " " if self._in_single_line(node.parent) else "\n\n"
+        if self._in_single_line(node.parent):
+            return "" if last_content[-1].isspace() or content[0].isspace() else " "
+        return "" if last_content.endswith("\n") or content.startswith("\n") else "\n\n"
 
     def _in_single_line(self, node):
         while node is not None:
-- 
2.43.0


From 5ff77c94015785b3e4874be66710de9096d4ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 79/96] fix: blank at the end of a heading changes the ReSt
 adornment

---
 creole/emitter/html2rest_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 3016a63..2138b34 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -121,7 +121,7 @@ class ReStructuredTextEmitter(BaseEmitter):
     }
 
     def headline_emit(self, node):
-        text = self.emit_children(node)
+        text = self.emit_children(node).strip()
 
         level = node.level
         if level > 6:
-- 
2.43.0


From a210595397d71f506f09a571c0eda0315223df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 80/96] fix: backslashes at the edges of table cells and inline
 code lost

---
 creole/shared/base_emitter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index dcbaaa2..93c1e0c 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -236,9 +236,7 @@ class BaseEmitter:
         text = text.split("\n")
         lines = [line.strip() for line in text]
         lines = [line for line in lines if line]
-        content = "\\\\".join(lines)
-        content = content.strip("\\")
-        return content
+        return "\\\\".join(lines)
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
-- 
2.43.0


From d68e9fea7dba998d5a8ce638a853e21074ff2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 81/96] fix: blank beside the text in nested unknown tags lost

---
 creole/emitter/html2markdown_emitter.py |  3 ++-
 creole/shared/base_emitter.py           | 36 ++++++++++++++++++++++---
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b028e65..0ebf1b1 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -260,7 +260,8 @@ class MarkdownEmitter(BaseEmitter):
         siblings = node.parent.children
         index = siblings.index(node)
         if index == 0 or index == len(siblings) - 1:
-            return False
+            # Only a unknown tag has no markup beside the blank
+            return self._is_unknown(node.parent) and self._touches_text(node.parent, step=-1 if index == 0 else 1)
         return not any(
             neighbor.kind in (*BLOCK_TAGS, 'headline', 'blockdata_pre', 'inlinedata_pre')
             for neighbor in (siblings[index - 1], siblings[index + 1])
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 93c1e0c..195ae90 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -268,16 +268,44 @@ class BaseEmitter:
     def _emit_content(self, node):
         content = self.emit_children(node)
         if self._in_single_line(node):
-            return self._escape_linebreaks(content)
+            return self._keep_blanks(node, content, self._escape_linebreaks(content))
         if self._contains_blocks(node):
             # The line breaks are part of the markup, e.g.: <div><ul>...</ul></div>
             content = content.strip("\n")
             return f"{content}\n\n"
         lines = (line.strip() for line in content.split("\n"))
-        content = "\n".join(line for line in lines if line)
+        text = "\n".join(line for line in lines if line)
         if node.kind in BLOCK_TAGS:
-            content = f"{content}\n\n"
-        return content
+            return f"{text}\n\n"
+        return self._keep_blanks(node, content, text)
+
+    def _keep_blanks(self, node, content, text):
+        """
+        Keep the blanks which separates the stripped text from the text around the node
+        """
+        if content.startswith(" ") and self._touches_text(node, step=-1):
+            text = f" {text}"
+        if text != " " and content.endswith(" ") and self._touches_text(node, step=1):
+            text = f"{text} "
+        return text
+
+    def _touches_text(self, node, step):
+        """
+        Is there a inline element or a text without a blank directly beside the node?
+        """
+        if node.kind in BLOCK_TAGS:
+            return False
+        siblings = node.parent.children
+        index = siblings.index(node) + step
+        if 0 <= index < len(siblings):
+            sibling = siblings[index]
+            if sibling.kind == "data" and sibling.content:
+                return not sibling.content[-1 if step < 0 else 0].isspace()
+            return self._is_inline(sibling)
+        return self._is_unknown(node.parent) and self._touches_text(node.parent, step)
+
+    def _is_unknown(self, node):
+        return self._is_tag_like_internal_node(node) or not hasattr(self, f"{node.kind}_emit")
 
     def div_emit(self, node):
         return self._emit_content(node)
-- 
2.43.0


From 49d2d3ba9a9390c70e2b0bef1bc4261649c7e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 82/96] fix: words joined at unknown tags, which contain blocks
 or line breaks

---
 creole/emitter/html2markdown_emitter.py |  7 ++---
 creole/shared/base_emitter.py           | 39 ++++++++++++++++---------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 0ebf1b1..6d53e2c 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -12,7 +12,6 @@ import re
 from urllib.parse import ParseResult, quote, urlparse, urlunparse
 
 from creole.parser.html_parser import HtmlParser
-from creole.parser.html_parser_config import BLOCK_TAGS
 from creole.shared.base_emitter import BaseEmitter
 from creole.shared.document_tree import DocNode
 from creole.shared.markup_table import MarkupTable
@@ -260,10 +259,10 @@ class MarkdownEmitter(BaseEmitter):
         siblings = node.parent.children
         index = siblings.index(node)
         if index == 0 or index == len(siblings) - 1:
-            # Only a unknown tag has no markup beside the blank
-            return self._is_unknown(node.parent) and self._touches_text(node.parent, step=-1 if index == 0 else 1)
+            # Only a transparent tag has no markup beside the blank
+            return self._is_transparent(node.parent) and self._touches_text(node.parent, step=-1 if index == 0 else 1)
         return not any(
-            neighbor.kind in (*BLOCK_TAGS, 'headline', 'blockdata_pre', 'inlinedata_pre')
+            neighbor.kind in ('br', 'inlinedata_pre') or self._is_separated(neighbor)
             for neighbor in (siblings[index - 1], siblings[index + 1])
         )
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 195ae90..9dc99b1 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -77,7 +77,10 @@ class BaseEmitter:
 
     def _touches_block(self, node):
         neighbors = (self._get_neighbor(node, step=-1), self._get_neighbor(node, step=1))
-        return any(neighbor is not None and neighbor.kind in SEPARATED_KINDS for neighbor in neighbors)
+        return any(neighbor is not None and self._is_separated(neighbor) for neighbor in neighbors)
+
+    def _is_separated(self, node):
+        return node.kind in SEPARATED_KINDS and not self._is_tag_like_internal_node(node)
 
     def _follows_inline(self, node):
         """
@@ -258,7 +261,7 @@ class BaseEmitter:
 
     def _contains_blocks(self, node):
         return any(
-            child.kind in SEPARATED_KINDS
+            self._is_separated(child)
             or child.kind.startswith("blockdata_")
             or child.kind == "inlinedata_pre" and self._is_pre_block(child)
             or self._contains_blocks(child)
@@ -281,14 +284,19 @@ class BaseEmitter:
 
     def _keep_blanks(self, node, content, text):
         """
-        Keep the blanks which separates the stripped text from the text around the node
+        Keep the blank or line break which separates the stripped text from the text around the node
         """
-        if content.startswith(" ") and self._touches_text(node, step=-1):
-            text = f" {text}"
-        if text != " " and content.endswith(" ") and self._touches_text(node, step=1):
-            text = f"{text} "
+        start = content[:len(content) - len(content.lstrip())]
+        end = content[len(content.rstrip()):] if text else ""
+        if start and self._touches_text(node, step=-1):
+            text = self._get_blank(node, start) + text
+        if end and self._touches_text(node, step=1):
+            text += self._get_blank(node, end)
         return text
 
+    def _get_blank(self, node, blanks):
+        return "\n" if "\n" in blanks and not self._in_single_line(node) else " "
+
     def _touches_text(self, node, step):
         """
         Is there a inline element or a text without a blank directly beside the node?
@@ -302,10 +310,13 @@ class BaseEmitter:
             if sibling.kind == "data" and sibling.content:
                 return not sibling.content[-1 if step < 0 else 0].isspace()
             return self._is_inline(sibling)
-        return self._is_unknown(node.parent) and self._touches_text(node.parent, step)
+        return self._is_transparent(node.parent) and self._touches_text(node.parent, step)
 
-    def _is_unknown(self, node):
-        return self._is_tag_like_internal_node(node) or not hasattr(self, f"{node.kind}_emit")
+    def _is_transparent(self, node):
+        """
+        Is this a tag without any markup in the output?
+        """
+        return node.kind == "span" or self._is_tag_like_internal_node(node) or not hasattr(self, f"{node.kind}_emit")
 
     def div_emit(self, node):
         return self._emit_content(node)
@@ -327,7 +338,7 @@ class BaseEmitter:
         """Emit all the children of a node."""
         self.last = node
         result = []
-        last_kind = None
+        last_is_block = False
         last_content = ""
         for child in node.children:
             content = self.emit_node(child)
@@ -338,10 +349,10 @@ class BaseEmitter:
                 content = content.lstrip(" ")  # e.g.: <pre>...</pre> foo
             if content:
                 # A block doesn't join with the text beside it, e.g.: foo<p>bar</p>
-                is_block = child.kind in SEPARATED_KINDS or last_kind in SEPARATED_KINDS
-                if is_block and last_content:
+                is_block = self._is_separated(child) or self._contains_blocks(child)
+                if last_content and (is_block or last_is_block):
                     result.append(self._get_separator(child, last_content, content))
-                last_kind = child.kind
+                last_is_block = is_block
                 last_content = content
             result.append(content)
         return result
-- 
2.43.0


From 023f616ca0b5fdc06d081274f4409439eca62ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 83/96] fix: don't drop a incomplete character at the end of
 the source file silently

---
 creole/cmdline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index e5d9e93..d73f9e7 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -48,8 +48,9 @@ class CreoleCLI:
             f" (codec: {encoding})"
         )
 
-        with codecs.open(sourcefile, "r", encoding=encoding) as infile:
+        with open(sourcefile, "rb") as infile:
             content = infile.read()
+        content = codecs.decode(content, encoding)  # fails if the last character is incomplete
 
         # Touch the destination only if everything before was successful:
         converted = self.convert_func(content)
-- 
2.43.0


From 744c65e8fdf82176e120ae9bbf19a015902539d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 84/96] fix: html2rest: link labels in tables: colons and
 labels which differ only in case

---
 creole/emitter/html2rest_emitter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 2138b34..280145e 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -192,13 +192,14 @@ class ReStructuredTextEmitter(BaseEmitter):
         else:
             return False
 
-    def _get_old_substitution(self, substitution_dict, text, url):
-        if text not in substitution_dict:
+    def _get_old_substitution(self, substitution_dict, text, url, ignore_case=False):
+        name = text.lower() if ignore_case else text
+        if name not in substitution_dict:
             # save for the next time
-            substitution_dict[text] = url
+            substitution_dict[name] = url
         else:
             # text has links with the same link text
-            old_url = substitution_dict[text]
+            old_url = substitution_dict[name]
             if old_url == url:
                 # same url -> substitution can be reused
                 return old_url
@@ -221,14 +222,17 @@ class ReStructuredTextEmitter(BaseEmitter):
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
 
-        old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
+        old_url = self._get_old_substitution(
+            self._used_substitution_links, link_text, url, ignore_case=True  # as docutils does
+        )
 
         if self._should_do_substitution(node):
             # make a hyperlink reference
             if not old_url:
                 # new substitution
+                name = f"`{link_text}`" if ": " in f"{link_text} " else link_text
                 self._substitution_data.append(
-                    f".. _{link_text}: {url}"
+                    f".. _{name}: {url}"
                 )
             return f"`{link_text}`_"
 
-- 
2.43.0


From 0113c730ecbfedee6bd9361f0b306970212f014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 85/96] fix: html2markdown: columns with only empty cells are
 not aligned with the line below the header

---
 creole/shared/markup_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 9fad3cb..cd999dd 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -129,6 +129,8 @@ class MarkupTable:
         """return the table data in markdown markup."""
         cells, widths = self._get_preformat_info()
 
+        widths = [max(3, width) for width in widths]  # the shortest line below a header is: " - "
+
         lines = []
         for no, row in enumerate(cells):
             if no == 1 and self.has_header:
-- 
2.43.0


From 4714fd527eec627d465fd29385fda51a44dc6c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 86/96] fix: rest2html: stray </div>, class and id attributes
 which docutils writes without starttag()

---
 creole/rest_tools/clean_writer.py | 35 ++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index d71525c..03a1ce5 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import re
 import sys
 
 from creole.exceptions import DocutilsImportError
@@ -21,6 +22,7 @@ from creole.exceptions import DocutilsImportError
 
 try:
     import docutils
+    from docutils import nodes
     from docutils.core import publish_parts
     from docutils.writers import html4css1
 except ImportError:
@@ -42,12 +44,15 @@ DEBUG = False
 #DEBUG = True
 
 IGNORE_ATTR = (
-    "start", "class", "classes", "frame", "rules",
+    "start", "class", "classes", "ids", "frame", "rules",
 )
 IGNORE_TAGS = (
     "div",
 )
 
+# docutils doesn't use starttag() for all tags, e.g.: all end tags
+UNCLEAN_RE = re.compile(r'</?div\b[^>]*>|(?<=[\w"]) (?:class|id)="[^"<>]*"(?=[^<>]*>)')
+
 
 class CleanHTMLWriter(html4css1.Writer):
     """
@@ -113,6 +118,26 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
             print(f"startag html: {html!r}")
         return html
 
+    def _clean_parts(self, parts):
+        return [UNCLEAN_RE.sub("", part) for part in parts]
+
+    def _clean_body(self, method, node):
+        """
+        Clean everything docutils has added for the given node.
+        """
+        start = len(self.body)
+        try:
+            return method(node)
+        finally:
+            if not isinstance(node, (nodes.raw, nodes.Text)):
+                self.body[start:] = self._clean_parts(self.body[start:])
+
+    def dispatch_visit(self, node):
+        return self._clean_body(super().dispatch_visit, node)
+
+    def dispatch_departure(self, node):
+        return self._clean_body(super().dispatch_departure, node)
+
     def visit_section(self, node):
         self.section_level += 1
 
@@ -124,12 +149,16 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
 
     # remove <blockquote> (e.g. in nested lists)
     visit_block_quote = _do_nothing
-    depart_block_quote = _do_nothing
+
+    def depart_block_quote(self, node):
+        if self.body and not self.body[-1].endswith('\n'):
+            self.body.append('\n')
 
     # set only html_body, we used in rest2html() and don't surround it with <div>
     def depart_document(self, node):
         self.html_body.extend(
-            self.body_prefix[1:] + self.body_pre_docinfo + self.docinfo + self.body + self.body_suffix[:-1]
+            self._clean_parts(self.body_prefix[1:] + self.body_pre_docinfo) + self.docinfo + self.body
+            + self._clean_parts(self.body_suffix[:-1])
         )
         assert not self.context, f'len(context) = {len(self.context)}'
 
-- 
2.43.0


From 37b83832dd8a4729333c8ff6d32d6529df7b671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 87/96] fix: rest2html/pypi_rest2html: raw HTML in the text of
 svg/swf images and in math

---
 creole/rest_tools/clean_writer.py   | 5 +++++
 creole/rest_tools/pypi_rest2html.py | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 03a1ce5..070448a 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -14,6 +14,7 @@
 """
 
 
+import posixpath
 import re
 import sys
 
@@ -200,6 +201,9 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
     depart_figure = _do_nothing
 
     def visit_image(self, node):
+        if posixpath.splitext(node['uri'])[1].lower() in self.object_image_types:
+            # docutils inserts the text of a <object> as it is
+            node['alt'] = self.encode(node.get('alt', node['uri']))
         super().visit_image(node)
         if self.body[-1].startswith('<img'):
             align = None
@@ -238,6 +242,7 @@ def rest2html(content, enable_exit_status=None, **kwargs):
         "doctitle_xform": False,
         "file_insertion_enabled": False,
         "raw_enabled": False,
+        "math_output": "LaTeX",  # the HTML output passes raw HTML and links through, e.g.: \\text{<b>}
     }
     settings_overrides.update(kwargs)
 
diff --git a/creole/rest_tools/pypi_rest2html.py b/creole/rest_tools/pypi_rest2html.py
index 368572e..76b922d 100644
--- a/creole/rest_tools/pypi_rest2html.py
+++ b/creole/rest_tools/pypi_rest2html.py
@@ -9,6 +9,8 @@
 """
 
 
+from html import escape
+from posixpath import splitext
 from urllib.parse import urlparse
 
 from creole.exceptions import DocutilsImportError
@@ -19,6 +21,7 @@ try:
     from docutils import io, readers
     from docutils.core import Publisher, publish_doctree
     from docutils.transforms import TransformError
+    from docutils.writers.html4css1 import HTMLTranslator
 except ImportError as err:
     msg = (
         "%s - You can't use rest2html!"
@@ -40,6 +43,7 @@ def pypi_rest2html(source, output_encoding='unicode'):
     settings_overrides = {
         'raw_enabled': 0,  # no raw HTML code
         'file_insertion_enabled': 0,  # no file/URL access
+        'math_output': 'LaTeX',  # HTML output passes raw HTML and links through, e.g.: \\text{<b>}
         'halt_level': 2,  # at warnings or errors, raise an exception
         'report_level': 5,  # never report problems with the reST code
     }
@@ -60,6 +64,9 @@ def pypi_rest2html(source, output_encoding='unicode'):
         o = urlparse(uri)
         if o.scheme not in ALLOWED_SCHEMES:
             raise TransformError('link scheme not allowed')
+        if node.tagname == 'image' and splitext(uri)[1].lower() in HTMLTranslator.object_image_types:
+            # docutils inserts the text of a <object> as it is
+            node['alt'] = escape(node.get('alt', uri))
 
     # now turn the transformed document into HTML
     reader = readers.doctree.Reader(parser_name='null')
-- 
2.43.0


From 8d55d6013bf3f5fe82219b96f0584d5aef496130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 88/96] fix: rest2html/pypi_rest2html: don't keep the roles of
 a document for the next one

---
 creole/rest_tools/clean_writer.py   | 15 +++++++++------
 creole/rest_tools/local_roles.py    | 26 ++++++++++++++++++++++++++
 creole/rest_tools/pypi_rest2html.py |  7 +++++--
 3 files changed, 40 insertions(+), 8 deletions(-)
 create mode 100644 creole/rest_tools/local_roles.py

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index 070448a..b1b2bb8 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -40,6 +40,8 @@ except ImportError:
 
     raise DocutilsImportError(msg)
 
+from creole.rest_tools.local_roles import local_roles  # noqa:E402 isort:skip
+
 
 DEBUG = False
 #DEBUG = True
@@ -246,12 +248,13 @@ def rest2html(content, enable_exit_status=None, **kwargs):
     }
     settings_overrides.update(kwargs)
 
-    parts = publish_parts(
-        source=content,
-        writer=CleanHTMLWriter(),
-        settings_overrides=settings_overrides,
-        enable_exit_status=enable_exit_status,
-    )
+    with local_roles():
+        parts = publish_parts(
+            source=content,
+            writer=CleanHTMLWriter(),
+            settings_overrides=settings_overrides,
+            enable_exit_status=enable_exit_status,
+        )
 #    import pprint
 #    pprint.pprint(parts)
     return parts["html_body"]  # Don't detache the first heading
diff --git a/creole/rest_tools/local_roles.py b/creole/rest_tools/local_roles.py
new file mode 100644
index 0000000..c67b777
--- /dev/null
+++ b/creole/rest_tools/local_roles.py
@@ -0,0 +1,26 @@
+"""
+    docutils registers the roles which are defined in a document globally.
+"""
+
+
+import threading
+from contextlib import contextmanager
+
+from docutils.parsers.rst import roles
+
+
+_LOCK = threading.RLock()
+
+
+@contextmanager
+def local_roles():
+    """
+    Forget the roles of a document ('.. role::' and '.. default-role::') at the end of the block.
+    """
+    with _LOCK:
+        registered_roles = dict(roles._roles)
+        try:
+            yield
+        finally:
+            roles._roles.clear()
+            roles._roles.update(registered_roles)
diff --git a/creole/rest_tools/pypi_rest2html.py b/creole/rest_tools/pypi_rest2html.py
index 76b922d..d698ea1 100644
--- a/creole/rest_tools/pypi_rest2html.py
+++ b/creole/rest_tools/pypi_rest2html.py
@@ -29,6 +29,8 @@ except ImportError as err:
     ) % err
     raise DocutilsImportError(msg)
 
+from creole.rest_tools.local_roles import local_roles  # noqa:E402 isort:skip
+
 
 ALLOWED_SCHEMES = '''file ftp gopher hdl http https imap mailto mms news nntp
 prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet
@@ -49,8 +51,9 @@ def pypi_rest2html(source, output_encoding='unicode'):
     }
 
     # Convert reStructuredText to HTML using Docutils.
-    document = publish_doctree(source=source,
-                               settings_overrides=settings_overrides)
+    with local_roles():
+        document = publish_doctree(source=source,
+                                   settings_overrides=settings_overrides)
 
     for node in document.traverse():
         if node.tagname == '#text':
-- 
2.43.0


From 2f9388763509aa023aec7b6cad12142e36a883b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 89/96] fix: keep a forced line break at the end of a typeface

---
 creole/parser/creol2html_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index 77776a8..bb42c9e 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -375,13 +375,14 @@ class CreoleParser:
     # --------------------------------------------------------------------------
 
     def _inline_mark(self, groups, key):
-        self.cur = DocNode(key, self.cur)
+        parent = self.cur
+        self.cur = DocNode(key, parent)
 
         self.text = None
         text = groups[f"{key}_text"]
         self.parse_inline(text)
 
-        self.cur = self._upto(self.cur, (key,)).parent
+        self.cur = parent
         self.text = None
 
     # TODO: How can we generalize that:
-- 
2.43.0


From 37ad1468ed7f7022e9952f39d35fc07cfa19ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:40 +0000
Subject: [PATCH 90/96] fix: keep the line breaks of a link text in its line in
 html2creole

---
 creole/emitter/html2creole_emitter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index 64a677d..cf39f19 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -112,6 +112,9 @@ class CreoleEmitter(BaseEmitter):
         if not url:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
+        if "\n" in link_text:
+            # e.g.: <a href="/foo/">one<br>two</a> - A link ends with the line
+            link_text = self._escape_linebreaks(link_text)
         if link_text == url:
             return f"[[{url}]]"
         else:
-- 
2.43.0


From 8ccf44076455cbdb9d7f033802fd1874447bf2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:31 +0000
Subject: [PATCH 91/96] fix: parse table rows with long cells in linear time

---
 creole/parser/creol2html_rules.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/creole/parser/creol2html_rules.py b/creole/parser/creol2html_rules.py
index 3325b6e..3f2c748 100644
--- a/creole/parser/creol2html_rules.py
+++ b/creole/parser/creol2html_rules.py
@@ -144,9 +144,8 @@ class BlockRules:
     )'''
 
     table = r'''^ \s*(?P<table>
-            [|].*? [ \t]*
-            [|]?
-        ) [ \t]* $'''
+            [|].*
+        ) $'''
 
     re_flags = re.VERBOSE | re.UNICODE | re.MULTILINE
 
-- 
2.43.0


From 14f10745b98d3185f66206e095086ef7cdd36a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:17 +0000
Subject: [PATCH 92/96] fix: tables in tables grew exponentially with their
 depth

---
 creole/emitter/html2markdown_emitter.py |  4 +++-
 creole/emitter/html2rest_emitter.py     |  3 ++-
 creole/shared/base_emitter.py           |  3 ++-
 creole/shared/markup_table.py           | 10 +++++++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 6d53e2c..86f2b5e 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -55,7 +55,9 @@ class MarkdownEmitter(BaseEmitter):
     # --------------------------------------------------------------------------
     def table_emit(self, node):
         outer_table = self._table
-        self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
+        self._table = MarkupTable(
+            head_prefix='', debug_msg=self.debug_msg, nested=outer_table is not None
+        )
         text = self._get_table_text(node)
         content = self._table.get_markdown_table()
         self._table = outer_table
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 280145e..b81ea49 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -311,7 +311,8 @@ class ReStructuredTextEmitter(BaseEmitter):
         self._table = MarkupTable(
             head_prefix="",
             auto_width=True,
-            debug_msg=self.debug_msg
+            debug_msg=self.debug_msg,
+            nested=outer_table is not None
         )
         text = self._get_table_text(node)
         content = self._table.get_rest_table()
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 9dc99b1..9453533 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -211,7 +211,8 @@ class BaseEmitter:
         self._table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
-            debug_msg=self.debug_msg
+            debug_msg=self.debug_msg,
+            nested=outer_table is not None
         )
         text = self._get_table_text(node)
         content = self._table.get_table_markup()
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index cd999dd..22db508 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -24,9 +24,10 @@ class MarkupTable:
     Format every cell width to the same col width.
     """
 
-    def __init__(self, head_prefix="= ", auto_width=True, debug_msg=None):
+    def __init__(self, head_prefix="= ", auto_width=True, debug_msg=None, nested=False):
         self.head_prefix = head_prefix
         self.auto_width = auto_width
+        self.nested = nested  # Is it the content of a cell of another table?
 
         if debug_msg is None:
             self.debug_msg = self._non_debug
@@ -73,6 +74,10 @@ class MarkupTable:
         # Build a list of max len for every column
         widths = [max(1, *map(text_width, col)) for col in zip_longest(*cells, fillvalue='')]
 
+        if self.nested:
+            # It ends up in one line: Padding would only multiply the size with every level
+            widths = [1] * len(widths)
+
         return cells, widths
 
     def get_table_markup(self):
@@ -98,6 +103,9 @@ class MarkupTable:
 
     def get_rest_table(self):
         """ return the table data in ReSt markup. """
+        if self.nested:  # the lines of a grid mean nothing in a cell
+            return self.get_table_markup()
+
         # preformat every table cell
         cells, widths = self._get_preformat_info()
 
-- 
2.43.0


From 4925c4a72c476df65c909d4aaa13dcbd05a23013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:47 +0000
Subject: [PATCH 93/96] fix: a headline is always one line: line breaks and
 blocks in headlines

---
 creole/emitter/html2creole_emitter.py   | 2 +-
 creole/emitter/html2markdown_emitter.py | 6 +++---
 creole/emitter/html2rest_emitter.py     | 5 ++++-
 creole/shared/base_emitter.py           | 5 +++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index cf39f19..c853da5 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -69,7 +69,7 @@ class CreoleEmitter(BaseEmitter):
             return "\n"
 
     def headline_emit(self, node):
-        return f"{'=' * node.level} {self.emit_children(node)}\n\n"
+        return f"{'=' * node.level} {self._one_line(self.emit_children(node))}\n\n"
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 86f2b5e..0354aee 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -71,8 +71,7 @@ class MarkdownEmitter(BaseEmitter):
 
     def _cell_content(self, node):
         # A table row is always one line
-        lines = (line.strip() for line in self.emit_children(node).split('\n'))
-        return '<br />'.join(line for line in lines if line)
+        return self._one_line(self.emit_children(node), separator='<br />')
 
     def th_emit(self, node):
         if self._table is None:  # not in a table
@@ -150,7 +149,8 @@ class MarkdownEmitter(BaseEmitter):
         prefix = '#' * node.level
         if node.parent not in ('document', 'headline', 'p'):
             prefix = f'\n{prefix}'
-        return f'{prefix} {self.emit_children(node)}\n'
+        content = self._one_line(self.emit_children(node), separator='<br />')
+        return f'{prefix} {content}\n'
 
     # --------------------------------------------------------------------------
 
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index b81ea49..27c85ff 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -121,7 +121,10 @@ class ReStructuredTextEmitter(BaseEmitter):
     }
 
     def headline_emit(self, node):
-        text = self.emit_children(node).strip()
+        text = self._one_line(self.emit_children(node))
+
+        if self._in_single_line(node.parent):  # no room for a adornment
+            return f"{text}\n"
 
         level = node.level
         if level > 6:
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 9453533..bf2b2b2 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -368,6 +368,11 @@ class BaseEmitter:
             return "" if last_content[-1].isspace() or content[0].isspace() else " "
         return "" if last_content.endswith("\n") or content.startswith("\n") else "\n\n"
 
+    def _one_line(self, text, separator=" "):
+        """ e.g.: a headline ends at the end of the line """
+        lines = (line.strip() for line in text.split("\n"))
+        return separator.join(line for line in lines if line)
+
     def _in_single_line(self, node):
         while node is not None:
             if node.kind in ("li", "headline"):
-- 
2.43.0


From bf97e91a982edbfcec7d2a7fa7ffebd4e72babf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:33 +0000
Subject: [PATCH 94/96] fix: elements without content leave no markup, e.g.:
 <b></b>

---
 creole/emitter/html2creole_emitter.py   |  9 ++++++---
 creole/emitter/html2markdown_emitter.py | 15 +++++++++++----
 creole/emitter/html2rest_emitter.py     |  8 ++++++--
 creole/emitter/html2textile_emitter.py  |  9 ++++++---
 creole/shared/base_emitter.py           |  6 +++++-
 creole/shared/markup_table.py           |  3 +++
 6 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index c853da5..bc32c70 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -69,7 +69,10 @@ class CreoleEmitter(BaseEmitter):
             return "\n"
 
     def headline_emit(self, node):
-        return f"{'=' * node.level} {self._one_line(self.emit_children(node))}\n\n"
+        text = self._one_line(self.emit_children(node))
+        if not text.strip():
+            return ""
+        return f"{'=' * node.level} {text}\n\n"
 
     # --------------------------------------------------------------------------
 
@@ -109,8 +112,8 @@ class CreoleEmitter(BaseEmitter):
     def a_emit(self, node):
         link_text = self._get_link_text(node)
         url = node.attrs.get("href")
-        if not url:
-            # e.g.: <a name="anchor-one">foo</a>
+        if not url or not link_text.strip():
+            # e.g.: <a name="anchor-one">foo</a> or <a href="/foo/"></a>
             return link_text
         if "\n" in link_text:
             # e.g.: <a href="/foo/">one<br>two</a> - A link ends with the line
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 0354aee..109eb1f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,6 +150,8 @@ class MarkdownEmitter(BaseEmitter):
         if node.parent not in ('document', 'headline', 'p'):
             prefix = f'\n{prefix}'
         content = self._one_line(self.emit_children(node), separator='<br />')
+        if not content.strip():
+            return ''
         return f'{prefix} {content}\n'
 
     # --------------------------------------------------------------------------
@@ -169,7 +171,10 @@ class MarkdownEmitter(BaseEmitter):
         return self._typeface(node, key='##')
 
     def _typeface_html(self, node, tag):
-        return f'<{tag}>{self.emit_children(node)}</{tag}>'
+        content = self.emit_children(node)
+        if not content.strip():
+            return content
+        return f'<{tag}>{content}</{tag}>'
 
     def sup_emit(self, node: DocNode):
         return self._typeface_html(node, tag='sup')
@@ -197,8 +202,8 @@ class MarkdownEmitter(BaseEmitter):
         link_text = self._get_link_text(node)
 
         url = node.attrs.get('href')
-        if not url:
-            # e.g.: <a name="anchor-one">foo</a>
+        if not url or not link_text.strip():
+            # e.g.: <a name="anchor-one">foo</a> or <a href="/foo/"></a>
             return link_text
 
         url = quote_link(url)
@@ -272,7 +277,9 @@ class MarkdownEmitter(BaseEmitter):
         code_block = self._escape_linebreaks(self.emit_children(node))
         assert '\n' not in code_block
 
-        if '`' in code_block:
+        if not code_block:
+            return ''
+        elif '`' in code_block:
             return f'``{code_block}``'
         else:
             return f'`{code_block}`'
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 27c85ff..5eb41a4 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -122,6 +122,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def headline_emit(self, node):
         text = self._one_line(self.emit_children(node))
+        if not text.strip():
+            return ""
 
         if self._in_single_line(node.parent):  # no room for a adornment
             return f"{text}\n"
@@ -221,8 +223,8 @@ class ReStructuredTextEmitter(BaseEmitter):
     def a_emit(self, node):
         link_text = self._get_link_text(node)
         url = node.attrs.get("href")
-        if not url:
-            # e.g.: <a name="anchor-one">foo</a>
+        if not url or not link_text.strip():
+            # e.g.: <a name="anchor-one">foo</a> or <a href="/foo/"></a>
             return link_text
 
         old_url = self._get_old_substitution(
@@ -278,6 +280,8 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def code_emit(self, node):
         content = self._escape_linebreaks(self.emit_children(node))
+        if not content:
+            return ""
         return f"``{content}``"
 
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 7784bdd..7b440a1 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -51,7 +51,10 @@ class TextileEmitter(BaseEmitter):
         return f"{self.emit_children(node)}\n\n"
 
     def headline_emit(self, node):
-        return f"h{node.level:d}. {self.emit_children(node)}\n\n"
+        content = self.emit_children(node)
+        if not content.strip():
+            return ""
+        return f"h{node.level:d}. {content}\n\n"
 
     # --------------------------------------------------------------------------
 
@@ -97,8 +100,8 @@ class TextileEmitter(BaseEmitter):
     def a_emit(self, node):
         link_text = self._get_link_text(node)
         url = node.attrs.get("href")
-        if not url:
-            # e.g.: <a name="anchor-one">foo</a>
+        if not url or not link_text.strip():
+            # e.g.: <a name="anchor-one">foo</a> or <a href="/foo/"></a>
             return link_text
         return f'"{link_text}":{url}'
 
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index bf2b2b2..d8bfbba 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -166,7 +166,11 @@ class BaseEmitter:
         if self._contains_blocks(node):
             # e.g.: <b><p>foo</p><p>bar</p></b> - Typefaces end with the paragraph
             return self._emit_content(node)
-        return key + self.emit_children(node) + key
+        content = self.emit_children(node)
+        if not content.strip():
+            # e.g.: <b></b> - Nothing to mark
+            return content
+        return key + content + key
 
     def _get_link_text(self, node):
         content = self.emit_children(node)
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 22db508..c54e5e7 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -106,6 +106,9 @@ class MarkupTable:
         if self.nested:  # the lines of a grid mean nothing in a cell
             return self.get_table_markup()
 
+        if not any(self.rows):  # no cells, no grid
+            return ""
+
         # preformat every table cell
         cells, widths = self._get_preformat_info()
 
-- 
2.43.0


From 65f5aa257ac6398c55c86f0267bcd3aef079c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:43 +0000
Subject: [PATCH 95/96] fix: the diff of a outdated README shows its last line

---
 creole/shared/diff_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index b6fa05d..45dcb3d 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -4,6 +4,7 @@
 """
 
 import difflib
+import io
 
 
 def unified_diff(old, new, filename=None):
@@ -18,8 +19,9 @@ def unified_diff(old, new, filename=None):
         tofile = f'new / {filename}'
 
     if isinstance(old, str) and isinstance(new, str):
-        old = old.splitlines(keepends=True)
-        new = new.splitlines(keepends=True)
+        # not splitlines(): That ends a line e.g. at a U+2028, too
+        old = io.StringIO(old, newline='\n').readlines()
+        new = io.StringIO(new, newline='\n').readlines()
 
     diff = difflib.unified_diff(old, new, fromfile=fromfile, tofile=tofile)
 
@@ -29,6 +31,6 @@ def unified_diff(old, new, filename=None):
 
         # Work around missing newline (http://bugs.python.org/issue2142).
         if text and not line.endswith('\n'):
-            text += 'n\\ No newline at end of file\n'
+            text += '\n\\ No newline at end of file\n'
 
     return text
-- 
2.43.0


From 341fb0c07b89ed026caa8baa67fa0a7464145d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:06 +0000
Subject: [PATCH 96/96] fix: a figure with a link target keeps its alignment in
 rest2html

---
 creole/rest_tools/clean_writer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/creole/rest_tools/clean_writer.py b/creole/rest_tools/clean_writer.py
index b1b2bb8..a929231 100644
--- a/creole/rest_tools/clean_writer.py
+++ b/creole/rest_tools/clean_writer.py
@@ -214,9 +214,14 @@ class CleanHTMLTranslator(html4css1.HTMLTranslator):
                 # image with alignment
                 align = node['align']
 
-            elif node.parent.tagname == 'figure' and 'align' in node.parent:
-                # figure with alignment
-                align = node.parent['align']
+            else:
+                figure = node.parent
+                if figure.tagname == 'reference':
+                    # image with a link target
+                    figure = figure.parent
+                if figure.tagname == 'figure' and 'align' in figure:
+                    # figure with alignment
+                    align = figure['align']
 
             if align:
                 self.body[-1] = self.body[-1].replace(' />', f' align="{align}" />')
-- 
2.43.0

