From 9313802814be582980775143fdc2f5065a60ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 01/31] fix: reject spreadsheet references that name no cell
 (row 0, non-ASCII letters or digits, trailing newline)

---
 ezodf/tableutils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..b32d529 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile('([A-Za-z]+)([0-9]+)\\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
@@ -40,12 +40,13 @@ def address_to_index(address):
             power *= 26
         return index - 1
 
-    res = CELL_ADDRESS.match(address.upper())
+    res = CELL_ADDRESS.match(address)
     if res:
         column_name, row_name = res.groups()
-        return (int(row_name)-1, column_name_to_index(column_name))
-    else:
-        raise ValueError('Invalid cell address: %s' % address)
+        row = int(row_name) - 1
+        if row >= 0:
+            return (row, column_name_to_index(column_name.upper()))
+    raise ValueError('Invalid cell address: %s' % address)
 
 def get_cell_index(reference):
     if isinstance(reference, tuple): # key => (row, column)
@@ -53,7 +54,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From 60ff8b945cb4df50df7e7c3a3e1e6f30d6b38e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 02/31] fix: textlen of list items and list headers counts
 their plain text

---
 ezodf/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/text.py b/ezodf/text.py
index dc68edc..4d3b7a8 100644
--- a/ezodf/text.py
+++ b/ezodf/text.py
@@ -133,6 +133,10 @@ class ListHeader(GenericWrapper):
             if text:
                 self.append(Paragraph(text))
 
+    @property
+    def textlen(self):
+        return len(self.plaintext())
+
     def plaintext(self):
         return '\n'.join([e.plaintext() for e in iter(self)])
 
-- 
2.43.0


From 06dbe8ab9589c96afe1e4c0795d8a6bb79ce1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 03/31] fix: set_value drops the old currency and a rejected
 value leaves the cell unchanged

---
 ezodf/cells.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..064591a 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -122,6 +122,9 @@ class Cell(GenericWrapper):
             raise TypeError(value_type)
 
         value = convert(value, value_type)
+        if not isinstance(value, GenericWrapper):
+            # unsupported values raise an exception before the old value is lost
+            Cell()._set_new_value(value, value_type, currency)
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
@@ -141,6 +144,7 @@ class Cell(GenericWrapper):
 
     def _clear_old_value(self):
         self._clear_value_attribute(self.value_type)
+        self.xmlnode.attrib.pop(CN('office:currency'), None)
         self._clear_content()
 
     def _clear_content(self):
-- 
2.43.0


From 54643a2400f436cdaf6c532c453e847a98100a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 04/31] fix: row and column edits check index and count before
 they change the table

---
 ezodf/tablerowcontroller.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..272d3b5 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -49,6 +49,8 @@ class TableCellAccessor(object):
             row += self.nrows()
         if col < 0:
             col += self.ncols()
+        if row < 0 or col < 0:
+            raise IndexError('cell index out of range')
         return (row, col)
 
     def row(self, index):
@@ -71,10 +73,11 @@ class TableRowController(TableCellAccessor):
             if ncols < 1:
                 raise ValueError('ncols has to be >= 1.')
 
-        self._remove_existing_rows()
         nrows, ncols = size
         validate_parameter(nrows, ncols)
-        self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
+        newrows = [self._build_new_row(ncols) for _ in range(nrows)]
+        self._remove_existing_rows()
+        self.xmlnode.extend(newrows)
         self.update()
 
     @staticmethod
@@ -98,6 +101,14 @@ class TableRowController(TableCellAccessor):
                 return False
         return True
 
+    @staticmethod
+    def _adjust_index(index, count, limit):
+        if index < 0:
+            index += limit
+        if index < 0 or index + count > limit:
+            raise IndexError('index out of range')
+        return index
+
     def append_rows(self, count=1):
         if count < 1:
             raise ValueError('count < 1')
@@ -119,8 +130,7 @@ class TableRowController(TableCellAccessor):
     def delete_rows(self, index, count=1):
         if count < 1 or count >= self.nrows():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.nrows()
+        index = self._adjust_index(index, count, self.nrows())
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -136,8 +146,7 @@ class TableRowController(TableCellAccessor):
     def insert_columns(self, index, count=1):
         if count < 1:
             raise ValueError('count < 1')
-        if index < 0:
-            index += self.ncols()
+        index = self._adjust_index(index, 1, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
@@ -146,8 +155,7 @@ class TableRowController(TableCellAccessor):
     def delete_columns(self, index, count=1):
         if count < 1 or count >= self.ncols():
             raise ValueError('invalid count')
-        if index < 0:
-            index += self.ncols()
+        index = self._adjust_index(index, count, self.ncols())
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From 208d3e08aabe1de200dd123a888793ced40bef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 05/31] fix: Table.reset checks the size before it removes the
 content

---
 ezodf/table.py              |  4 +++-
 ezodf/tablerowcontroller.py | 19 +++++++++++--------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..e8b3382 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -88,9 +88,11 @@ class Table(GenericWrapper):
 
     def reset(self, size=(10, 10)):
         preserve_name = self.name
+        TableRowController.check_size(size)
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None:
+            self.name = preserve_name
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 272d3b5..68909ea 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -66,15 +66,18 @@ class TableRowController(TableCellAccessor):
     def __init__(self, xmlnode):
         super(TableRowController, self).__init__(xmlnode)
 
-    def reset(self, size):
-        def validate_parameter(nrows, ncols):
-            if nrows < 1:
-                raise ValueError('nrows has to be >= 1.')
-            if ncols < 1:
-                raise ValueError('ncols has to be >= 1.')
-
+    @staticmethod
+    def check_size(size):
         nrows, ncols = size
-        validate_parameter(nrows, ncols)
+        if nrows < 1:
+            raise ValueError('nrows has to be >= 1.')
+        if ncols < 1:
+            raise ValueError('ncols has to be >= 1.')
+        range(nrows), range(ncols) # raises TypeError for non-integers
+        return nrows, ncols
+
+    def reset(self, size):
+        nrows, ncols = self.check_size(size)
         newrows = [self._build_new_row(ncols) for _ in range(nrows)]
         self._remove_existing_rows()
         self.xmlnode.extend(newrows)
-- 
2.43.0


From 37a01d004ffcea4b8df4fe3539d4e8b799e156c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:19 +0000
Subject: [PATCH 06/31] fix: setting a cell that already is part of a table
 copies it

---
 ezodf/tablerowcontroller.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 68909ea..15daf70 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -7,6 +7,8 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+import copy
+
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_ROWS
 from .tablenormalizer import normalize_table
@@ -41,6 +43,9 @@ class TableCellAccessor(object):
 
     def set_cell(self, pos, element):
         row, col = self._adjust_negative_indices(pos)
+        if element.getparent() is not None:
+            # do not move a cell of a table, its row would lose a column
+            element = copy.deepcopy(element)
         self._rows[row][col] = element
 
     def _adjust_negative_indices(self, pos):
-- 
2.43.0


From 43d253fc1e77a16e83ab306c4c5bfc77bd3306ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 07/31] fix: a loaded table has a column info for every column

---
 ezodf/table.py                 |  1 +
 ezodf/tablecolumncontroller.py | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index e8b3382..67f00c5 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -31,6 +31,7 @@ class Table(GenericWrapper):
         def init_attributes_by_xmlnode():
             self._cellmatrix = TableRowController(self.xmlnode)
             self._columns_info = TableColumnController(self.xmlnode)
+            self._columns_info.align(self._cellmatrix.ncols())
             self._cell_span_controller = CellSpanController(self._cellmatrix)
 
         def set_new_table_metrics():
diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..c9f5a90 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -79,10 +79,23 @@ class TableColumnController(object):
         if ncols < 1:
             raise ValueError('ncols has to be >= 1.')
         self._remove_existing_columns()
+        self._insert_columns_after_prelude(ncols)
+        self.update()
+
+    def _insert_columns_after_prelude(self, ncols):
         insert_position = PreludeTagBlock(self.xmlnode, TABLE_PRELUDE).insert_position_after()
         for _ in range(ncols):
             self.xmlnode.insert(insert_position, new_empty_column())
-        self.update()
+
+    def align(self, ncols):
+        """ Append missing columns, every column requires a column info. """
+        missing = ncols - len(self)
+        if missing > 0:
+            if len(self):
+                self.append(missing)
+            else:
+                self._insert_columns_after_prelude(missing)
+                self.update()
 
     def _remove_existing_columns(self):
         for child in self.xmlnode.getchildren():
-- 
2.43.0


From a30987805e817205b417070b712597ef252b1dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:57 +0000
Subject: [PATCH 08/31] fix: spans do not overlap covered cells, 1x1 spans and
 the error texts work

---
 ezodf/cells.py              | 4 ++--
 ezodf/cellspancontroller.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 064591a..25cc919 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -212,8 +212,8 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-spanned'), None)
+        self.xmlnode.attrib.pop(CN('table:number-columns-spanned'), None)
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..12277ea 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
@@ -45,7 +46,7 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
+            if self.is_cell_spanning(cell_index) or self._get_cell(cell_index).covered:
                 return True
         return False
 
-- 
2.43.0


From d68ac1763d3a797e2fee260540ff1427b8514bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 09/31] fix: a maxcount of 1 does not fail for content that is
 not repeated

---
 ezodf/tableutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index b32d529..ded6c5c 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -94,8 +94,8 @@ class RepetitionAttribute(object):
 
     @cols.deleter
     def cols(self):
-        del self.xmlnode.attrib[CN('table:number-columns-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-columns-repeated'), None)
 
     @rows.deleter
     def rows(self):
-        del self.xmlnode.attrib[CN('table:number-rows-repeated')]
+        self.xmlnode.attrib.pop(CN('table:number-rows-repeated'), None)
-- 
2.43.0


From 6ee69781911788f8368235b8292a72afd3646423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 10/31] fix: insert positions keep the schema order if only
 preceding (succeeding) tags exist

---
 ezodf/nodeorganizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/nodeorganizer.py b/ezodf/nodeorganizer.py
index f491c87..cd77f40 100644
--- a/ezodf/nodeorganizer.py
+++ b/ezodf/nodeorganizer.py
@@ -119,7 +119,7 @@ class PreludeTagBlock(object):
             pos, count = self.tag_info(tag)
             if count > 0:
                 return pos
-        return 0
+        return self._count_tags_in_block()
 
     def _successor_tag(self, tag):
         tagpos = self.tags.index(tag)
@@ -173,4 +173,4 @@ class EpilogueTagBlock(PreludeTagBlock):
             pos, count = tag_info(tag)
             if count > 0:
                 return len(self.xmlnode) - pos
-        return len(self.xmlnode)
+        return len(self.xmlnode) - self._count_tags_in_block()
-- 
2.43.0


From 62d3b21eb14645913fbf7b9c9c6c63da6123d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 11/31] fix: missing declarations of a loaded body are added in
 front of the content

---
 ezodf/body.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ezodf/body.py b/ezodf/body.py
index 580ed1d..c53a0ce 100644
--- a/ezodf/body.py
+++ b/ezodf/body.py
@@ -7,21 +7,27 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-from .xmlns import register_class, CN, wrap, subelement
+from .xmlns import register_class, CN, wrap, etree
 from .base import GenericWrapper
 from .sheets import Sheets
 from .pages import Pages
-from .nodeorganizer import EpilogueTagBlock
-from .nodestructuretags import TEXT_EPILOGUE
+from .nodeorganizer import PreludeTagBlock, EpilogueTagBlock
+from .nodestructuretags import TEXT_PRELUDE, TEXT_EPILOGUE
 
 
 class GenericBody(GenericWrapper):
     def __init__(self, xmlnode=None):
         super(GenericBody, self).__init__(xmlnode=xmlnode)
-        self.variables = wrap(subelement(self.xmlnode,
-                                                CN("text:variable-decls")))
-        self.userfields = wrap(subelement(self.xmlnode,
-                                                CN("text:user-field-decls")))
+        self.variables = wrap(self._declarations(CN("text:variable-decls")))
+        self.userfields = wrap(self._declarations(CN("text:user-field-decls")))
+
+    def _declarations(self, tag):
+        node = self.xmlnode.find(tag)
+        if node is None: # declarations precede the content
+            node = etree.Element(tag)
+            prelude = PreludeTagBlock(self.xmlnode, TEXT_PRELUDE)
+            self.xmlnode.insert(prelude.insert_position_before(tag), node)
+        return node
 
 
 @register_class
-- 
2.43.0


From a914a808ad7fc6625de02c84c179fd1c35a70c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 12/31] fix: sheet and page containers use positions of sheets,
 not of all body elements

---
 ezodf/pagecontainer.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..c3c8f7f 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -8,8 +8,13 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 from .compatibility import tostr, is_string
+from .xmlns import CN
+from .nodeorganizer import EpilogueTagBlock
+from .nodestructuretags import SPREADSHEET_EPILOGUE
 from . import wrapcache
 
+EPILOGUE = [CN('presentation:settings')] + SPREADSHEET_EPILOGUE
+
 class AbstractPageContainer(object):
     def __init__(self, xmlbody, childtag, nametag):
         self._childtag = childtag
@@ -75,7 +80,7 @@ class AbstractPageContainer(object):
 
     def append(self, child):
         if self._is_valid_child(child):
-            self.xmlnode.append(child.xmlnode)
+            self.insert(len(self), child)
             return child
         else:
             raise TypeError('Unable to append: %s' % tostr(child))
@@ -84,8 +89,18 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        if not self._is_valid_child(child):
+            raise TypeError('child has to be a Table or Page object.')
+        xmlchildren = self._xmlchildren()
+        successors = xmlchildren[int(index):]
+        if successors: # insert in front of another sheet
+            position = self.xmlnode.index(successors[0])
+        elif xmlchildren:
+            position = self.xmlnode.index(xmlchildren[-1]) + 1
+        else:
+            position = EpilogueTagBlock(self.xmlnode, EPILOGUE).insert_position_before()
+        self.xmlnode.insert(position, child.xmlnode)
         return child
-- 
2.43.0


From 49e81221fbd766392769d93fec13f16763da8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 13/31] fix: a usertag that is set without a type is a string

---
 ezodf/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..bfcb7c0 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -151,6 +151,8 @@ class Usertags(object):
         tag.text = tostr(value)
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
+        else: # the default type is 'string'
+            tag.attrib.pop(CN('meta:value-type'), None)
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From 60832420c0619f8c9be062f6f762e3d9fc1daf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 14/31] fix: empty metadata texts of a loaded document are ''
 as they were when set

---
 ezodf/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index bfcb7c0..a4586b4 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -73,7 +73,7 @@ class OfficeDocumentMeta(XMLMixin):
     def __getitem__(self, key):
         element = self.meta.find(CN(TAGS[key]))
         if element is not None:
-            return element.text
+            return element.text or ''
         else:
             raise KeyError(key)
 
@@ -95,7 +95,7 @@ class Keywords(object):
     def __iter__(self):
         """ Iterate over all keywords. """
         for keyword in self.meta.findall(CN('meta:keyword')):
-            yield keyword.text
+            yield keyword.text or ''
 
     def __contains__(self, keyword):
         """ True if 'keyword' exists, else False. """
@@ -122,7 +122,7 @@ class Keywords(object):
     def _find(self, keyword):
         """ Find XML element for `keyword`. """
         for tag in self.meta.findall(CN('meta:keyword')):
-            if  keyword == tag.text:
+            if  keyword == (tag.text or ''):
                 return tag
         return None
 
@@ -136,7 +136,7 @@ class Usertags(object):
         :returns: (name, value) tuples
         """
         for metatag in self.meta.findall(CN('meta:user-defined')):
-            yield (metatag.get(CN('meta:name')), metatag.text)
+            yield (metatag.get(CN('meta:name')), metatag.text or '')
 
     def __contains__(self, name):
         return self._find(name) is not None
@@ -164,7 +164,7 @@ class Usertags(object):
         """
         tag = self._find(name)
         if tag is not None:
-            return tag.text
+            return tag.text or ''
         raise KeyError(name)
 
     def __delitem__(self, name):
-- 
2.43.0


From c826c55ee79718a70aaf32e815c9187db4a54be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:44 +0000
Subject: [PATCH 15/31] fix: inserting a child with an index below -len inserts
 it at the front, not at the end

---
 ezodf/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..eaa591b 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -75,7 +75,10 @@ class GenericWrapper(object):
 
     def insert(self, index, child):
         """ Insert child at position `index`. """
-        self.xmlnode.insert(int(index), child.xmlnode)
+        index = int(index)
+        if index < 0: # like lists do
+            index = max(0, index + len(self.xmlnode))
+        self.xmlnode.insert(index, child.xmlnode)
         return child # pass through
 
     def get_child(self, index):
-- 
2.43.0


From 1a3720e645ae7bfd61f1d90bb63f3f8b0dd528b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 16/31] fix: a broadcast to an empty XML root is restricted to
 it, handlers may unsubscribe

---
 ezodf/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..182de1c 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,8 +98,9 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
-        for listener in event_listeners:
+        send = send_to_all if root is None else send_to_root
+        # a handler may subscribe or unsubscribe listeners
+        for listener in list(event_listeners):
             send(listener)
 
     def _has_listener(self, event):
-- 
2.43.0


From ec177872ac396c3e0a96becd0b906810a051ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:00 +0000
Subject: [PATCH 17/31] fix: a table has one wrapper, also if it is accessed as
 child of the body

---
 ezodf/table.py     | 6 ++++++
 ezodf/wrapcache.py | 5 +++++
 ezodf/xmlns.py     | 3 ++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 67f00c5..43dafda 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -45,6 +45,12 @@ class Table(GenericWrapper):
             set_new_table_metrics()
         wrapcache.add(self)
 
+    @classmethod
+    def get_handle(cls, xmlnode):
+        """ A table caches its rows, every access has to use the same wrapper. """
+        handle = wrapcache.get(xmlnode)
+        return cls(xmlnode=xmlnode) if handle is None else handle
+
     def __getitem__(self, key):
         if isinstance(key, int):
             return self.get_child(key)
diff --git a/ezodf/wrapcache.py b/ezodf/wrapcache.py
index a54361d..62c4f69 100644
--- a/ezodf/wrapcache.py
+++ b/ezodf/wrapcache.py
@@ -22,6 +22,10 @@ class _WrapCache(object):
         self.add(wrapped_object)
         return wrapped_object
 
+    def get(self, element):
+        """ Get the cached wrapper of `element` or None. """
+        return self._cache.get(id(element))
+
     def add(self, wrapped_object):
         self._cache[id(wrapped_object.xmlnode)] = wrapped_object
 
@@ -33,6 +37,7 @@ class _WrapCache(object):
 
 _wrapcache = _WrapCache()
 wrap = _wrapcache.wrap
+get = _wrapcache.get
 clear = _wrapcache.clear
 add = _wrapcache.add
 remove = _wrapcache.remove
diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index a4af9f8..ffbf01b 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -90,7 +90,8 @@ class _ClassRegistry(object):
             cls = self._classmap[element.tag]
         except KeyError: # wrap it into the GenericWrapper
             cls = self._classmap['GenericWrapper']
-        return cls(xmlnode=element)
+        get_handle = getattr(cls, 'get_handle', cls)
+        return get_handle(xmlnode=element)
 
 
 _class_registry = _ClassRegistry()
-- 
2.43.0


From 2616483d670281e88ccb932cd057205d9ca1ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 18/31] fix: converting an empty name raises ValueError like
 any name without a prefix

---
 ezodf/xmlns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/xmlns.py b/ezodf/xmlns.py
index ffbf01b..61f71a2 100644
--- a/ezodf/xmlns.py
+++ b/ezodf/xmlns.py
@@ -41,7 +41,7 @@ class _XMLNamespaces(object):
         try:
             return self._cache[tag]
         except KeyError:
-            if tag[0] == '{': # tag is already in clark notation
+            if tag[:1] == '{': # tag is already in clark notation
                 return tag
             else:
                 cn = self._prefix2clark(tag)
-- 
2.43.0


From 985a7a4b2c7011b5aa2689528b30c1cf862c1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 19/31] fix: style containers find stored and page-layout
 styles, also after styles moved

---
 ezodf/styles.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..e85b758 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -38,7 +38,6 @@ class Container(object):
     def __init__(self, xmlnode):
         assert xmlnode.tag == self.TAG
         self.xmlnode = xmlnode
-        self._cache = {}
 
     def __getitem__(self, key):
         style = self._find(key) # by style:name attribute
@@ -53,17 +52,12 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
 
     def _find(self, name):
-        try:
-            return self._cache[name]
-        except KeyError:
-            for style in self.xmlnode.iterchildren():
-                stylename = style.get(CN('style:name'))
-                if stylename == name:
-                    self._cache[name] = style
-                    return style
+        for style in self.xmlnode.iterchildren():
+            stylename = style.get(CN('style:name'))
+            if stylename == name:
+                return style
         return None
 
 @register_class
@@ -146,10 +140,14 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
-        self.header = self._properties(CN('style:header-style'), HeaderProperties)
-        self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
+
+    @property
+    def header(self):
+        return self._properties(CN('style:header-style'), HeaderProperties)
+
+    @property
+    def footer(self):
+        return self._properties(CN('style:footer-style'), HeaderProperties)
 
 @register_class
 class FontFace(BaseStyle):
-- 
2.43.0


From 2160dd025647e98b33230c4abc9e350d7df00b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 20/31] fix: a count of spaces can be set back to 1, protection
 keys are strings

---
 ezodf/protection.py  | 2 +-
 ezodf/whitespaces.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ezodf/protection.py b/ezodf/protection.py
index 4e39877..5ec9250 100644
--- a/ezodf/protection.py
+++ b/ezodf/protection.py
@@ -12,4 +12,4 @@ import random
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
 def random_protection_key(count=12):
-    return random.sample(FNCHARS, count)
+    return ''.join(random.sample(FNCHARS, count))
diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..cf4453d 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -46,8 +46,11 @@ class Spaces(Tabulator):
         return int(count) if count is not None else 1
     @count.setter
     def count(self, value):
-        if int(value) > 1:
+        value = max(int(value), 1)
+        if value > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        else: # 1 is the default value
+            self.xmlnode.attrib.pop(CN('text:c'), None)
 
     @property
     def textlen(self):
-- 
2.43.0


From c288a08b84dc6603a03cdc82d2f86f55d7ce458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 21/31] fix: variables and user fields take any text, number or
 boolean in all their occurrences

---
 ezodf/variables.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..4fae8b3 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -50,6 +50,9 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    INSTANCE_TAGS = (CN('text:variable-set'),
+                     CN('text:variable-get'),
+                     CN('text:variable-input'))
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -58,19 +61,10 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
-        return itermap(wrap, vs + vg + vi)
+        root = self.get_xmlroot()
+        return itermap(wrap, [node for tag in self.INSTANCE_TAGS
+                              for node in root.iter(tag)
+                              if node.get(CN('text:name')) == self.name])
 
     @property
     def type(self):  # {{{2
@@ -119,6 +113,9 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAGS = (CN('text:user-field-set'),
+                     CN('text:user-field-get'),
+                     CN('text:user-field-input'))
 
     @property
     def value(self):  # {{{2
@@ -147,10 +144,10 @@ class UserField(Variable):  # {{{1
             self.type = 'boolean'
             self.set_bool_attr(CN('office:boolean-value'), v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            self.xmlnode.set(CN('office:value'), tostr(v))
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            self.xmlnode.set(CN('office:string-value'), tostr(v))
             self.type = 'string'
 
 
@@ -164,7 +161,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
     def value(self):  # {{{2
         """Gets instavce value"""
         if self.type == 'string':
-            return self.text
+            return self.plaintext()
         elif self.type == 'boolean':
             return self.text == 'true'
         elif self.type == 'float':
@@ -179,6 +176,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
@@ -221,7 +219,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
     def value(self):  # {{{2
         """Gets instavce value"""
         if self.type == 'string':
-            return self.text
+            return self.plaintext()
         elif self.type == 'boolean':
             return self.text == 'true'
         elif self.type == 'float':
@@ -236,6 +234,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
-- 
2.43.0


From 7a6705d1f437579ef974924d153e6b6ede9fc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 22/31] fix: dates before the year 1000 are padded, durations
 are plain ASCII without a trailing newline

---
 ezodf/timeparser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ezodf/timeparser.py b/ezodf/timeparser.py
index 0f56e75..aafb796 100644
--- a/ezodf/timeparser.py
+++ b/ezodf/timeparser.py
@@ -15,7 +15,8 @@ DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S"
 DATE_FORMAT = "%Y-%m-%d"
 
 class TimeParser(object):
-    duration_matcher = re.compile("^P(\d+Y)?(\d+M)?(\d+D)?(?:T(\d+H)?(\d+M)?(\d+(?:,\d+)?S)?)?$")
+    duration_matcher = re.compile("^P([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
+                                  "(?:T([0-9]+H)?([0-9]+M)?([0-9]+(?:,[0-9]+)?S)?)?\\Z")
 
     def __init__(self, time):
         if is_string(time):
@@ -28,9 +29,11 @@ class TimeParser(object):
     def __str__(self):
         if self.is_date:
             if self.has_time:
-                string = self.value.strftime(DATETIME_FORMAT)
+                value = self.value.replace(microsecond=0, tzinfo=None)
             else:
-                string = self.value.strftime(DATE_FORMAT)
+                value = self.value
+            # strftime() does not pad years < 1000
+            string = value.isoformat()
         else:
             string = TimeParser.duration_to_string(self.value)
         return string
-- 
2.43.0


From e32ee42342bb69d6af8dc4219daff575499d6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:00 +0000
Subject: [PATCH 23/31] fix: saving replaces the existing file in one step and
 leaves no temporary file when it fails

---
 ezodf/bytestreammanager.py |  3 +-
 ezodf/compatibility.py     | 10 ++++++-
 ezodf/document.py          | 11 +------
 ezodf/filemanager.py       | 61 +++++++++++++++++++++-----------------
 4 files changed, 44 insertions(+), 41 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..56c64d9 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -24,8 +24,7 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
-            with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+            self.write_file(filename, self._write_zip)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
diff --git a/ezodf/compatibility.py b/ezodf/compatibility.py
index 4b408ab..25c555e 100644
--- a/ezodf/compatibility.py
+++ b/ezodf/compatibility.py
@@ -7,7 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
-import sys, zipfile
+import os, sys, zipfile
 
 PY3 = sys.version_info[0] > 2
 
@@ -17,6 +17,7 @@ if PY3:
 
     itermap=map
     is_zipfile=zipfile.is_zipfile
+    replace=os.replace
     tostr = str
     def is_string(value):
         return isinstance(value, str)
@@ -78,6 +79,13 @@ else: # PY2
                 f.flush()
                 return zipfile.is_zipfile(tmp)
 
+    def replace(src, dst):
+        try:
+            os.rename(src, dst)
+        except OSError: # an existing file can not be replaced on every platform
+            os.remove(dst)
+            os.rename(src, dst)
+
     def is_stream(instance):
         return (isinstance(instance, InputType) or
                 isinstance(instance, OutputType) or
diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..995d335 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -181,16 +181,7 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
-        if os.path.exists(self.docname) and self.backup:
-            self._backupfile(self.docname)
-        self._writefile(self.docname)
-
-    def _backupfile(self, filename):
-        bakfilename = filename+'.bak'
-        # remove existing backupfile
-        if os.path.exists(bakfilename):
-            os.remove(bakfilename)
-        os.rename(filename, bakfilename)
+        FileManager.write_file(self.docname, self._writefile, self.backup)
 
     def _writefile(self, filename):
         with open(filename, 'wb') as fp:
diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..e3c965c 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import os
+import shutil
 import zipfile
 import random
 from datetime import datetime
@@ -15,7 +16,7 @@ from datetime import datetime
 from .xmlns import etree, CN
 from .manifest import Manifest
 from .compatibility import tobytes, bytes2unicode, is_bytes, is_zipfile
-from .compatibility import is_stream, StringIO
+from .compatibility import is_stream, StringIO, replace
 
 FNCHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
 
@@ -57,7 +58,8 @@ class FileManager(object):
     def _open_bytestream(self):
         return open(self.zipname, 'rb')
 
-    def tmpfilename(self, basefile=None):
+    @staticmethod
+    def tmpfilename(basefile=None):
         def randomname(count):
             return ''.join(random.sample(FNCHARS, count))
 
@@ -77,36 +79,39 @@ class FileManager(object):
 
     def save(self, filename, backup=True):
         # always create a new zipfile
-        write_to_memory = False
         if is_stream(filename):
-            write_to_memory = True
-        if write_to_memory:
-            tmpfilename = filename
+            self._write_zip(filename)
         else:
-            tmpfilename = self.tmpfilename(filename)
-        zippo = zipfile.ZipFile(tmpfilename, 'w', zipfile.ZIP_DEFLATED)
-        self._tozip(zippo)
-        zippo.close()
+            self.write_file(filename, self._write_zip, backup)
+            self.zipname = filename
 
-        if write_to_memory:
-            # job done
-            return
-
-        if os.path.exists(filename):
-            if backup:
-                # existing document becomes the backup file
-                bakfilename = filename+'.bak'
-                # remove existing backupfile
-                if os.path.exists(bakfilename):
-                    os.remove(bakfilename)
-                os.rename(filename, bakfilename)
-            else:
-                # just remove the existing document
-                os.remove(filename)
+    def _write_zip(self, filename):
+        zippo = zipfile.ZipFile(filename, 'w', zipfile.ZIP_DEFLATED)
+        try:
+            self._tozip(zippo)
+        finally:
+            zippo.close()
+
+    @staticmethod
+    def write_file(filename, writer, backup=False):
+        """ Create or replace the file `filename`.
 
-        # rename the new created document
-        os.rename(tmpfilename, filename)
-        self.zipname = filename
+        The new content is written by `writer` to a temporary file, which takes
+        the place of the existing file in one step, so that there is always a
+        complete file named `filename`, and nothing is left if `writer` fails.
+        """
+        tmpfilename = FileManager.tmpfilename(filename)
+        try:
+            writer(tmpfilename)
+            if backup and os.path.exists(filename):
+                # a copy of the existing document becomes the backup file
+                FileManager.write_file(filename+'.bak',
+                                       lambda copyname: shutil.copy2(filename, copyname))
+            replace(tmpfilename, filename)
+        except:
+            if os.path.exists(tmpfilename):
+                os.remove(tmpfilename)
+            raise
 
     def get_bytes(self, filename):
         """ Returns a byte stream or None. """
-- 
2.43.0


From 171658927ef3d3819c2c6ac68580678bd8e1fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 24/31] fix: a failed save keeps the mimetype part, an
 unreadable source package is an error

---
 ezodf/filemanager.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e3c965c..e507bbc 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -51,8 +51,10 @@ class FileManager(object):
         self.register('META-INF/manifest.xml', self.manifest, 'text/xml')
 
     def has_zip(self):
-        if self.zipname is not None:
-            return is_zipfile(self.zipname)
+        if self.zipname is not None and os.path.exists(self.zipname):
+            # an unreadable file is an error and not a missing zipfile
+            with self._open_bytestream() as bytestream:
+                return is_zipfile(bytestream)
         return False
 
     def _open_bytestream(self):
@@ -144,17 +146,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
@@ -162,11 +164,7 @@ class FileManager(object):
         """
         if not self.has_zip():
             return # nothing to copy
-        try:
-            bytestream = self._open_bytestream()
-        except IOError:
-            return # nothing to copy
-
+        bytestream = self._open_bytestream()
         origzip = zipfile.ZipFile(bytestream)
         try:
             self._copy_from_zip_to_zip(origzip, newzip, ignore)
-- 
2.43.0


From 1b5090f4489298dd6c7e2ceaba11d9ed9e721210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 25/31] fix: documents open from bytes and flat XML, the type
 maps cover the documented types

---
 ezodf/const.py    |  8 ++++++++
 ezodf/document.py | 52 ++++++++++++++++++++++++++++++++---------------
 ezodf/styles.py   |  2 +-
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/ezodf/const.py b/ezodf/const.py
index 86b6fc4..442c4cd 100644
--- a/ezodf/const.py
+++ b/ezodf/const.py
@@ -195,7 +195,11 @@ MIMETYPE_NSMAP = {
     "application/vnd.oasis.opendocument.spreadsheet": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.spreadsheet-template": SPREADSHEET_NSMAP,
     "application/vnd.oasis.opendocument.chart" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.chart-template" : GRAPHICS_NSMAP,
     "application/vnd.oasis.opendocument.image" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.image-template" : GRAPHICS_NSMAP,
+    "application/vnd.oasis.opendocument.text-master" : TEXT_NSMAP,
+    "application/vnd.oasis.opendocument.text-web" : TEXT_NSMAP,
     "application/vnd.oasis.opendocument.formula" : GRAPHICS_NSMAP,
 }
 
@@ -209,7 +213,11 @@ MIMETYPE_BODYTAG_MAP = {
     "application/vnd.oasis.opendocument.spreadsheet": "office:spreadsheet",
     "application/vnd.oasis.opendocument.spreadsheet-template": "office:spreadsheet",
     "application/vnd.oasis.opendocument.chart" : "office:chart",
+    "application/vnd.oasis.opendocument.chart-template" : "office:chart",
     "application/vnd.oasis.opendocument.image" : "office:image",
+    "application/vnd.oasis.opendocument.image-template" : "office:image",
+    "application/vnd.oasis.opendocument.text-master" : "office:text",
+    "application/vnd.oasis.opendocument.text-web" : "office:text",
 }
 
 DEFAULT_TABLE_EXPAND_STRATEGY = "all_less_maxcount"
diff --git a/ezodf/document.py b/ezodf/document.py
index 995d335..6e327ac 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -8,7 +8,7 @@ from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
 import os
-from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream
+from .compatibility import tostr, is_bytes, is_zipfile, StringIO, is_stream, PY3
 from .const import MIMETYPES, MIMETYPE_BODYTAG_MAP, FILE_EXT_FOR_MIMETYPE
 from .xmlns import subelement, CN, etree, wrap, ALL_NSMAP, fake_element
 from .filemanager import FileManager
@@ -38,21 +38,40 @@ def is_valid_stream(buffer):
 
 def opendoc(filename):
     if is_stream(filename):
-        fm = ByteStreamManager(filename)
-    elif filename is not None:
-        fm = FileManager(filename)
+        buffer = filename.getvalue()
+    elif (PY3 and is_bytes(filename)) or is_valid_stream(filename):
+        buffer = filename
     else:
-        try:
-            xmlnode = etree.parse(filename).getroot()
-            return FlatXMLDocument(filename=filename, xmlnode=xmlnode)
-        except etree.ParseError:
-            raise IOError("File '%s' is neither a zip-package nor a flat "
-                          "XML OpenDocumentFormat file." % filename)
+        buffer = None
+
+    if buffer is None:
+        is_package = is_zipfile(filename)
+    else:
+        is_package = is_zipfile(StringIO(buffer))
+
+    if not is_package:
+        return _open_flat_xml(filename, buffer)
 
+    fm = FileManager(filename) if buffer is None else ByteStreamManager(buffer)
     mime_type = __detect_mime_type(fm)
     return PackagedDocument(filemanager=fm, mimetype=mime_type)
 
 
+def _open_flat_xml(filename, buffer):
+    if buffer is None:
+        with open(filename, 'rb') as fp:
+            buffer = fp.read()
+        docname = filename
+    else:
+        docname = None
+    try:
+        xmlnode = etree.XML(buffer)
+    except etree.ParseError:
+        raise IOError("File '%s' is neither a zip-package nor a flat "
+                      "XML OpenDocumentFormat file." % docname)
+    return FlatXMLDocument(filename=docname, xmlnode=xmlnode)
+
+
 def __detect_mime_type(file_manager):
     mime_type = file_manager.get_text('mimetype')
     if mime_type is not None:
@@ -63,8 +82,8 @@ def __detect_mime_type(file_manager):
         mime_type = entry.get(CN('manifest:media-type'))
     else:
         # use file ext name
-        ext = os.path.splitext(file_manager.zipname)[1]
-        mime_type = MIMETYPES[ext]
+        ext = os.path.splitext(file_manager.zipname or '')[1]
+        mime_type = MIMETYPES[ext[1:]]
     return mime_type
 
 
@@ -91,7 +110,7 @@ def _new_doc_from_template(filename, templatename):
             raise IOError('File does not exist or it is not a zipfile: %s' % tostr(buffer))
 
     fm = get_filemanager(templatename)
-    mimetype = fm.get_text('mimetype')
+    mimetype = __detect_mime_type(fm)
     if mimetype.endswith('-template'):
         mimetype = mimetype[:-9]
     try:
@@ -99,7 +118,7 @@ def _new_doc_from_template(filename, templatename):
         document.docname = filename
         return document
     except KeyError:
-        raise InvalidFiletypeError("Unsupported mimetype: %s".format(mimetype))
+        raise InvalidFiletypeError("Unsupported mimetype: %s" % mimetype)
 
 
 class _BaseDocument(object):
@@ -146,18 +165,19 @@ class FlatXMLDocument(_BaseDocument):
         super(FlatXMLDocument, self).__init__()
         self.docname=filename
         self.mimetype = MIMETYPES[filetype]
-        self.doctype = filetype
 
         if xmlnode is None: # new document
             self.xmlnode = etree.Element(self.TAG, nsmap=ALL_NSMAP)
+            self.xmlnode.set(CN('office:mimetype'), self.mimetype)
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
             self.mimetype = xmlnode.get(CN('office:mimetype')) # required
         else:
-            raise ValueError("Unexpected root tag: %s" % self.xmlnode.tag)
+            raise ValueError("Unexpected root tag: %s" % xmlnode.tag)
 
         if self.mimetype not in frozenset(MIMETYPES.values()):
             raise TypeError("Unsupported mimetype: %s" % self.mimetype)
+        self.doctype = FILE_EXT_FOR_MIMETYPE[self.mimetype]
 
         self._setup()
         self._create_shortcuts(self.body)
diff --git a/ezodf/styles.py b/ezodf/styles.py
index e85b758..a779c75 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -23,7 +23,7 @@ class OfficeDocumentStyles(XMLMixin):
         elif xmlnode.tag == self.TAG:
             self.xmlnode = xmlnode
         else:
-            raise ValueError("Unexpected root node: %s" % content.tag)
+            raise ValueError("Unexpected root node: %s" % xmlnode.tag)
         self._setup()
 
     def _setup(self):
-- 
2.43.0


From a46980bc52a216a50f29d00c60070b3eacc69f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 26/31] fix: styles can be injected into flat XML documents

---
 ezodf/document.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ezodf/document.py b/ezodf/document.py
index 6e327ac..064b497 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -193,6 +193,10 @@ class FlatXMLDocument(_BaseDocument):
         self.master_styles = wrap(subelement(self.xmlnode, CN('office:master-styles')))
         self.body = self.get_application_body(self.application_body_tag)
 
+    def inject_style(self, stylexmlstr, where="styles.xml"):
+        style = fake_element(stylexmlstr)
+        self.styles.xmlnode.append(style.xmlnode)
+
     def get_application_body(self, bodytag):
         # The office:body element is just frame element for the real document content:
         # office:text, office:spreadsheet, office:presentation, office:drawing
-- 
2.43.0


From c856cd362b8b5f418f8fdb392527d88da3fcfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 27/31] fix: metadata of flat XML documents are read from and
 written to office:meta

---
 ezodf/document.py | 5 ++++-
 ezodf/meta.py     | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 064b497..7244502 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -184,7 +184,10 @@ class FlatXMLDocument(_BaseDocument):
 
 
     def _setup(self):
-        self.meta = OfficeDocumentMeta(subelement(self.xmlnode, CN('office:document-meta')))
+        # a flat document contains office:meta itself, older versions of ezodf
+        # created an office:document-meta element
+        meta = self.xmlnode.find(CN('office:document-meta'))
+        self.meta = OfficeDocumentMeta(self.xmlnode if meta is None else meta)
         self.styles = wrap(subelement(self.xmlnode, CN('office:settings')))
         self.scripts = wrap(subelement(self.xmlnode, CN('office:scripts')))
         self.fonts = wrap(subelement(self.xmlnode, CN('office:font-face-decls')))
diff --git a/ezodf/meta.py b/ezodf/meta.py
index a4586b4..80b06b6 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -34,8 +34,8 @@ class OfficeDocumentMeta(XMLMixin):
     def __init__(self, xmlnode=None):
         if xmlnode is None:
             self.xmlnode = etree.Element(self.TAG, nsmap=META_NSMAP)
-        elif xmlnode.tag == self.TAG:
-            self.xmlnode = xmlnode
+        elif xmlnode.tag in (self.TAG, CN('office:document')):
+            self.xmlnode = xmlnode # the latter is the root of a flat XML document
         else:
             raise ValueError("Unexpected root node: %s" % xmlnode.tag)
 
@@ -51,7 +51,8 @@ class OfficeDocumentMeta(XMLMixin):
     def _setup(self):
         self.meta = self.xmlnode.find(CN('office:meta'))
         if self.meta is None: # this is a new document
-            self.meta = subelement(self.xmlnode, CN('office:meta'))
+            self.meta = etree.Element(CN('office:meta'), nsmap=META_NSMAP)
+            self.xmlnode.insert(0, self.meta)
             self.xmlnode.set(CN('grddl:transformation'), "http://docs.oasis-open.org/office/1.2/xslt/odf2rdf.xsl")
             self['creation-date'] = datetime.now().isoformat()
             self.touch()
-- 
2.43.0


From f2918db9b5f4c65b7992c38e61fb8a9e291c0586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 28/31] fix: flat XML documents can be saved to streams

---
 ezodf/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/document.py b/ezodf/document.py
index 7244502..29bde8c 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -208,7 +208,10 @@ class FlatXMLDocument(_BaseDocument):
         return wrap(application_body)
 
     def _saving_routine(self):
-        FileManager.write_file(self.docname, self._writefile, self.backup)
+        if is_stream(self.docname):
+            self.docname.write(self.tobytes())
+        else:
+            FileManager.write_file(self.docname, self._writefile, self.backup)
 
     def _writefile(self, filename):
         with open(filename, 'wb') as fp:
-- 
2.43.0


From 67f8d310b7e2929151c4a4cec4a999203e1f54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:34 +0000
Subject: [PATCH 29/31] fix: rows and columns of tables nested in cells are not
 rows and columns of the outer table

---
 ezodf/tablecolumncontroller.py |  8 ++++----
 ezodf/tableutils.py            | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index c9f5a90..fce609d 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -12,7 +12,7 @@ import copy
 from .xmlns import CN, etree
 from .nodestructuretags import TABLE_COLUMNS, TABLE_PRELUDE
 from .nodeorganizer import PreludeTagBlock
-from .tableutils import is_table, RepetitionAttribute
+from .tableutils import is_table, get_table_columns, RepetitionAttribute
 from .conf import config
 
 def new_empty_column():
@@ -73,7 +73,7 @@ class TableColumnController(object):
         self.update()
 
     def update(self):
-        self._columns = self.xmlnode.findall('.//'+CN('table:table-column'))
+        self._columns = get_table_columns(self.xmlnode)
 
     def reset(self, ncols):
         if ncols < 1:
@@ -109,7 +109,7 @@ class TableColumnController(object):
             strategy = expand_strategies[expand]
         except KeyError:
             raise TypeError("Unknown expand strategy: %s" % expand)
-        strategy.expand_columns(self.xmlnode.findall('.//'+CN('table:table-column')), maxcols)
+        strategy.expand_columns(get_table_columns(self.xmlnode), maxcols)
 
     def __len__(self):
         return len(self._columns)
@@ -133,7 +133,7 @@ class TableColumnController(object):
 
     def is_consistent(self):
         # just for testing
-        xmlcols = self.xmlnode.findall('.//'+CN('table:table-column'))
+        xmlcols = get_table_columns(self.xmlnode)
         if len(xmlcols) != len(self):
             return False
         for col1, col2 in zip(self._columns, xmlcols):
diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index ded6c5c..e826f43 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -63,8 +63,20 @@ def get_min_max_cell_count(xmltable):
     else:
         return (0, 0)
 
+def find_in_table(xmltable, tag):
+    """ Find all elements `tag` of `xmltable`, without the elements of tables
+    nested in the cells of `xmltable`.
+    """
+    def owner(xmlnode):
+        return next(xmlnode.iterancestors(CN('table:table')), None)
+    return [xmlnode for xmlnode in xmltable.findall('.//'+tag)
+            if owner(xmlnode) is xmltable]
+
 def get_table_rows(xmltable):
-    return xmltable.findall('.//'+CN('table:table-row'))
+    return find_in_table(xmltable, CN('table:table-row'))
+
+def get_table_columns(xmltable):
+    return find_in_table(xmltable, CN('table:table-column'))
 
 def count_cells_in_row(xmlrow):
     return sum( (RepetitionAttribute(xmlcell).cols for xmlcell in xmlrow) )
-- 
2.43.0


From c0108f4bd932cdf850b88af5947dec9a20a8e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 30/31] fix: column infos stay with their columns if there are
 more infos than columns

---
 ezodf/table.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 43dafda..388a3e8 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -156,7 +156,14 @@ class Table(GenericWrapper):
     def column_info(self, index):
         if is_string(index):
             row, index = address_to_index(index)
-        return wrap(self._columns_info.get_table_column(index))
+        # there may be more column infos than columns
+        if not -self.ncols() <= index < self.ncols():
+            raise IndexError('column index out of range')
+        return wrap(self._columns_info.get_table_column(self._column_pos(index)))
+
+    def _column_pos(self, index):
+        # negative indices count from the last column, not from the last column info
+        return index + self.ncols() if index < 0 else index
 
     def append_rows(self, count=1):
         self._cellmatrix.append_rows(count)
@@ -170,18 +177,24 @@ class Table(GenericWrapper):
         self._cellmatrix.delete_rows(index, count)
 
     def append_columns(self, count=1):
+        ncols = self.ncols()
         self._cellmatrix.append_columns(count)
-        self._columns_info.append(count)
+        if ncols < len(self._columns_info):
+            self._columns_info.insert(ncols, count)
+        else:
+            self._columns_info.append(count)
 
     def insert_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        pos = self._column_pos(index)
         self._cellmatrix.insert_columns(index, count)
-        self._columns_info.insert(index, count)
+        self._columns_info.insert(pos, count)
 
     def delete_columns(self, index, count=1):
         # CAUTION: this will break refernces in formulas!
+        pos = self._column_pos(index)
         self._cellmatrix.delete_columns(index, count)
-        self._columns_info.delete(index, count)
+        self._columns_info.delete(pos, count)
 
     def set_cell_span(self, pos, size):
         self._cell_span_controller.set_span(get_cell_index(pos), size)
-- 
2.43.0


From 31ea3487731dc2478353ed62bfe16221000830e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:40 +0000
Subject: [PATCH 31/31] fix: check_zipfile_for_oasis_validity accepts a
 mimetype that only starts with the expected one

The check compared the first bytes of the file, so a longer mimetype (the
template of a type passes for the type), or another member whose name starts
with 'mimetype', was accepted.
---
 ezodf/filemanager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index e507bbc..f72721b 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -215,12 +215,20 @@ def check_zipfile_for_oasis_validity(filename, mimetype):
         return False
     zf = zipfile.ZipFile(filename)
     names = zf.namelist()
+    if 'mimetype' in names:
+        is_first_file = zf.getinfo('mimetype').header_offset == 0
+        content = zf.read('mimetype')
+    else:
+        is_first_file, content = False, None
     if 'META-INF/manifest.xml' in names:
         manifest = zf.read('META-INF/manifest.xml')
     else:
         manifest = None
     zf.close()
 
+    # the bytes above may be the beginning of another name or another mimetype
+    if not is_first_file or content != mimetype:
+        return False
     if manifest is None:
         return False
     # meta.xml and styles.xml are not required, but I think they should
-- 
2.43.0

