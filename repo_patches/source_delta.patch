From b812c625050f4645877a133c8088bbc3d2d93ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/63] fix: justify the line before a last line of one word

---
 pdfme/text.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 7e05300..6498b5f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -700,8 +700,6 @@ class PDFTextBase:
                 for w in re.split('( +)', words)
                 if w != ''
             ]
-        is_last_part = part_index == len(self.content) - 1
-
         for word_index in range(self.last_word, len(words)):
             word = words[word_index]
             ans = self.current_line.add_word(word)
@@ -709,9 +707,7 @@ class PDFTextBase:
                 self.last_part_added = part_index
                 self.last_word_added = word_index + 1
             elif ans['status'] == 'finished':
-                continue_ = self.add_current_line(
-                    is_last_part and word_index == len(words) - 1
-                )
+                continue_ = self.add_current_line()
                 ans['new_line'].max_width = self.width - (
                     self.list_indent if self.list_text else 0
                 )
-- 
2.43.0


From 5ba039306bcb1a38603258068b24d6b3c196a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 02/63] fix: keep the last line of a justified paragraph inside
 its width

---
 pdfme/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 6498b5f..1264b15 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -889,7 +889,11 @@ class PDFTextBase:
 
         self.y_ -= full_line_height
 
-        factor = 1 if ignore_factor else factor_width / spaces_width
+        factor = 1
+        if not ignore_factor or (
+            self.text_align == 'j' and 0 < factor_width < spaces_width
+        ):
+            factor = factor_width / spaces_width
 
         for part in line.line_parts:
             text = self.clean_words(part.words)
-- 
2.43.0


From 6c8980d4c4bc85e4973120a2150a5d529bf7e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 03/63] fix: undo the first line indent only in the area that
 has the first line

---
 pdfme/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 1264b15..2f32fae 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -607,6 +607,7 @@ class PDFTextBase:
             self.fonts, line_width, self.text_align, self.line_height
         )
 
+        self.correct_indent = self.is_first_line
         self.last_indent = 0
         self.last_state = self.last_factor = self.last_fill = None
         self.last_color = self.last_stroke_width = None
-- 
2.43.0


From 4468b12e916d71b1f5b93bad6d89da8f3c989681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 04/63] fix: keep right and center aligned lines in place when
 there is an indent or a list text

---
 pdfme/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 2f32fae..314cdd4 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -817,7 +817,7 @@ class PDFTextBase:
         factor_width = self.width - words_width - x
         adjusted_indent = 0
         if self.text_align in ['r', 'c']:
-            indent = self.width - words_width - spaces_width
+            indent = self.width - words_width - spaces_width - x
             if self.text_align == 'c':
                 indent /= 2
             x += indent
@@ -828,7 +828,10 @@ class PDFTextBase:
             self.started = True
             if self.is_first_line:
                 factor_width -= self.indent
-                x += self.indent
+                if self.text_align in ['r', 'c']:
+                    self.correct_indent = False
+                else:
+                    x += self.indent
                 self.is_first_line = False
 
                 first_indent = (
-- 
2.43.0


From 0f17a631ab7fe277ea9c1049325f0904c17a71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 05/63] fix: make room for the list text in every line of a
 list paragraph

---
 pdfme/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 314cdd4..3e812d0 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -602,7 +602,12 @@ class PDFTextBase:
         self.current_height = 0
         self.lines = []
 
+        if self.is_first_line:
+            self.list_setup_done = False
+
         line_width = self.width - (self.indent if self.is_first_line else 0)
+        if self.list_text and self.list_setup_done:
+            line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
         )
@@ -646,8 +651,9 @@ class PDFTextBase:
                     self.last_word_added = 0
                     continue_ = self.add_current_line(True)
                     self.current_line = PDFTextLine(
-                        self.fonts, self.width, self.text_align,
-                        self.line_height
+                        self.fonts, self.width - (
+                            self.list_indent if self.list_setup_done else 0
+                        ), self.text_align, self.line_height
                     )
                     if not continue_:
                         return self.result
-- 
2.43.0


From abedb0e4ef38f54be2988f48e5fda16332a8f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/63] fix: restore the whole position of a paragraph in
 set_state

---
 pdfme/text.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 3e812d0..1a0a2d5 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -549,8 +549,9 @@ class PDFTextBase:
                 word of the last part that was added the last time method
                 ``run`` was called.
         """
-        self.last_part = last_part
-        self.last_word = last_word
+        self.last_part = self.last_part_line = last_part
+        self.last_word = self.last_word_line = last_word
+        self.is_first_line = last_part == 0 and last_word == 0
 
     def setup(
         self, x: Number=None, y:Number=None, width: Number=None,
-- 
2.43.0


From 2333be00e4653ecf254db94e90d3bf07193dc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/63] fix: paint the list text with its own word spacing,
 escaped, and in its own font mode

---
 pdfme/text.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 1a0a2d5..2152dfe 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -851,31 +851,12 @@ class PDFTextBase:
                     if self.list_state.size > full_line_height:
                         full_line_height = self.list_state.size
 
-                    style = self.list_style
-                    font_family = style.get('f', None)
-                    if not font_family:
-                        current_line_style = self.current_line.line_parts[0].style
-                        font_family = current_line_style.get('f', None)
-
-                    font = None
-                    if font_family not in STANDARD_FONTS:
-                        mode = 'n'
-                        if 'b' in style:
-                            mode = 'b'
-                        if 'i' in style:
-                            if mode == 'b':
-                                mode += 'i'
-                            else:
-                                mode = 'i'
-
-                        font = self.fonts.get_font(font_family, mode)
-
-                    self.text += ' 0 -{} Td{} ({})Tj {} 0 Td'.format(
+                    self.last_factor = 0
+                    self.text += ' 0 -{} Td{} 0 Tw ({})Tj {} 0 Td'.format(
                         round(full_line_height, 3),
                         self.list_state.compare(self.last_state),
-                        (font.encode_text(self.list_text) if
-                            font else self.list_text),
-                        first_indent
+                        self.encode_text(self.list_state, str(self.list_text)),
+                        round(first_indent, 3)
                     )
                 else:
                     self.text += ' {} -{} Td'.format(
@@ -927,6 +908,20 @@ class PDFTextBase:
                 self.graphics += part_graphics
             x += part_width
 
+    def encode_text(self, state: PDFState, text: str) -> str:
+        """This function transforms a text into the contents of a PDF string.
+
+        Args:
+            state (PDFState): the state with the font of the text.
+            text (str): the text to be transformed.
+
+        Returns:
+            str: the contents of the PDF string.
+        """
+        if state.font_family not in STANDARD_FONTS:
+            return state.font.encode_text(text)
+        return text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
+
     def clean_words(self, words: list) -> str:
         """This function joins a list of words (spaces included) and makes the
         resulting string compatible with a PDF string.
-- 
2.43.0


From 3bd05d636d247eb0cfd1de145d077c3aee168275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 08/63] fix: paint text in added fonts unescaped and in the
 mode its width was computed with

---
 pdfme/text.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 2152dfe..60db4b6 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -923,8 +923,7 @@ class PDFTextBase:
         return text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
 
     def clean_words(self, words: list) -> str:
-        """This function joins a list of words (spaces included) and makes the
-        resulting string compatible with a PDF string.
+        """This function joins a list of words (spaces included).
 
         Args:
             words (list): a list of strings, where each string is a word.
@@ -934,8 +933,6 @@ class PDFTextBase:
         """
 
         text = ''.join(word for word in words)
-        if text != '':
-            text = text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
         return text
 
     def output_text(self, part: PDFTextLinePart, text, factor: Number=1) -> str:
@@ -964,23 +961,7 @@ class PDFTextBase:
             self.last_factor = tw
 
         if text != '':
-            style = part.style
-            if ((font_family := style.get('f', None)) and 
-                font_family not in STANDARD_FONTS):
-            
-                mode = 'n'
-                if 'b' in style:
-                    mode = 'b'
-                if 'i' in style:
-                    if mode == 'b':
-                        mode += 'i'
-                    else:
-                        mode = 'i'
-
-                font = part.fonts.get_font(font_family, mode)
-                stream += ' ({})Tj'.format(font.encode_text(text))
-            else:
-                stream += ' ({})Tj'.format(text)
+            stream += ' ({})Tj'.format(self.encode_text(part.state, text))
         return stream
 
     def output_graphics(
-- 
2.43.0


From 8b6483b12f1050a7c7a547eb3fba840b89dcbb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 09/63] fix: write backslashes and carriage returns in strings
 so that they read back as such

---
 pdfme/parser.py | 5 ++---
 pdfme/utils.py  | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 4aafb09..8529bd0 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,4 +1,3 @@
-import re
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -82,7 +81,7 @@ def parse_obj(obj: ObjectType) -> bytes:
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-        return ('(' + re.sub(r'([()])', r'\\\1', obj) + ')').encode('latin')
+        return ('(' + escape_string(obj) + ')').encode('latin')
 
 
 def parse_dict(obj: dict) -> bytes:
@@ -165,4 +164,4 @@ def parse_stream(obj: dict) -> bytes:
     return ret
 
 from .encoders import encode_stream
-from .utils import subs
+from .utils import escape_string, subs
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 45f12ab..07582cc 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -438,7 +438,10 @@ def escape_string(text):
     Returns:
         str: Escaped text.
     '''
-    return text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+    return (
+        text.replace('\\', '\\\\').replace('(', '\\(').replace(')', '\\)')
+        .replace('\r', '\\r')
+    )
 
 from .color import PDFColor
 from .fonts import PDFFonts, PDFFont
-- 
2.43.0


From a8ea2e4b98dcdb346ac22ddadc2b98c6a69c111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 10/63] fix: write numbers without exponents, which PDF does
 not have

---
 pdfme/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/parser.py b/pdfme/parser.py
index 8529bd0..790371c 100644
--- a/pdfme/parser.py
+++ b/pdfme/parser.py
@@ -1,3 +1,4 @@
+from decimal import Decimal
 from typing import Iterable, Union
 class PDFObject:
     """A class that represents a PDF object.
@@ -78,6 +79,8 @@ def parse_obj(obj: ObjectType) -> bytes:
         return obj
     elif isinstance(obj, bool):
         return b'true' if obj else b'false'
+    elif isinstance(obj, float) and 'e' in repr(obj):
+        return format(Decimal(repr(obj)), 'f').encode('latin')
     elif isinstance(obj, (int, float)):
         return str(obj).encode('latin')
     elif isinstance(obj, str):
-- 
2.43.0


From c5edef7b6fb202e182e6df1849ebc8fed95476b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 11/63] fix: load registered fonts in every document, and find
 fonts added to a document

---
 pdfme/fonts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 68ad665..da738c8 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -80,7 +80,6 @@ class PDFFont(abc.ABC):
     """
 
     registered_fonts = {}
-    loaded_fonts = []
 
     def __init__(self, ref: str) -> None:
         self._ref = ref
@@ -411,6 +410,7 @@ class PDFFonts:
     """
     def __init__(self) -> None:
         self.fonts = {}
+        self.loaded_fonts = set()
         self.index = 1
         for font_family, modes in STANDARD_FONTS.items():
             self.fonts[font_family] = {}
@@ -436,15 +436,15 @@ class PDFFonts:
         else:
             font_type = (font_family, mode)
             if font_type in PDFFont.registered_fonts:
-                if font_type not in PDFFont.loaded_fonts:
+                if font_type not in self.loaded_fonts:
                     self.load_font(PDFFont.registered_fonts[font_type],
                         font_family,
                         mode)
-                    PDFFont.loaded_fonts.append(font_type)
-                family = self.fonts[font_family]
-            else:
+                    self.loaded_fonts.add(font_type)
+            elif font_family not in self.fonts:
                 raise ValueError('Unknown font family requested!')
-            
+            family = self.fonts[font_family]
+
         return family['n'] if mode not in family else family[mode]
 
     def load_font(self, path: str, font_family: str, mode: str='n') -> None:
-- 
2.43.0


From 814cd2d8aa4d5b7d227f03b6a073be4b0593d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 12/63] fix: keep a label at the place where its text starts

---
 pdfme/pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6e2c145..2feb58e 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -598,6 +598,8 @@ class PDF:
             if len(rects) == 0:
                 continue
             if id_.startswith('$label:'):
+                if id_[7:] in self.dests:
+                    continue
                 d = rects[0]
                 x_ref = x + d[0]
                 self.dests[id_[7:]] = [
-- 
2.43.0


From 3e6b047f5e52600961cbdd0ae21a0cbe6e62af1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 13/63] fix: add an outline once when its text continues in
 other areas

---
 pdfme/pdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 2feb58e..165b7ab 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -170,6 +170,7 @@ class PDF:
         self.pages = []
         self.running_sections = []
         self.outlines = []
+        self.outline_ids = set()
 
         self.base = PDFBase()
         self.root = self.base.add({ 'Type': b'/Catalog'})
@@ -632,6 +633,9 @@ class PDF:
                         ]
                     )
             elif id_.startswith('$outline:'):
+                if id_ in self.outline_ids:
+                    continue
+                self.outline_ids.add(id_)
                 outline_data = json.loads(id_[9:])
                 outline = self.outlines
                 for _ in range(outline_data['level'] - 1):
-- 
2.43.0


From 14c00cdba7e84d89fa09f72a4a9b6b7071da635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 14/63] fix: count the hidden children of closed outlines

---
 pdfme/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 165b7ab..4d80345 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -1042,7 +1042,7 @@ class PDF:
                     count += count_
                     obj['Count'] = count_
                 else:
-                    obj['Count'] = -1
+                    obj['Count'] = -count_
 
         parent['Last'] = obj.id
         return count
-- 
2.43.0


From 2953d7b555411e982ad04413e53d19b157204071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 15/63] fix: restore the unfinished cells of a table in
 set_state

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ae4f59e..10f5686 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -245,8 +245,8 @@ class PDFTable:
         """
         if current_index is not None:
             self.current_index = current_index
-        elif delayed is not None:
-            self.delayed = delayed
+        if delayed is not None:
+            self.delayed = copy(delayed)
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From eac29bbf4bd026a4cb1e3b7dfe6952bf40ac7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 16/63] fix: discard the lines and fills of discarded column
 layouts

---
 pdfme/content.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/content.py b/pdfme/content.py
index 983f1ed..e178a36 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -389,6 +389,8 @@ class PDFContentPart:
         self.will_reset = False
         self.resetting = False
         self.parts_index = len(self.p.parts)
+        self.lines_index = len(self.p.lines)
+        self.fills_index = len(self.p.fills)
 
         self.minim_diff_last = None
         self.minim_diff = None
@@ -649,6 +651,8 @@ class PDFContentPart:
 
         self.will_reset = False
         self.p.parts = self.p.parts[:self.parts_index]
+        self.p.lines = self.p.lines[:self.lines_index]
+        self.p.fills = self.p.fills[:self.fills_index]
         self.go_to_beginning()
 
         if self.minim_diff is None:
@@ -727,6 +731,8 @@ class PDFContentPart:
                 self.min_y = ret['min_y']
                 self.min_x = ret['min_x']
                 self.parts_index = len(self.p.parts)
+                self.lines_index = len(self.p.lines)
+                self.fills_index = len(self.p.fills)
                 self.go_to_beginning()
                 return 'retry' if children_memory is None else ret
         else:
-- 
2.43.0


From 280d636fb1ef98cbc9e34974b77dfefcf83b7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 17/63] fix: place the elements of a group where they were
 tried

---
 pdfme/content.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index e178a36..1b79249 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -1131,10 +1131,9 @@ class PDFContentPart:
         Returns:
             dict: Containing instructions to the caller.
         """
-        initial_y = self.y
-
-        if not self.starting:
-            self.y -=  style.get('margin_top', 0)
+        initial = self.y, self.starting, self.last_bottom
+        top_margin = 0 if self.starting else style.get('margin_top', 0)
+        self.y -= top_margin
 
         images = {}
         images_size = 0
@@ -1157,12 +1156,14 @@ class PDFContentPart:
                         .format(group_element)
                     )
                 group_element['tries'] += 1
-                self.y = initial_y
+                self.y, self.starting, self.last_bottom = initial
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-        new_images_size = images_size + self.y - self.max_y
-        image_ratio = new_images_size / images_size if len(images) else 1
-        self.y = initial_y
+        # a bit less than what is left, for the rounding of the new heights
+        space_left = max(0, self.y - self.max_y - 0.001)
+        image_ratio = 1 + space_left / images_size if images_size else 1
+        self.y, self.starting, self.last_bottom = initial
+        self.y -= top_margin
 
         for i, element in enumerate(group_element['group']):
             min_height = None
-- 
2.43.0


From 813cc34b2814176c9b9359cfd95746fc967fd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 18/63] fix: do not alter the definitions of documents,
 contents and paragraphs

---
 pdfme/document.py | 2 +-
 pdfme/pdf.py      | 4 ++--
 pdfme/utils.py    | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index d7881f9..5102ff9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -188,7 +188,7 @@ class PDFDocument:
             new_range_dict['pages'] = parse_range_string(range_dict['pages'])
             self.per_page.append(new_range_dict)
 
-        self.sections = document.get('sections', [])
+        self.sections = copy(document.get('sections', []))
 
         self.x = self.y = self.width = self.height = 0
 
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 4d80345..6fa9c81 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -510,7 +510,7 @@ class PDF:
             if len(style_str) > 0:
                 style.update(parse_style_str(style_str[0], self.fonts))
             style.update(process_style(content.get('style'), self))
-            content['style'] = style
+            content = {**content, 'style': style}
         return content
 
     def _position_and_size(
@@ -821,7 +821,7 @@ class PDF:
             PDFContent: object that represents a content box.
         """
         style = self._default_content_style()
-        content = content.copy()
+        content = copy(content)
         style.update(process_style(content.get('style'), self))
         content['style'] = style
         pdf_content = PDFContent(content, self.fonts, x, y, width, height, self)
diff --git a/pdfme/utils.py b/pdfme/utils.py
index 07582cc..dcf36cf 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -373,6 +373,8 @@ def copy(obj: Any) -> Any:
     """
     if isinstance(obj, list):
         return [copy(el) for el in obj]
+    elif isinstance(obj, tuple):
+        return tuple(copy(el) for el in obj)
     elif isinstance(obj, dict):
         return {k: copy(v) for k, v in obj.items()}
     else:
-- 
2.43.0


From 53bd33bdfaba9d3dbbefad5b0c24890cbe4d9ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 19/63] fix: apply page styles only to the pages they are given
 for

---
 pdfme/document.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 5102ff9..4053103 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -171,6 +171,10 @@ class PDFDocument:
             **page_args, **style_args
         )
 
+        self.page_args = {
+            'page_size': (self.pdf.page_width, self.pdf.page_height),
+            'rotate_page': self.pdf.rotate_page, 'margin': self.pdf.margin
+        }
         self.style = style
 
         self.pdf.context.update(context)
@@ -316,7 +320,7 @@ class PDFDocument:
         while True:
             page_n = len(self.pdf.pages)
 
-            page_args = section_page_args.copy()
+            page_args = {**self.page_args, **section_page_args}
 
             running_sections = set(section.get('running_sections', []))
 
-- 
2.43.0


From 96d720ec089ace718e41ccd562c928a01a496576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 20/63] fix: add running sections in the order they are listed

---
 pdfme/document.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 4053103..ce357a9 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -322,7 +322,7 @@ class PDFDocument:
 
             page_args = {**self.page_args, **section_page_args}
 
-            running_sections = set(section.get('running_sections', []))
+            running_sections = list(section.get('running_sections', []))
 
             for range_dict in self.per_page:
                 if page_n in range_dict['pages']:
@@ -334,10 +334,12 @@ class PDFDocument:
                         })
                     if 'running_sections' in range_dict:
                         per_page_rs = range_dict['running_sections']
-                        running_sections -= set(per_page_rs.get('exclude', []))
-                        running_sections.update(
-                            set(per_page_rs.get('include', []))
-                        )
+                        exclude = per_page_rs.get('exclude', [])
+                        include = per_page_rs.get('include', [])
+                        running_sections = [
+                            name for name in running_sections
+                            if name not in exclude
+                        ] + list(include)
 
             self.pdf.setup_page(**page_args)
 
@@ -353,7 +355,8 @@ class PDFDocument:
             self.section.setup(self.x, self.y, self.width, self.height)
 
             self._set_running_sections(
-                running_sections, page_width, page_height, self.pdf.margin
+                dict.fromkeys(running_sections), page_width, page_height,
+                self.pdf.margin
             )
 
             self.pdf.add_page()
-- 
2.43.0


From 587b1f18b1456b6b94b00430b6efe76ac75f50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 21/63] fix: accept open ended ranges in per_page pages

---
 pdfme/utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index dcf36cf..b9cd95b 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -1,4 +1,5 @@
 import re
+from sys import maxsize
 from typing import Any, Iterable, Union
 
 page_sizes = {
@@ -410,13 +411,11 @@ def parse_range_string(range_str: str) -> MuiltiRange:
             index = int(range_parts[0].strip())
             multi_range.add(index, index + 1)
         else:
-            first = range_parts[0].strip()
-            range_parts[0] = 0 if first == '' else int(first)
-            if len(range_parts) > 1:
-                range_parts[1] = int(range_parts[1].strip())
-            if len(range_parts) > 2:
-                range_parts[2] = int(range_parts[2].strip())
-            multi_range.add(*range_parts)
+            defaults = (0, maxsize, 1)
+            multi_range.add(*(
+                int(value) if value.strip() else default
+                for value, default in zip(range_parts, defaults)
+            ))
 
     return multi_range
 
-- 
2.43.0


From 10ce84b7b7eb3a951181a5729f8095a0de18c93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 22/63] fix: select table rows and columns like python slices
 do

---
 pdfme/table.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 10f5686..14a87e0 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -300,15 +300,10 @@ class PDFTable:
         """
         data = ':' if data == '' else data
         if ':' in data:
-            parts = data.split(':')
-            num = 0 if parts[0].strip() == '' else int(parts[0])
-            parts[0] = num if num >= 0 else count + num
-            if len(parts) > 1:
-                num = count if parts[1].strip() == '' else int(parts[1])
-                parts[1] = num if num >= 0 else count + num
-            if len(parts) > 2:
-                parts[2] = 1 if parts[2].strip() == '' else int(parts[2])
-            return range(*parts)
+            parts = [
+                int(part) if part.strip() else None for part in data.split(':')
+            ]
+            return range(*slice(*parts).indices(count))
         else:
             return [
                 count + int(i) if int(i) < 0 else int(i)
-- 
2.43.0


From 89b83b5bc653e685dfdc4f04356fc17098d1be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 23/63] fix: end table cells that have no content

---
 pdfme/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 14a87e0..a5494cc 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -789,7 +789,7 @@ class PDFTable:
         keys = [key for key in element.keys() if key.startswith('.')]
 
         real_height = 0
-        did_finished = False
+        did_finished = True
         if len(keys) > 0 or self._is_delayed_type(element, 'text'):
             real_height, did_finished = self.process_text(
                 element, x, y, width, height, style, delayed
-- 
2.43.0


From 023915c94073379a8b85e37e21c49830e668aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 24/63] fix: do not count the places tried while columns are
 balanced as failed attempts

---
 pdfme/content.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 1b79249..eadef60 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -520,6 +520,21 @@ class PDFContentPart:
 
         return 'continue'
 
+    def is_trial(self) -> bool:
+        """Function that tells whether this element, or one of its ancestors, is
+        trying a common height for its columns.
+
+        Returns:
+            bool: True if what is being placed may be discarded.
+        """
+
+        part = self
+        while part is not None:
+            if part.resetting:
+                return True
+            part = part.parent
+        return False
+
     def is_element_resetting(self) -> str:
         """Function that returns a string depending on whether this element
         is resetting or not.
@@ -941,7 +956,7 @@ class PDFContentPart:
                 })
         else:
             self.y = initial_y
-            if element.setdefault('tries', 0) >= 50:
+            if element.setdefault('tries', 0) >= 50 and not self.is_trial():
                 raise Exception(
                     'Image element could not be fitted in the document (try '
                     'adding "min_height" style property to this image for us'
@@ -949,7 +964,7 @@ class PDFContentPart:
                     ': {}'
                     .format(element)
                 )
-            element['tries'] += 1
+            element['tries'] += 0 if self.is_trial() else 1
             image_place = style.get('image_place', 'flow')
             ret['delayed'] = element
             if image_place == 'normal':
@@ -1150,12 +1165,13 @@ class PDFContentPart:
                 element, style, add_element=False, add_top_margin=i != 0
             )
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
-                if group_element.setdefault('tries', 0) >= 50:
+                tries = group_element.setdefault('tries', 0)
+                if tries >= 50 and not self.is_trial():
                     raise Exception(
                         'Group element could not be fitted in the document: {}'
                         .format(group_element)
                     )
-                group_element['tries'] += 1
+                group_element['tries'] += 0 if self.is_trial() else 1
                 self.y, self.starting, self.last_bottom = initial
                 return {'delayed': group_element, 'next': False, 'flow': True}
 
-- 
2.43.0


From 4aec4504f6cbf19eaa50869da9d488f788e0b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 25/63] fix: stop with an error when an element does not fit in
 any page

---
 pdfme/document.py |  5 ++++-
 pdfme/pdf.py      |  8 +++++++-
 pdfme/utils.py    | 27 +++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index ce357a9..eab9808 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -317,6 +317,7 @@ class PDFDocument:
             k: section_style[k] for k in PAGE_PROPS if k in section_style
         }
 
+        limit = PagesLimit()
         while True:
             page_n = len(self.pdf.pages)
 
@@ -366,6 +367,8 @@ class PDFDocument:
             if self.section.finished:
                 break
 
+            limit.check(self.section.get_state())
+
     def _add_content(self) -> None:
         """Method to add the section contents to the current page.
 
@@ -505,4 +508,4 @@ def build_pdf(document: dict, buffer: Any, context: dict=None) -> None:
 
 from .content import Number, PDFContent
 from .pdf import PDF
-from .utils import process_style, copy
\ No newline at end of file
+from .utils import process_style, copy, PagesLimit
\ No newline at end of file
diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 6fa9c81..d51dda8 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -699,7 +699,9 @@ class PDF:
             text_align=text_align, line_height=line_height, indent=indent,
             list_text=list_text, list_indent=list_indent, list_style=list_style
         )
+        limit = PagesLimit()
         while not pdf_text.finished:
+            limit.check(pdf_text.get_state())
             self.add_page()
             pdf_text = self._text(pdf_text, self.page.content_width,
                 self.page.content_height, self.page.margin_left,
@@ -801,7 +803,9 @@ class PDF:
             content, widths=widths, style=style, borders=borders, fills=fills,
             x=self.page.margin_left, width=self.page.content_width
         )
+        limit = PagesLimit()
         while not pdf_table.finished:
+            limit.check(pdf_table.get_state())
             self.add_page()
             pdf_table = self._table(
                 pdf_table, self.page.content_width, self.page.content_height,
@@ -874,7 +878,9 @@ class PDF:
         pdf_content = self._content(
             content, x=self.page.margin_left, width=self.page.content_width
         )
+        limit = PagesLimit()
         while not pdf_content.finished:
+            limit.check(pdf_content.get_state())
             self.add_page()
             pdf_content = self._content(pdf_content,
                 self.page.content_width, self.page.content_height,
@@ -1087,5 +1093,5 @@ from .table import PDFTable
 from .text import PDFText
 from .utils import (
     create_graphics, get_page_size, get_paragraph_stream, parse_margin,
-    parse_style_str, process_style, to_roman, copy
+    parse_style_str, process_style, to_roman, copy, PagesLimit
 )
diff --git a/pdfme/utils.py b/pdfme/utils.py
index b9cd95b..9a0eecf 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -381,6 +381,33 @@ def copy(obj: Any) -> Any:
     else:
         return obj
 
+class PagesLimit:
+    """Class that stops the layout of an element that can not fit in any page.
+    """
+
+    def __init__(self):
+        self.state = None
+        self.pages = 0
+
+    def check(self, state: dict) -> None:
+        """Method to be called after every page where the element was not
+        finished. It raises an exception when nothing new was placed for many
+        pages.
+
+        Args:
+            state (dict): the state of the element after the page.
+        """
+        if state != self.state:
+            self.state = copy(state)
+            self.pages = 0
+        else:
+            self.pages += 1
+            if self.pages >= 50:
+                raise Exception(
+                    'There is an element that could not be fitted in the '
+                    'document: {}'.format(state)
+                )
+
 class MuiltiRange:
     def __init__(self):
         self.ranges = []
-- 
2.43.0


From 8905839b52bb8d6eb9ba48ae25d799ac1a883524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 26/63] fix: restore in set_state whether the table has rows
 already placed

---
 pdfme/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index a5494cc..ab3c33c 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -247,6 +247,7 @@ class PDFTable:
             self.current_index = current_index
         if delayed is not None:
             self.delayed = copy(delayed)
+        self.first_row = self.current_index == 0 and len(self.delayed) == 0
 
     def set_default_border(self) -> None:
         """Method to create attribute ``default_border`` containing the default
-- 
2.43.0


From 84d1612115108293aef9c44c970806d4854ddc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 27/63] fix: put a table off only when nothing of its first row
 was placed

---
 pdfme/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index ab3c33c..670b64f 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -548,7 +548,8 @@ class PDFTable:
 
         if self.first_row:
             self.first_row = False
-            if self.max_height == 0:
+            placed = self.max_height > 0 or any(self.heights_mem.values())
+            if not placed and len(self.delayed) > 0:
                 return 'cancel'
 
         ret = True
-- 
2.43.0


From d6305d0f9d629d1578ee9733744820bdd05d933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 28/63] fix: make an interrupted row as high as what it shows
 of its row spans

---
 pdfme/table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 670b64f..2448435 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -560,6 +560,12 @@ class PDFTable:
                 ret = False
                 break
 
+        if not ret:
+            self.max_height = max(
+                [self.max_height]
+                + [self.heights_mem.get(col, 0) for col in self.rowspan]
+            )
+
         self.x_abs = self.x + self.width
         last_border = self.get_border(self.current_index, len(row), True)
         self.process_borders(len(row), last_border, {})
-- 
2.43.0


From 27e9f99f3a36999673b0297b4a9e0036f9ac4ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 29/63] fix: shrink the images of a group that only fits with
 smaller images

---
 pdfme/content.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index eadef60..666c355 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -935,8 +935,10 @@ class PDFContentPart:
         x = self.x
         min_height = style.get('min_height', float('inf'))
 
+        group_height = style.get('group_height', float('inf'))
+
         can_add = False
-        if height < self.max_height:
+        if height < self.max_height and height <= group_height:
             can_add = True
         elif min_height <= self.max_height:
             can_add = True
@@ -1106,13 +1108,16 @@ class PDFContentPart:
 
     def process_group_element(
         self, element: dict, inherited_style: dict, add_element: bool=False,
-        add_top_margin: bool=True, min_height: Optional[Number] = None
+        add_top_margin: bool=True, min_height: Optional[Number] = None,
+        fit: bool=False
     ):
         element = self.parse_element(element)
         style, element_style = self.get_element_styles(element, inherited_style)
 
         if min_height is not None:
             style['min_height'] = min_height
+            if fit:
+                style['group_height'] = min_height
 
         keys = [key for key in element.keys() if key.startswith('.')]
         if len(keys) > 0 or 'paragraph' in element:
@@ -1152,6 +1157,7 @@ class PDFContentPart:
 
         images = {}
         images_size = 0
+        fit = False
 
         for i, element in enumerate(group_element['group']):
             if isinstance(element, dict) and 'image' in element:
@@ -1161,10 +1167,22 @@ class PDFContentPart:
                     images[i] = min_height
                     images_size += min_height
 
+        i = 0
+        while i < len(group_element['group']):
             ans = self.process_group_element(
-                element, style, add_element=False, add_top_margin=i != 0
+                group_element['group'][i], style, add_element=False,
+                add_top_margin=i != 0, fit=fit,
+                min_height=images.get(i) if fit else None
             )
+            i += 1
             if not (isinstance(ans, dict) and ans.get('delayed') is None):
+                if images and not fit:
+                    # try again, with the images as small as possible
+                    fit = True
+                    i = 0
+                    self.y, self.starting, self.last_bottom = initial
+                    self.y -= top_margin
+                    continue
                 tries = group_element.setdefault('tries', 0)
                 if tries >= 50 and not self.is_trial():
                     raise Exception(
@@ -1188,7 +1206,7 @@ class PDFContentPart:
                 min_height *= 1 if style.get('shrink', 0) else image_ratio
             self.process_group_element(
                 element, style, add_element=True, add_top_margin=i != 0,
-                min_height=min_height
+                min_height=min_height, fit=fit
             )
 
         return {'delayed': None, 'next': False}
-- 
2.43.0


From 31fbcb714ba83e325676384a18a815773139e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 30/63] fix: set up the list text before the first line of a
 list paragraph is filled

A list paragraph that starts with a line break, or has no text, failed
because its list indent was not known yet.
---
 pdfme/text.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 60db4b6..795cb2f 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -606,8 +606,12 @@ class PDFTextBase:
         if self.is_first_line:
             self.list_setup_done = False
 
+        if self.list_text and not self.list_setup_done:
+            self.list_setup_done = True
+            self.setup_list()
+
         line_width = self.width - (self.indent if self.is_first_line else 0)
-        if self.list_text and self.list_setup_done:
+        if self.list_text:
             line_width -= self.list_indent
         self.current_line = PDFTextLine(
             self.fonts, line_width, self.text_align, self.line_height
@@ -693,10 +697,6 @@ class PDFTextBase:
             style=style, ids=part.get('ids')
         )
 
-        if not self.list_setup_done and self.list_text:
-            self.list_setup_done = True
-            self.setup_list()
-
         self.current_line_used_fonts.add((
             new_line_part.state.font_family,
             new_line_part.state.font_mode
@@ -766,8 +766,8 @@ class PDFTextBase:
             return True
 
     def setup_list(self) -> None:
-        """This function is called when the first part of the paragraph is going
-        to be added, and if this is a list paragraph, i.e. a paragraph with a
+        """This function is called before the first line of the paragraph is
+        filled, and if this is a list paragraph, i.e. a paragraph with a
         something on its left (a bullet, a number, etc), this function will
         setup everything needed to display the text of the list paragraph, and
         will adjust its width to make space for the list text.
@@ -776,7 +776,11 @@ class PDFTextBase:
             TypeError: if list_style or list_indent passed to this instance
                 are not a dict and an number respectively.
         """
-        style = self.current_line.next_line.line_parts[0].style.copy()
+        style = TEXT_DEFAULTS.copy()
+        for part in self.content:
+            if isinstance(part, dict) and 'type' not in part:
+                style.update(part.get('style', {}))
+                break
 
         if self.list_style is None:
             self.list_style = {}
@@ -805,7 +809,6 @@ class PDFTextBase:
             )
 
         self.list_state = line_part.state
-        self.current_line.max_width -= self.list_indent
 
     def add_line_to_stream(self, line: PDFTextLine, is_last:bool=False) -> None:
         """Function to add a PDFTextLine representing a paragraph line to the
-- 
2.43.0


From bc577e758bc9c15f774ac9b0262da6237b990707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 31/63] fix: make room for a list text that is higher than its
 line

The line was painted as low as the list text needs, but counted with its
own height, so that it could go past the bottom of its area.
---
 pdfme/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfme/text.py b/pdfme/text.py
index 795cb2f..9dae45b 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -743,6 +743,8 @@ class PDFTextBase:
             )
 
         line_height = self.current_line.height
+        if self.is_first_line and self.list_text:
+            line_height = max(line_height, self.list_state.size)
         if self.first_line_added:
             line_height *= self.line_height
         else:
-- 
2.43.0


From 699354de47437f698d7787a809fb1cb1113e4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 32/63] fix: leave spaces at the end of a line out of its width

They moved right and center aligned lines, and kept justified lines from
reaching the right edge.
---
 pdfme/text.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 9dae45b..cb49ca3 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -284,6 +284,14 @@ class PDFTextLine:
         self.next_line.line_parts.append(line_part)
         return line_part
 
+    def strip_spaces(self) -> None:
+        """Function to remove the spaces at the end of this line."""
+        for part in reversed(self.line_parts):
+            while len(part.words) and part.words[-1] == ' ':
+                part.pop_word(-1)
+            if len(part.words):
+                break
+
     def add_accumulated(self) -> None:
         """Function to add the parts accumulated in the auxiliar line (
         ``next_line`` attribute) to this line.
@@ -348,11 +356,7 @@ class PDFTextLine:
                 if (self.min_width + self.next_line.min_width < self.max_width):
                     return {'status': 'preadded'}
                 else:
-                    if (
-                        len(self.line_parts[-1].words) and
-                        self.line_parts[-1].words[-1] == ' '
-                    ):
-                        self.line_parts[-1].pop_word(-1)
+                    self.strip_spaces()
                     self.next_line.firstWordAdded = True
                     self.next_line.top_margin = self.bottom
                     self.next_line.next_line = PDFTextLine(
@@ -741,6 +745,7 @@ class PDFTextBase:
             self.current_line.line_parts.extend(
                 self.current_line.next_line.line_parts
             )
+            self.current_line.strip_spaces()
 
         line_height = self.current_line.height
         if self.is_first_line and self.list_text:
-- 
2.43.0


From f5d375885be3ea620eb235fe2a3d2dbb2e77eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 33/63] fix: size a line by its own text only

A line after a break between two styles also counted with the size and
rise of the text before it, of which it has nothing.
---
 pdfme/text.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index cb49ca3..8fd5cbd 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -207,6 +207,16 @@ class PDFTextLine:
         self.firstWordAdded = False
         self.started = False
 
+    @property
+    def sized_parts(self) -> list:
+        """Property that returns the parts that have an effect on the height of
+        the line: the ones with text, or all of them if there is no text.
+
+        Returns:
+            list: of parts.
+        """
+        return [p for p in self.line_parts if len(p.words)] or self.line_parts
+
     @property
     def height(self) -> float:
         """Property that returns the line height, calculated from the vertical
@@ -217,7 +227,7 @@ class PDFTextLine:
         """
         top = 0
         height_ = 0
-        for part in self.line_parts:
+        for part in self.sized_parts:
             if part.state.rise > 0 and part.state.rise > top:
                 top = part.state.rise
             if part.state.size > height_:
@@ -246,7 +256,7 @@ class PDFTextLine:
             float: the line bottom.
         """
         bottom = 0
-        for part in self.line_parts:
+        for part in self.sized_parts:
             if part.state.rise < 0 and -part.state.rise > bottom:
                 bottom = -part.state.rise
         return bottom
-- 
2.43.0


From c1cb1f5fcc6857f1bf354313879f03744d63a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:58 +0000
Subject: [PATCH 34/63] fix: resume a box interrupted by a delayed element
 where it was

---
 pdfme/content.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 666c355..44c3ed6 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -354,7 +354,6 @@ class PDFContentPart:
         self.section_element_index = 0  # index when the last section jump occured
         self.section_delayed = []  # delayed elements when the last section jump occured
         self.children_memory = []  # the last state of this element
-        self.partial_children_memory = None
 
         self.setup(min_x, width, min_y, max_y)
 
@@ -386,6 +385,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index # current index
         self.delayed = copy(self.section_delayed) # current delayed elements
+        self.partial_children_memory = None
         self.will_reset = False
         self.resetting = False
         self.parts_index = len(self.p.parts)
@@ -685,6 +685,7 @@ class PDFContentPart:
 
         self.element_index = self.section_element_index
         self.delayed = copy(self.section_delayed)
+        self.partial_children_memory = None
 
         return True
 
@@ -730,8 +731,8 @@ class PDFContentPart:
                     'delayed': copy(self.delayed)
                 }
                 if children_memory is None:
-                    self.children_memory = []
-                    new_children_memory = [new_index]
+                    self.children_memory = self.partial_children_memory or []
+                    new_children_memory = self.children_memory + [new_index]
                 else:
                     self.children_memory = copy(children_memory)
                     new_children_memory = copy(children_memory)
@@ -1065,14 +1066,14 @@ class PDFContentPart:
         down_condition2 = self.partial_children_memory is not None
 
         if down_condition1 or down_condition2:
-            child = self.children_memory[-1] if down_condition1 else \
-                self.partial_children_memory[-1]
+            memory = self.partial_children_memory if down_condition2 else \
+                self.children_memory
+            child = memory[-1]
             pdf_content.section_element_index = child['index']
             pdf_content.section_delayed = copy(child['delayed'])
             pdf_content.element_index = child['index']
             pdf_content.delayed = copy(child['delayed'])
-            pdf_content.children_memory = self.children_memory[:-1] \
-                if down_condition1 else self.partial_children_memory[:-1]
+            pdf_content.children_memory = memory[:-1]
 
             self.partial_children_memory = None
 
-- 
2.43.0


From 9fae2772440a5641fd675a044c51793d3d508390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 35/63] fix: add delayed elements first in a column started by
 a nested box

---
 pdfme/content.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 44c3ed6..7e03092 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -750,18 +750,17 @@ class PDFContentPart:
                 self.lines_index = len(self.p.lines)
                 self.fills_index = len(self.p.fills)
                 self.go_to_beginning()
-                return 'retry' if children_memory is None else ret
         else:
             self.column += 1
             self.starting = True
             self.y = self.min_y
 
-            if len(self.delayed) > 0 and children_memory is not None:
-                self.partial_children_memory = copy(children_memory)
-                return 'partial_next'
+        if len(self.delayed) > 0 and children_memory is not None:
+            self.partial_children_memory = copy(children_memory)
+            return 'partial_next'
 
-            return 'retry' if children_memory is None else \
-                {'min_x': self.get_min_x(), 'min_y': self.min_y}
+        return 'retry' if children_memory is None else \
+            {'min_x': self.get_min_x(), 'min_y': self.min_y}
 
     def get_min_x(self) -> Number:
         """Function to get the x coordinate of the rectangle depending on the
-- 
2.43.0


From 6ae4dd9bdd22cb82b45d234422a238199990acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 36/63] fix: try the last element before leaving a column with
 delayed elements

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 7e03092..5464a65 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -464,7 +464,7 @@ class PDFContentPart:
 
         if (
             len(self.delayed) > 0 and
-            self.element_index >= len(self.elements) - 1
+            self.element_index >= len(self.elements)
         ):
             return 'next'
 
-- 
2.43.0


From 5c4f4e3b439b4b92de4697b75901bafc9b2f5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:17 +0000
Subject: [PATCH 37/63] fix: balance columns only when no delayed elements are
 left to add

---
 pdfme/content.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 5464a65..36e1092 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -643,7 +643,10 @@ class PDFContentPart:
         """
 
         parent = self.parent
-        if parent and self.last  and parent.cols_n > 1:
+        if (
+            parent and self.last and parent.cols_n > 1 and
+            len(parent.delayed) == 0
+        ):
             parent.start_resetting()
             return
 
-- 
2.43.0


From 7699c632c5e71a63339ec8e1d59641a32e817eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 38/63] fix: keep spans and fills of finished cells of a row
 continued later

---
 pdfme/table.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index 2448435..dc1b125 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -467,6 +467,7 @@ class PDFTable:
         self.fills_mem = {}
         self.heights_mem = {}
         self.rowspan = {}
+        self.done_cells = {}
         self.vert_lines = [
             {'list': [], 'interrupted': True}
             for i in range(self.cols_count + 1)
@@ -477,6 +478,9 @@ class PDFTable:
         if len(self.delayed) > 0:
             can_continue = False
             row = [self.delayed.get(i) for i in range(self.cols_count)]
+            self.delayed = {
+                i: v for i, v in self.delayed.items() if v['type'] != 'done'
+            }
             action = self.add_row(row, True)
             if action == 'continue':
                 self.current_index += 1
@@ -550,6 +554,7 @@ class PDFTable:
             self.first_row = False
             placed = self.max_height > 0 or any(self.heights_mem.values())
             if not placed and len(self.delayed) > 0:
+                self.delay_done_cells()
                 return 'cancel'
 
         ret = True
@@ -561,6 +566,7 @@ class PDFTable:
                 break
 
         if not ret:
+            self.delay_done_cells()
             self.max_height = max(
                 [self.max_height]
                 + [self.heights_mem.get(col, 0) for col in self.rowspan]
@@ -586,6 +592,18 @@ class PDFTable:
 
         return 'continue' if ret else 'interrupt'
 
+    def delay_done_cells(self) -> None:
+        """Adds the finished cells, that are in the current row, to the delayed
+        ones, for the rest of the row to have the same cells.
+        """
+        for col, cell in self.done_cells.items():
+            cols = range(col, col + cell['colspan'])
+            if (
+                cell['row'] + cell['rowspan'] > self.current_index
+                and not any(i in self.delayed for i in cols)
+            ):
+                self.delayed[col] = cell
+
     def get_cell_dimensions(
         self, col: int, border_left: dict, border_top: dict,
         cell_style: dict, rowspan: int, colspan: int
@@ -818,6 +836,7 @@ class PDFTable:
 
         if did_finished:
             self.delayed.pop(col, None)
+            self.done_cells[col] = {**delayed, 'delayed': None, 'type': 'done'}
         else:
             self.delayed[col] = delayed
 
-- 
2.43.0


From 621a8f7e59980529f494230e7cc34a7af44aa069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 39/63] fix: keep the fill of a cell in the rest of it

---
 pdfme/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfme/table.py b/pdfme/table.py
index dc1b125..5cef4a6 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -756,6 +756,7 @@ class PDFTable:
                 self.fills_defs.get(self.current_index, {}).get(col, None)
             )
 
+        cell_style['cell_fill'] = fill_color # for the rest of the cell, if any
         if fill_color is not None:
             self.fills_mem[col] = { 'type': 'fill', 'x': self.x_abs,
                 'y': self.y_abs, 'width': width, 'height': 0,
-- 
2.43.0


From fff1cb7ba85cfe58a03d2e3a87f59c38ca974262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 40/63] fix: do not fill a cell continued on a page with the
 fill of another row

---
 pdfme/table.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 5cef4a6..3493f37 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -738,7 +738,7 @@ class PDFTable:
         return element, style, cell_style
 
     def _setup_cell_fill(
-        self, col: int, cell_style: dict, width: Number, rowspan: int
+        self, col: int, cell_style: dict, width: Number, rowspan: int, row: int
     ) -> None:
         """Method to optionally add the fill color in ``cell`style`` to
         attribute ``fills_mem``
@@ -748,13 +748,12 @@ class PDFTable:
             cell_style (dict): the cell style.
             width (Number): the width of the cell.
             rowspan (int): the rowspan of the cell.
+            row (int): the index of the row where the cell starts.
         """
         fill_color = cell_style.get('cell_fill', None)
 
         if fill_color is None:
-            fill_color = (
-                self.fills_defs.get(self.current_index, {}).get(col, None)
-            )
+            fill_color = self.fills_defs.get(row, {}).get(col, None)
 
         cell_style['cell_fill'] = fill_color # for the rest of the cell, if any
         if fill_color is not None:
@@ -811,7 +810,9 @@ class PDFTable:
             'rowspan': element.get('rowspan', 1), 'row': row_added
         }
 
-        self._setup_cell_fill(col, cell_style, width + padd_x, rowspan)
+        self._setup_cell_fill(
+            col, cell_style, width + padd_x, rowspan, row_added
+        )
 
         keys = [key for key in element.keys() if key.startswith('.')]
 
-- 
2.43.0


From 8544763014dcc885f7db8cfc6f12c2efb96758ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 41/63] fix: paint the top border of a column span that follows
 a row span

---
 pdfme/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/table.py b/pdfme/table.py
index 3493f37..36a5e75 100644
--- a/pdfme/table.py
+++ b/pdfme/table.py
@@ -687,8 +687,8 @@ class PDFTable:
                     self.fills_mem[col]['add_later'] = False
                 if self.heights_mem.get(col, 0) > self.max_height:
                     self.max_height = self.heights_mem[col]
-                if self.colspan == 0:
-                    self.is_rowspan = False
+            if self.colspan == 0:
+                self.is_rowspan = False
             can_continue = True
         return can_continue
 
-- 
2.43.0


From 7b49579d338b0017d9e39d0e8a12cd7e784e1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 42/63] fix: accept margins given as a string with one number
 and as a tuple of three

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 9a0eecf..e7d9b71 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -114,7 +114,7 @@ def parse_margin(margin: MarginType) -> dict:
     if isinstance(margin, str):
         margin = re.split(',| ', margin)
         if len(margin) == 1:
-            margin = float(margin)
+            margin = float(margin[0])
         else:
             margin = [float(x) for x in margin]
 
@@ -129,7 +129,7 @@ def parse_margin(margin: MarginType) -> dict:
         elif len(margin) == 2:
             margin = margin * 2
         elif len(margin) == 3:
-            margin = margin + [margin[1]]
+            margin = [*margin, margin[1]]
         elif len(margin) > 4:
             margin = margin[0:4]
 
-- 
2.43.0


From d57954a3cfff702f13e6fc5c5362e864511a494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 43/63] fix: accept a named style in a footnote

---
 pdfme/document.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index eab9808..4dcfde7 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -459,10 +459,10 @@ class PDFDocument:
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
             footnote = copy(footnote)
-            style = footnote.setdefault('style', {})
-            style.update(dict(
+            footnote['style'] = dict(
+                process_style(footnote.get('style'), self.pdf),
                 list_text=str(index + 1) + ' ', list_style='$footnote'
-            ))
+            )
             content['content'].append(footnote)
 
         footnote_obj = self.pdf._create_content(
-- 
2.43.0


From bdd90d173bde0791294e94ac9ff3a64635be0767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:35 +0000
Subject: [PATCH 44/63] fix: number the footnotes of a page as they are after
 making room for them

---
 pdfme/document.py | 60 ++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/pdfme/document.py b/pdfme/document.py
index 4dcfde7..0198b97 100644
--- a/pdfme/document.py
+++ b/pdfme/document.py
@@ -386,36 +386,41 @@ class PDFDocument:
         self.section.run(height=self.height)
         footnotes_obj = self._process_footnotes()
 
-        if footnotes_obj is None:
-            self.pdf._add_graphics([*self.section.fills,*self.section.lines])
-            self.pdf._add_parts(self.section.parts)
-            self.pdf.page._y -= self.section.current_height
-        else:
-            footnotes_height = footnotes_obj.current_height
+        footnotes_height = 0
+        numbered = []
+        # run again while the marks in the page are not the ones that were
+        # numbered, or the footnotes don't fit in the space left for them.
+        while self.page_footnotes != numbered[:len(self.page_footnotes)]:
+            numbered = self.page_footnotes
+            footnotes_height = max(
+                footnotes_obj.current_height,
+                footnotes_height + 1 if footnotes_height else 0
+            )
             if footnotes_height >= self.height - self.footnotes_margin - 20:
                 raise Exception(
                     "footnotes are very large and don't fit in one page"
                 )
-            new_height = self.height - footnotes_obj.current_height \
-                - self.footnotes_margin
-
-            if section_state is not None:
-                self.section.set_state(**section_state)
-                self.section.finished = False
-            self.pdf._content(self.section, height=new_height)
+            new_height = self.height - footnotes_height - self.footnotes_margin
 
+            self.section.set_state(**section_state)
+            self.section.finished = False
+            self.section.run(self.x, self.y, self.width, new_height)
             footnotes_obj = self._process_footnotes()
 
-            if footnotes_obj is not None:
-                self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
-                self.pdf.page.x = self.x
+        self.pdf._add_graphics([*self.section.fills,*self.section.lines])
+        self.pdf._add_parts(self.section.parts)
+        self.pdf.page._y -= self.section.current_height
 
-                x_line = round(self.pdf.page.x, 3)
-                y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
-                self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
-                    x_line, y_line, x_line + 150, y_line
-                ))
-                self.pdf._content(footnotes_obj, height=self.height)
+        if footnotes_obj is not None:
+            self.pdf.page._y = self.pdf.margin['bottom'] + footnotes_height
+            self.pdf.page.x = self.x
+
+            x_line = round(self.pdf.page.x, 3)
+            y_line = round(self.pdf.page._y + self.footnotes_margin/2, 3)
+            self.pdf.page.add(' q 0 G 0.5 w {} {} m {} {} l S Q'.format(
+                x_line, y_line, x_line + 150, y_line
+            ))
+            self.pdf._content(footnotes_obj, height=self.height)
 
     def _check_footnote(self, ids: dict, page_footnotes: list) -> None:
         """Method that extract the footnotes from the ids passed as argument,
@@ -424,14 +429,14 @@ class PDFDocument:
         Args:
             ids (dict): the ids list.
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for id_, rects in ids.items():
             if len(rects) == 0:
                 continue
             if id_.startswith('$footnote:'):
                 index = int(id_[10:])
-                page_footnotes.append(self.footnotes[index])
+                page_footnotes.append(index)
                 self.pdf.context[id_] = len(page_footnotes)
 
     def _check_footnotes(self, page_footnotes: list) -> None:
@@ -440,7 +445,7 @@ class PDFDocument:
 
         Args:
             page_footnotes (list): the list of the page footnotes to save the
-                footnotes found in the ids.
+                indexes of the footnotes found in the ids.
         """
         for part in self.section.parts:
             if part['type'] == 'paragraph':
@@ -451,14 +456,14 @@ class PDFDocument:
         the current page.
 
         Args:
-            page_footnotes (list): the list of the page footnotes
+            page_footnotes (list): the indexes of the page footnotes
 
         Returns:
             PDFContent: object containing the footnotes.
         """
         content = {'style': '$footnotes', 'content': []}
         for index, footnote in enumerate(page_footnotes):
-            footnote = copy(footnote)
+            footnote = copy(self.footnotes[footnote])
             footnote['style'] = dict(
                 process_style(footnote.get('style'), self.pdf),
                 list_text=str(index + 1) + ' ', list_style='$footnote'
@@ -481,6 +486,7 @@ class PDFDocument:
         """
         page_footnotes = []
         self._check_footnotes(page_footnotes)
+        self.page_footnotes = page_footnotes
         if len(page_footnotes) == 0:
             return None
         return self._get_footnotes_obj(page_footnotes)
-- 
2.43.0


From 5e1f077400ce447a0fecd92e941b484076626514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 45/63] fix: accept style string elements b, i and u given with
 a value

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index e7d9b71..6e57541 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -197,7 +197,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element "{}" must be 0 or 1: {}'
                         .format(attr, value)
                     )
-            if attr == "f":
+            elif attr == "f":
                 if value not in fonts.fonts:
                     font_found = False
 
-- 
2.43.0


From d92fac9f8ca5fa65d1b684864a4bfd525d26c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 46/63] fix: accept spaces before s and r in a style string

---
 pdfme/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index 6e57541..c6aa99e 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -217,7 +217,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                 style['c'] = PDFColor(value)
             elif attr == "bg":
                 style['bg'] = PDFColor(value)
-            elif attrs[0] == "s":
+            elif attr == "s":
                 try:
                     v = float(value)
                     if int(v) == v:
@@ -228,7 +228,7 @@ def parse_style_str(style_str: str, fonts: 'PDFFonts') -> dict:
                         'Style element value for "s" is wrong:'
                         ' {}'.format(value)
                     )
-            elif attrs[0] == 'r':
+            elif attr == 'r':
                 try: style['r'] = float(value)
                 except:
                     raise ValueError(
-- 
2.43.0


From c441dc477138515b0eccd2b72c0929b090088954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 47/63] fix: put the top of an image at the y position given,
 or at the cursor

---
 pdfme/pdf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index d51dda8..fdf2262 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -415,12 +415,13 @@ class PDF:
         if x is not None:
             self.page.x = x
         if y is not None:
-            self.page._y = y
+            self.page.y = y
 
+        self.page.y += height
         self.page.add_image(image_obj.id, width, height)
 
-        if move == 'bottom':
-            self.page.y += height
+        if move != 'bottom':
+            self.page.y -= height
         if move == 'next':
             self.page.x += width
 
@@ -905,7 +906,8 @@ class PDF:
         for images. The other keys in a ``text`` part are the ones obtained from
         PDFText ``result`` property, and the other keys in a ``image`` part,
         should be the same as the arguments for :meth:`pdfme.pdf.PDF.add_image`
-        method.
+        method, except ``y``, the distance from the bottom of the page to the
+        bottom of the image.
 
         Args:
             parts (list, tuple): the iterable just explained.
@@ -916,6 +918,7 @@ class PDF:
             if type_ == 'paragraph':
                 self._add_text(**part)
             elif type_ == 'image':
+                part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
-- 
2.43.0


From 3cdfcaa646f211e68ce4b37becedffd0c72270c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:37 +0000
Subject: [PATCH 48/63] fix: accept fill bytes before the markers of a JPEG
 image

---
 pdfme/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/image.py b/pdfme/image.py
index e45d28f..1d2f510 100644
--- a/pdfme/image.py
+++ b/pdfme/image.py
@@ -94,6 +94,9 @@ class PDFImage:
         try:
             while True:
                 markerHigh, markerLow = struct.unpack("BB", bytes_.read(2))
+                while markerHigh == 0xFF and markerLow == 0xFF:
+                    # fill bytes before the marker
+                    (markerLow,) = struct.unpack("B", bytes_.read(1))
                 if markerHigh != 0xFF or markerLow < 0xC0:
                     raise SyntaxError("No JPEG marker found")
                 elif markerLow == 0xDA:
-- 
2.43.0


From 3fbf4bd9f6813b681fcd3f6250f771758f42626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 49/63] fix: look up the normal mode of a registered family
 that lacks a mode

---
 pdfme/fonts.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index da738c8..8dafef5 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -434,14 +434,17 @@ class PDFFonts:
         if font_family in STANDARD_FONTS:
             family = self.fonts[font_family]
         else:
-            font_type = (font_family, mode)
-            if font_type in PDFFont.registered_fonts:
-                if font_type not in self.loaded_fonts:
+            for font_type in ((font_family, mode), (font_family, 'n')):
+                if (
+                    font_type in PDFFont.registered_fonts and
+                    font_type not in self.loaded_fonts
+                ):
                     self.load_font(PDFFont.registered_fonts[font_type],
-                        font_family,
-                        mode)
+                        *font_type)
                     self.loaded_fonts.add(font_type)
-            elif font_family not in self.fonts:
+                if mode in self.fonts.get(font_family, ()):
+                    break
+            if font_family not in self.fonts:
                 raise ValueError('Unknown font family requested!')
             family = self.fonts[font_family]
 
-- 
2.43.0


From 1cae0394d24e725e23b6e57eed93595b81127409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 50/63] fix: embed and declare the font that is painted, when
 another one was used before for its family and mode

---
 pdfme/pdf.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index fdf2262..d192e09 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -337,13 +337,10 @@ class PDF:
             in the PDF text streams), and the second as the id of the inner
             PDF object that represents the font.
         """
-        f = (font_family, mode)
-        if f in self.used_fonts:
-            return self.used_fonts[f]
-        font = self.fonts.get_font(*f)
-        font_obj = font.add_font(self.base)
-        self.used_fonts[(font_family, mode)] = (font.ref, font_obj.id)
-        return font.ref, font_obj.id
+        font = self.fonts.get_font(font_family, mode)
+        if font.ref not in self.used_fonts:
+            self.used_fonts[font.ref] = font.add_font(self.base).id
+        return font.ref, self.used_fonts[font.ref]
 
     def _used_font(self, font_family: str, mode: str) -> None:
         """Method to add a font to the current page.
-- 
2.43.0


From 8406d9b999ffc3b0853c723121041ede603a9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 51/63] fix: take the PostScript name of an embedded font from
 its record, wherever it is

---
 pdfme/fonts.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 8dafef5..169b88a 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -273,7 +273,10 @@ class PDFTrueTypeFont(PDFFont):
         Returns:
             dict: dict representing this font's "font descriptor".
         """
-        self._base_font = self.font['name'].names[6].toStr()
+        base_font = self.font['name'].getDebugName(6) or Path(self.filename).stem
+        self._base_font = ''.join(
+            c for c in base_font if '!' <= c <= '~' and c not in '()<>[]{}/%#'
+        )
         head = self.font["head"]
         self.units_per_em = head.unitsPerEm
         scale = self.scale = 1000 / self.units_per_em
-- 
2.43.0


From d96cf6958ea47b339cd524018cd0f321183cde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 52/63] fix: embed fonts without an OS/2 table

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 169b88a..7e19952 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -309,7 +309,7 @@ class PDFTrueTypeFont(PDFFont):
             if hhea is None:
                 ascent = yMax
                 descent = yMin
-            capHeight = self.ascent
+            capHeight = ascent
 
         stemV = 50 + int(pow((usWeightClass / 65.0),2))
 
-- 
2.43.0


From 31be6186000d0f3a8dc1fd4246410d5c0355c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 53/63] fix: write text in the encoding of the font it is
 painted with

---
 pdfme/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8fd5cbd..8d56d00 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -938,7 +938,7 @@ class PDFTextBase:
         Returns:
             str: the contents of the PDF string.
         """
-        if state.font_family not in STANDARD_FONTS:
+        if isinstance(state.font, PDFTrueTypeFont):
             return state.font.encode_text(text)
         return text.replace('\\',r'\\').replace('(','\\(').replace(')','\\)')
 
@@ -1360,6 +1360,6 @@ class PDFText(PDFTextBase):
             self.content.remove(text_part)
 
 from .color import PDFColor
-from .fonts import PDFFonts, STANDARD_FONTS
+from .fonts import PDFFonts, PDFTrueTypeFont, STANDARD_FONTS
 from .pdf import PDF
 from .utils import get_paragraph_stream, parse_style_str, process_style, copy
-- 
2.43.0


From fadf6522b356b217134412613b2709b362bb986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 54/63] fix: declare the width of every glyph of an embedded
 font under its own number

---
 pdfme/fonts.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 7e19952..ad6c3db 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -387,24 +387,16 @@ class PDFTrueTypeFont(PDFFont):
         font = self.font
         scale = self.scale
 
-        widths = []
-        current_width_group = []
+        glyphs = {font.getGlyphID(name): name for name in cmap.values()}
+        glyphs[0] = '.notdef'
 
+        widths = []
         prev_glyph_id = None
-        for c in cmap:
-            current_glyph_id = font.getGlyphID(cmap[c])
-            if not widths:
-                widths.append(current_glyph_id)
-                prev_glyph_id = current_glyph_id
-            elif (current_glyph_id - prev_glyph_id) != 1:
-                widths.append(current_width_group)
-                widths.append(current_glyph_id)
-                current_width_group = []
-                prev_glyph_id = current_glyph_id
-
-            current_width_group.append(glyph_set[cmap[c]].width * scale)
-
-        widths.append(current_width_group)
+        for glyph_id in sorted(glyphs):
+            if prev_glyph_id is None or glyph_id != prev_glyph_id + 1:
+                widths.extend([glyph_id, []])
+            widths[-1].append(glyph_set[glyphs[glyph_id]].width * scale)
+            prev_glyph_id = glyph_id
 
         return widths
 
-- 
2.43.0


From 06e7f17a761c7d78b472c370ce0b0224401552cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 55/63] fix: map glyphs to characters beyond the basic plane
 with surrogate pairs

---
 pdfme/fonts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index ad6c3db..90ecaa0 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -47,7 +47,9 @@ def get_tounicode_cmap(cmap_mappings):
     mappings = []
     for (cid, gid) in cmap_mappings.items():
         mappings.append(
-            f'{cmap_hex_format(hex(int(gid)))} {cmap_hex_format(hex(int(cid)))}')
+            f'{cmap_hex_format(hex(int(gid)))} '
+            f'{cmap_hex_format(chr(cid).encode("utf-16-be", "surrogatepass").hex())}'
+        )
 
     return f'''/CIDInit /ProcSet findresource begin
         12 dict begin
-- 
2.43.0


From 12b1c958810b119caf5f29bb8addbc0be548cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 56/63] fix: write glyphs whose numbers are in the range of the
 surrogates

---
 pdfme/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/utils.py b/pdfme/utils.py
index c6aa99e..c710c5a 100644
--- a/pdfme/utils.py
+++ b/pdfme/utils.py
@@ -455,7 +455,7 @@ def as_hex(text: str) -> str:
     Returns:
         str: The transformed text.
     """
-    return escape_string(text.encode('UTF-16-BE').decode('latin'))
+    return escape_string(text.encode('UTF-16-BE', 'surrogatepass').decode('latin'))
 
 def escape_string(text):
     '''Takes in a text and returns all special characters escaped.
-- 
2.43.0


From 2b01ce2bf684e75d424586dd0a0d28f3b68ab430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:29 +0000
Subject: [PATCH 57/63] fix: paint the glyph for missing characters, as it was
 measured

---
 pdfme/fonts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index 90ecaa0..d783b79 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -381,7 +381,7 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids[ord(c)])) for c in text)
+        return ''.join(as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text)
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
-- 
2.43.0


From ee21e9295552609d395c2f8ecdabd6bb9d4e38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:12 +0000
Subject: [PATCH 58/63] fix: read back characters that share a glyph as what
 they are

---
 pdfme/fonts.py | 58 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/pdfme/fonts.py b/pdfme/fonts.py
index d783b79..a573985 100644
--- a/pdfme/fonts.py
+++ b/pdfme/fonts.py
@@ -261,9 +261,18 @@ class PDFTrueTypeFont(PDFFont):
 
         self.font_descriptor = self._get_font_descriptor()
         cids2gids = self.cids2gids = {}
-        for c in cmap:
-            cids2gids[c] = font.getGlyphID(cmap[c])
-
+        # The code of a character is the number of its glyph, unless it is the
+        # code of another character, which would be read back instead.
+        codes = self.codes = {}
+        used = {0}
+        free_code = font['maxp'].numGlyphs
+        for c in sorted(cmap):
+            code = cids2gids[c] = font.getGlyphID(cmap[c])
+            if code in used and free_code <= 0xFFFF:
+                code = free_code
+                free_code += 1
+            used.add(code)
+            codes[c] = code
 
     def _get_font_descriptor(self) -> dict:
         """Method to extract information needed by the PDF document from the
@@ -357,7 +366,7 @@ class PDFTrueTypeFont(PDFFont):
             'FontDescriptor': font_descriptor.id,
             'BaseFont': subs('/{}', self.base_font),
             'Subtype': b'/CIDFontType2',
-            'CIDToGIDMap': b'/Identity',
+            'CIDToGIDMap': self._get_cid_to_gid_map(base),
             'CIDSystemInfo': {
                 'Registry': 'Adobe',
                 'Ordering': 'Identity',
@@ -368,7 +377,7 @@ class PDFTrueTypeFont(PDFFont):
 
         to_unicode_stream = base.add({
             'Filter': b'/FlateDecode',
-            '__stream__': get_tounicode_cmap(self.cids2gids)
+            '__stream__': get_tounicode_cmap(self.codes)
         })
 
         return base.add({
@@ -381,7 +390,28 @@ class PDFTrueTypeFont(PDFFont):
         })
 
     def encode_text(self, text: str):
-        return ''.join(as_hex(chr(self.cids2gids.get(ord(c), 0))) for c in text)
+        return ''.join(as_hex(chr(self.codes.get(ord(c), 0))) for c in text)
+
+    def _get_cid_to_gid_map(self, base: 'PDFBase'):
+        """Method to get the map from the codes of the characters to the numbers
+        of their glyphs.
+
+        Args:
+            base (PDFBase): the base instance this font is being added to.
+
+        Returns:
+            bytes or PDFRef: the name of the identity map, or the id of the
+            stream object with the map, if they are not the same.
+        """
+        if all(self.codes[c] == gid for c, gid in self.cids2gids.items()):
+            return b'/Identity'
+        gids = list(range(max(self.codes.values()) + 1))
+        for c, gid in self.cids2gids.items():
+            gids[self.codes[c]] = gid
+        return base.add({
+            'Filter': b'/FlateDecode',
+            '__stream__': b''.join(gid.to_bytes(2, 'big') for gid in gids)
+        }).id
 
     def compute_char_widths(self):
         glyph_set = self.glyph_set
@@ -389,16 +419,16 @@ class PDFTrueTypeFont(PDFFont):
         font = self.font
         scale = self.scale
 
-        glyphs = {font.getGlyphID(name): name for name in cmap.values()}
-        glyphs[0] = '.notdef'
+        glyphs = {code: cmap[c] for c, code in self.codes.items()}
+        glyphs.setdefault(0, '.notdef')
 
         widths = []
-        prev_glyph_id = None
-        for glyph_id in sorted(glyphs):
-            if prev_glyph_id is None or glyph_id != prev_glyph_id + 1:
-                widths.extend([glyph_id, []])
-            widths[-1].append(glyph_set[glyphs[glyph_id]].width * scale)
-            prev_glyph_id = glyph_id
+        prev_code = None
+        for code in sorted(glyphs):
+            if prev_code is None or code != prev_code + 1:
+                widths.extend([code, []])
+            widths[-1].append(glyph_set[glyphs[code]].width * scale)
+            prev_code = code
 
         return widths
 
-- 
2.43.0


From 5f7f582f27ee7024bf71848a9947dc062c59f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:12 +0000
Subject: [PATCH 59/63] fix: space out justified text in embedded fonts, whose
 codes have two bytes

---
 pdfme/text.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdfme/text.py b/pdfme/text.py
index 8d56d00..c434d6c 100644
--- a/pdfme/text.py
+++ b/pdfme/text.py
@@ -980,7 +980,19 @@ class PDFTextBase:
             stream += ' {} Tw'.format(tw)
             self.last_factor = tw
 
-        if text != '':
+        if text == '':
+            return stream
+
+        if tw != 0 and isinstance(part.state.font, PDFTrueTypeFont):
+            # word spacing applies to the codes of one byte only
+            adjustment = round(-tw * 1000 / part.state.size, 3)
+            words = text.split(' ')
+            pieces = [word + ' ' for word in words[:-1]] + words[-1:]
+            stream += ' [{}]TJ'.format(' {} '.format(adjustment).join(
+                '({})'.format(self.encode_text(part.state, piece))
+                for piece in pieces
+            ))
+        else:
             stream += ' ({})Tj'.format(self.encode_text(part.state, text))
         return stream
 
-- 
2.43.0


From 1b59fa5cc9760c1470260e10a63f9d553d973f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:54 +0000
Subject: [PATCH 60/63] fix: use the line height and indent of the PDF for its
 paragraphs

---
 pdfme/pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index d192e09..5013072 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -553,7 +553,7 @@ class PDF:
 
     def _create_text(
         self, content: TextType, width: Number=None, height: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None
     ) -> 'PDFText':
         """Method to create a paragraph.
@@ -649,7 +649,7 @@ class PDF:
     def _text(
         self, content: Union[TextType, 'PDFText'], width: Number=None,
         height: Number=None, x: Number=None, y: Number=None,
-        text_align: str=None, line_height: Number=1.1, indent: Number=0,
+        text_align: str=None, line_height: Number=None, indent: Number=None,
         list_text: str=None, list_indent: Number=None, list_style: dict=None,
         move: str='bottom'
     ) -> 'PDFText':
@@ -681,8 +681,8 @@ class PDF:
         return pdf_text
 
     def text(
-        self, content: TextType, text_align: str=None, line_height: Number=1.1,
-        indent: Number=0, list_text: str=None, list_indent: Number=None,
+        self, content: TextType, text_align: str=None, line_height: Number=None,
+        indent: Number=None, list_text: str=None, list_indent: Number=None,
         list_style: dict=None
     ) -> None:
         """Method to create and add a paragraph to this document. This method
-- 
2.43.0


From aeedc499b3f3751454614acda26c1f4a2c9f9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:54 +0000
Subject: [PATCH 61/63] fix: paint colors of four numbers, without their alpha

---
 pdfme/color.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/color.py b/pdfme/color.py
index 4809c0c..175a6a2 100644
--- a/pdfme/color.py
+++ b/pdfme/color.py
@@ -192,7 +192,7 @@ class PDFColor:
             return '{} {}'.format(
                 round(self.color[0], 3), 'G' if self.stroke else 'g'
             )
-        if len(self.color) == 3:
+        if len(self.color) in (3, 4):
             return '{} {} {} {}'.format(
                 *[round(color, 3) for color in self.color[0:3]],
                 'RG' if self.stroke else 'rg'
-- 
2.43.0


From 980bc2eb5e89677c75f1473013292dda2c1da597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:20 +0000
Subject: [PATCH 62/63] fix: leave the cursor at the bottom of a table or
 content box, not below the heights of all its parts

---
 pdfme/pdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfme/pdf.py b/pdfme/pdf.py
index 5013072..8dad436 100644
--- a/pdfme/pdf.py
+++ b/pdfme/pdf.py
@@ -909,6 +909,8 @@ class PDF:
         Args:
             parts (list, tuple): the iterable just explained.
         """
+        # adding a part moves the page coordinates
+        x, y = self.page.x, self.page.y
         for part in parts:
             part = part.copy()
             type_ = part.pop('type')
@@ -917,6 +919,7 @@ class PDF:
             elif type_ == 'image':
                 part['y'] = self.page.height - part['y'] - part['height']
                 self.add_image(**part)
+        self.page.x, self.page.y = x, y
 
     def _build_pages_tree(self, page_list:list, first_level:bool=True) -> None:
         """Method to build the PDF pages tree.
-- 
2.43.0


From f0416236c693944ac29323603e9a05008c65d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:38 +0000
Subject: [PATCH 63/63] fix: add numbers in contents and groups as paragraphs

---
 pdfme/content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfme/content.py b/pdfme/content.py
index 36e1092..51ef1e8 100644
--- a/pdfme/content.py
+++ b/pdfme/content.py
@@ -806,7 +806,7 @@ class PDFContentPart:
 
     def parse_element(self, element: ProcessElement) -> dict:
         if not isinstance(element, (dict, str, list, tuple)):
-            return str(element)
+            element = str(element)
         if isinstance(element, (str, list, tuple)):
             return {'.': element}
 
-- 
2.43.0

