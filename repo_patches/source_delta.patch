From e87bc64dfa017877c03310268e553f29c8e642a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 01/28] fix: comment of an element with a single empty comment
 line is None, not a KeyError

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..4464d2d 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From e4674f2ca7ff0aece617f5a83709f39737d09d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 02/28] fix: return the elements of the mirrored section in
 Context.elements

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 4464d2d..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From f58e96c65a704dd33390912c82541cf05afc8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 03/28] fix: report cyclic dependencies whose copy instruction
 is inside the feedback chain

---
 python/enolib/errors/parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..37ddfc7 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -13,8 +13,8 @@ class Parsing:
 
         if 'template' in feedback_chain[-1]:
             copy_instruction = feedback_chain[-1]
-        elif 'template' in feedback_chain[0]:
-            copy_instruction = feedback_chain[0]
+        else:
+            copy_instruction = next(element for element in feedback_chain if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From 2b7e290b1c87e30216270e1e7e39ee68e3620914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/28] fix: report sections containing empty elements or
 copied fieldsets

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..54fa4bf 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From 0214091475ec3daa9b50ffbc5686bbf06fe24d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 05/28] fix: style deep copy operators in the terminal reporter

---
 python/enolib/reporters/terminal_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..8fb2c43 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
-- 
2.43.0


From fc3db2610a11b1094f21f9348a6272fcfa93b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 06/28] fix: print unparsed error lines in the terminal
 reporter

---
 python/enolib/reporters/terminal_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 8fb2c43..262cbdb 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -71,7 +71,7 @@ class TerminalReporter(Reporter):
 
         content = ''
         if instruction:
-            if instruction['type'] is InstructionType.COMMENT or instruction['type'] is InstructionType.UNPARSED:
+            if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED):
                 content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
             else:
                 content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
-- 
2.43.0


From 805b52c1085b43d32dd883f644b2376f92197b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 07/28] fix: do not let sections, elements and copies span
 several lines

---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 9db4c876d4a957cc2bd433865dd8af1706f462d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 08/28] fix: report no line past the end of the document for an
 unterminated multiline field

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..af80976 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -344,7 +344,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From 766a6b26c842d6cdd12d0d9ef56e08f774bdc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 09/28] fix: return a missing proxy from Fieldset.entry when
 there is no such entry

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..ea820df 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From f6617ae7714065da7a5136e5c5151128f0e1aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:58 +0000
Subject: [PATCH 10/28] fix: report untouched entries in
 Fieldset.assert_all_touched

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index ea820df..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From 00e3b30b580fe04dcda466f0e912bea9d8a596f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 11/28] fix: convert ambiguous elements to fieldset entries and
 list items

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..0638d89 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._instruction['key']}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From 67189f41c11ceabb6362e829c0fa2d0b8968d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 12/28] fix: propagate all_elements_required to the sections
 and fieldsets obtained so far

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..3a091af 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From d32fe0e9e8de1bfe7106dd7f6aa0f1a02f41f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 13/28] fix: return the parent of sections, and none for the
 document

---
 python/enolib/elements/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 3a091af..94042c3 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 046d4131fc457b4a1de486d3b3ffc03df5c2fcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 14/28] fix: return the parent of elements obtained through a
 lookup

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
-- 
2.43.0


From 88d8cffd2c07d07759573cb23c11793fa692fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 15/28] fix: find comments in lookups by index

---
 python/enolib/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..1c1fd14 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -236,7 +236,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0


From 7645dfc3fd7895daf78b7de39a7166cf574545cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:08 +0000
Subject: [PATCH 16/28] fix: create comment errors for elements without
 comments

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 54fa4bf..ea2cd02 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -154,7 +154,7 @@ class Reporter:
 
     def report_comments(self, element):
         self._snippet[element['line']] = INDICATE
-        for comment in element['comments']:
+        for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 0929a9ab3d0c65317556c6810f7c6377ca93f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 17/28] fix: create key errors for list items

---
 python/enolib/errors/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..bda328d 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,9 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent']
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From 73047e1060ada55e0c1e8b973e5120a7c1b4c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 18/28] fix: list copied section elements before own elements,
 as in raw()

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 94042c3..bf5d8d4 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From 94df18ddbd1988c852254a39b390fbde0529f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 19/28] fix: show up to two context lines after the first line
 in snippets

---
 python/enolib/reporters/reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index ea2cd02..3c7d922 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -206,9 +206,9 @@ class Reporter:
                     continue
 
                 if(line + 2 < self._context.line_count and self._snippet[line + 2] is not None and self._snippet[line + 2] != DISPLAY or
-                   line - 2 > 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
+                   line - 2 >= 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
                    line + 1 < self._context.line_count and self._snippet[line + 1] is not None and self._snippet[line + 1] != DISPLAY or
-                   line - 1 > 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
+                   line - 1 >= 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
                     self._snippet[line] = DISPLAY
                 elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:
                     self._snippet[line] = OMISSION
-- 
2.43.0


From 18b24fe1ba41f0a707d813f04aa5ea80a110b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 20/28] fix: show pending comment lines in parse error snippets

---
 python/enolib/analyzer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index af80976..b943df9 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -18,9 +18,12 @@ class Analyzer:
 
         self._context.meta = []
 
-    def _tokenize_error_context(self):
+    def _tokenize_error_context(self, comments=None):
         first_instruction = None
 
+        if comments is not None:
+            self._context.meta.extend(comments)
+
         while True:
             end_of_line_index = self._context.input.find('\n', self._index)
 
@@ -67,7 +70,7 @@ class Analyzer:
             match = Grammar.REGEX.search(self._context.input, self._index)
 
             if not match or match.start() != self._index:
-                instruction = self._tokenize_error_context()
+                instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
             instruction = {
@@ -133,7 +136,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.LIST:
                     last_non_section_element['items'].append(instruction)
@@ -141,7 +144,7 @@ class Analyzer:
                     last_non_section_element['items'] = [instruction]
                     last_non_section_element['type'] = InstructionType.LIST
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -175,7 +178,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.FIELDSET:
                     last_non_section_element['entries'].append(instruction)
@@ -183,7 +186,7 @@ class Analyzer:
                     last_non_section_element['entries'] = [instruction]
                     last_non_section_element['type'] = InstructionType.FIELDSET
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -192,7 +195,7 @@ class Analyzer:
             elif match.group(Grammar.SPACED_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['spaced'] = True
@@ -220,7 +223,7 @@ class Analyzer:
             elif match.group(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['ranges']['direct_line_continuation_operator'] = match.span(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX)
@@ -268,7 +271,7 @@ class Analyzer:
 
                     instruction['parent'] = last_section['parent']
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)
 
                 instruction['parent']['elements'].append(instruction)
-- 
2.43.0


From 9d8fb8135163d0c2cbe43fe5e3062fbbe82a0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 21/28] fix: create errors for the document itself

---
 python/enolib/errors/selections.py  | 6 ++++++
 python/enolib/errors/validation.py  | 2 +-
 python/enolib/reporters/reporter.py | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index fef8b33..5a10157 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,6 +41,9 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     comments = element.get('comments', [])
 
     if len(comments) == 1:
@@ -54,6 +57,9 @@ def select_comments(element):
         return selection(element, 'line', BEGIN)
 
 def select_element(element):
+    if element['type'] is InstructionType.DOCUMENT:
+        return DOCUMENT_BEGIN
+
     return selection(element, 'line', BEGIN, last_in(element), 'line', END)
 
 def select_key(element):
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index bda328d..36ff53e 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -36,7 +36,7 @@ class Validation:
         return ValidationError(
             context.messages.missing_comment,
             context.reporter(context).report_line(element).snippet(), # TODO: Question-tag an empty line before an element with missing comment
-            selection(element, 'line', BEGIN)
+            DOCUMENT_BEGIN if element['type'] is InstructionType.DOCUMENT else selection(element, 'line', BEGIN)
         )
 
     @staticmethod
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 3c7d922..f40824a 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -153,6 +153,9 @@ class Reporter:
         return self
 
     def report_comments(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = INDICATE
         for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
@@ -160,6 +163,9 @@ class Reporter:
         return self
 
     def report_element(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = EMPHASIZE
         self._tag_element(element, INDICATE)
 
@@ -173,6 +179,9 @@ class Reporter:
         return self
 
     def report_line(self, instruction):
+        if instruction.get('type') is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[instruction['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 57bedf4877a2ac6ffe793b5c32027c6db459ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 22/28] fix: represent ambiguous elements without a key

---
 python/enolib/elements/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 0638d89..50ba2d0 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,7 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._instruction.get('key')}>"
 
     def to_fieldset_entry(self):
         if not hasattr(self, '_fieldset_entry'):
-- 
2.43.0


From 6287c0e082d0709b09577411f15e381035c9e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 23/28] fix: deep-merge sections with the elements their
 template copied itself

---
 python/enolib/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..9091360 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -63,7 +63,7 @@ class Resolver:
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-            for section_element in template['elements']:
+            for section_element in self._context.elements(template):
                 if section_element['key'] in merge_map:
                     merger = merge_map[section_element['key']]
 
-- 
2.43.0


From 774953a34111c6f8cdbb4cdcbdc870da3aa65aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 24/28] fix: keep the explicit template of a subsection in a
 deep merge

---
 python/enolib/resolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 9091360..19180eb 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -48,8 +48,6 @@ class Resolver:
         if len(section['elements']) == 0:
             self.mirror(section, template)
         else:
-            # TODO: Handle possibility in two templates (one hardcoded in the document, one implicitly derived through deep merging)
-            #       Possibly also elswhere (e.g. up there in the mirror branch?)
             section['extend'] = template
 
             if not deep_merge:
@@ -58,8 +56,10 @@ class Resolver:
             merge_map = {}
 
             for section_element in section['elements']:
-                if section_element['type'] is not InstructionType.SECTION or section_element['key'] in merge_map:
-                    merge_map[section_element['key']] = False # non-mergable (no section or multiple sections with same key)
+                if (section_element['type'] is not InstructionType.SECTION or
+                    'template' in section_element or
+                    section_element['key'] in merge_map):
+                    merge_map[section_element['key']] = False # non-mergable (no section, section with its own template or multiple sections with same key)
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-- 
2.43.0


From 504e715d91f4e054986c8457073ae1e2234e4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 25/28] fix: reject a deep merge of a section into its own copy

---
 python/enolib/resolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 19180eb..6fad419 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -77,6 +77,10 @@ class Resolver:
 
             for merger in merge_map.values():
                 if merger and 'template' in merger:
+                    # the template subsection can only be a copy of this very section, which would depend on itself
+                    if merger['template'].get('template') == merger['template']['key']:
+                        raise Parsing.cyclic_dependency(self._context, merger['section'], [merger['section'], merger['template']])
+
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
     def mirror(self, element, template):
-- 
2.43.0


From af660b6ee1b016f6a0df2d23ce2d83ebbddf7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 26/28] fix: report missing templates of templates

---
 python/enolib/resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 6fad419..11e21e9 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -155,6 +155,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.non_section_element_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_non_section_elements.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_non_section_element(target)
@@ -166,6 +167,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.section_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_sections.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_section(target)
-- 
2.43.0


From a24336ade2576f951ea61573c1041debf80b5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 27/28] fix: look up continuations of the last list item or
 fieldset entry

---
 python/enolib/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 1c1fd14..895808e 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +92,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +113,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -134,7 +134,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
-- 
2.43.0


From 3a0c0becbc2c3db7a0c9ab26d670ec215b54870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 28/28] fix: look up tokens in the comments of elements

---
 python/enolib/lookup.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 895808e..e5b174b 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -212,6 +212,15 @@ def check_in_section_by_index(section, index):
 
     return { 'element': section, 'instruction': None }
 
+def comments_in_section(section):
+    for element in section['elements']:
+        yield from element.get('comments', [])
+
+        for child in element.get('items', []) + element.get('entries', []):
+            yield from child.get('comments', [])
+
+        if element['type'] is InstructionType.SECTION:
+            yield from comments_in_section(element)
 
 def lookup(input: str, *, column=None, index=None, line=None, **options):
     context = Context(input, **options)
@@ -236,10 +245,12 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
+        candidates = [*context.meta, *comments_in_section(context.document)]
+
         if index is None:
-            instruction = next((i for i in context.meta if i['line'] == line), None)
+            instruction = next((i for i in candidates if i['line'] == line), None)
         else:
-            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
+            instruction = next((i for i in candidates if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0

