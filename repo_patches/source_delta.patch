From 87b0135beac1afa45581b05a86a8bc30429f0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 01/25] fix: keep operators of one element on one line

The whitespace around the section, copy, element and entry operators also
matched newlines, so that '#\nkey', 'key\n: value' or 'key <\n\ntemplate'
were parsed as one instruction spanning lines. This assigned wrong content,
shifted every following line number and broke lookups by line.
---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 5ceb1b77bc641f9641c698a3deb9b86a605968a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 02/25] fix: report a missing template reached through another
 copy

When a copied element or section itself copied something that does not
exist, resolving it raised KeyError instead of a ParseError.
---
 python/enolib/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..3bb9169 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -89,6 +89,9 @@ class Resolver:
         if element in previous_elements:
             raise Parsing.cyclic_dependency(self._context, element, previous_elements)
 
+        if not 'template' in element['copy']:
+            raise Parsing.non_section_element_not_found(self._context, element['copy']['targets'][0])
+
         template = element['copy']['template']
 
         if 'copy' in template: # TODO: Maybe we change that to .unresolved everywhere ?
@@ -110,6 +113,9 @@ class Resolver:
             del section['deep_resolve']
 
         if 'copy' in section:
+            if not 'template' in section['copy']:
+                raise Parsing.section_not_found(self._context, section['copy']['targets'][0])
+
             template = section['copy']['template']
 
             if 'copy'in template or 'deep_resolve' in template:
-- 
2.43.0


From ce9c13250ffad1a75e88ee6734398cf54416fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 03/25] fix: report cyclic dependencies that close through
 nested sections

When neither end of the feedback chain is itself a copy, the error
constructor failed with UnboundLocalError instead of raising the
ParseError.
---
 python/enolib/errors/parsing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..2399fe3 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -15,6 +15,8 @@ class Parsing:
             copy_instruction = feedback_chain[-1]
         elif 'template' in feedback_chain[0]:
             copy_instruction = feedback_chain[0]
+        else:
+            copy_instruction = next(element for element in feedback_chain if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From ed0363987f1edea7b91d7e11aaa1f487ffc907e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 04/25] fix: let the terminal reporter print unparsed lines and
 deep copies

The first line that could not be parsed carries no type, and the style of
the deep copy operator was registered under another name; both made the
reporter fail with KeyError instead of producing the snippet.
---
 python/enolib/reporters/terminal_reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..262cbdb 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
@@ -71,7 +71,7 @@ class TerminalReporter(Reporter):
 
         content = ''
         if instruction:
-            if instruction['type'] is InstructionType.COMMENT or instruction['type'] is InstructionType.UNPARSED:
+            if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED):
                 content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
             else:
                 content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
-- 
2.43.0


From d54a70078bfa3feb98fbfab2dd68bfa7f51d343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 05/25] fix: accept a single empty comment line above an
 element

Reading the comment (or the raw representation) of such an element raised
KeyError; several empty comment lines already yielded None.
---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..4464d2d 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From 823f394e700e6f73ea718c5abfc62b6032f435ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 06/25] fix: return the elements of a copied section in
 Context.elements

The result of the mirrored section was dropped, so raw() failed with
TypeError on every section copied without own elements and on every
document containing one.
---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 4464d2d..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From 0a3ad57fc051b8948a0441efd8a8ef81ad476d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 07/25] fix: allow comment errors on elements without a comment

comment_error() raised KeyError when the element had no comment, although
the selection code already provides for that case.
---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..689b5ce 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -152,7 +152,7 @@ class Reporter:
 
     def report_comments(self, element):
         self._snippet[element['line']] = INDICATE
-        for comment in element['comments']:
+        for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From c33b4007fa43fffce38a0741d5793f1f330cff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 08/25] fix: tag empty elements inside reported sections

_tag_element returned None for elements without contents, so reporting a
section that holds one of them before something else raised TypeError.
---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 689b5ce..ea2cd02 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From 599b8b3ca6653cd880b615abb67f4c52e4459956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:31 +0000
Subject: [PATCH 09/25] fix: point key errors of list items at the key of their
 list

A list item reports the key of its list as its own, but raising an error
for that key looked for it on the item and failed with KeyError.
---
 python/enolib/errors/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..bda328d 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,9 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent']
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From a97b6de78aecb8893bde90525eb76cd64727b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 10/25] fix: let all_elements_required work with contents not
 taken yet

Sections and fieldsets that were not taken yet made the call fail with
AttributeError, and empty elements taken as fieldsets were left out.
Elements taken later inherit the setting from their parent.
---
 python/enolib/elements/section.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..aa474ef 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,10 +265,10 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
-                element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
-                element.to_fieldset().all_entries_required(required)
+            if hasattr(element, '_section'):
+                element._section.all_elements_required(required)
+            elif hasattr(element, '_fieldset'):
+                element._fieldset.all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
         elements_map = self._elements(True)
-- 
2.43.0


From 390793703f9b16cf7fd92abdb6e3d143f754d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 11/25] fix: raise the ValidationError for untouched fieldset
 entries

Fieldset.assert_all_touched accessed the entry handle like an instruction
and failed with TypeError whenever it should have reported something.
---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..63b4d25 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From 24b6605f3c8b1ef4465fd58b768c0f895508804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 12/25] fix: return a missing entry proxy from Fieldset.entry

entry() of an absent key returned None instead of a MissingFieldsetEntry,
unlike its counterparts on Section, and the hook that the proxy uses to
raise its error was misnamed.
---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 63b4d25..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From f8b3e7ca0630437d652d8b37dc32d1fd134c1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 13/25] fix: publish a computed value only when it is complete

The value was assembled in place, so that another thread reading the same
element saw None or a part of the value, and an interruption (for instance
KeyboardInterrupt) left the partial value behind for every later read.
---
 python/enolib/context.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 7d37c68..407c080 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -164,32 +164,34 @@ class Context:
             if 'mirror' in element:
                 return self.value(element['mirror'])
 
-            element['computed_value'] = None
+            value = None
 
             if element['type'] is InstructionType.MULTILINE_FIELD_BEGIN:
                 if 'lines' in element:
-                    element['computed_value'] = self.input[
+                    value = self.input[
                         element['lines'][0]['ranges']['line'][0]:element['lines'][-1]['ranges']['line'][1]
                     ]
             else:
                 if 'value' in element:
-                    element['computed_value'] = element['value']
+                    value = element['value']
 
                 if 'continuations' in element:
                     unapplied_spacing = None
 
                     for continuation in element['continuations']:
-                        if element['computed_value'] is None:
+                        if value is None:
                             if 'value' in continuation:
-                                element['computed_value'] = continuation['value']
+                                value = continuation['value']
 
                             unapplied_spacing = None
                         elif not 'value' in continuation:
                             unapplied_spacing = unapplied_spacing or 'spaced' in continuation
                         elif 'spaced' in continuation or unapplied_spacing:
-                            element['computed_value'] += ' ' + continuation['value']
+                            value += ' ' + continuation['value']
                             unapplied_spacing = None
                         else:
-                            element['computed_value'] += continuation['value']
+                            value += continuation['value']
+
+            element['computed_value'] = value
 
         return element['computed_value']
-- 
2.43.0


From 1c902104797235c49a3a9bdfdba153c4bdfd1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 14/25] fix: publish the combined contents of copies only when
 complete

Context.elements and Context.entries cached their result before the
contents inherited from the template were added, so that a concurrent
reader, or any reader after an interruption, missed them for good.
---
 python/enolib/context.py | 50 ++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 407c080..eb91f78 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -62,25 +62,28 @@ class Context:
             return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
-                section['computed_elements_map'] = {}
-                section['computed_elements'] = section['elements']
+                elements_map = {}
+                elements = section['elements']
 
-                for element in section['computed_elements']:
-                    if element['key'] in section['computed_elements_map']:
-                        section['computed_elements_map'][element['key']].append(element)
+                for element in elements:
+                    if element['key'] in elements_map:
+                        elements_map[element['key']].append(element)
                     else:
-                        section['computed_elements_map'][element['key']] = [element]
+                        elements_map[element['key']] = [element]
 
                 if 'extend' in section:
-                    copied_elements = [element for element in self.elements(section['extend']) if element['key'] not in section['computed_elements_map']]
+                    copied_elements = [element for element in self.elements(section['extend']) if element['key'] not in elements_map]
 
-                    section['computed_elements'] = copied_elements + section['computed_elements']
+                    elements = copied_elements + elements
 
                     for element in copied_elements:
-                        if element['key'] in section['computed_elements_map']:
-                            section['computed_elements_map'][element['key']].append(element)
+                        if element['key'] in elements_map:
+                            elements_map[element['key']].append(element)
                         else:
-                            section['computed_elements_map'][element['key']] = [element]
+                            elements_map[element['key']] = [element]
+
+                section['computed_elements_map'] = elements_map
+                section['computed_elements'] = elements
 
             return section['computed_elements']
 
@@ -89,25 +92,28 @@ class Context:
             return self.entries(fieldset['mirror'])
 
         if not 'computed_entries' in fieldset:
-            fieldset['computed_entries_map'] = {}
-            fieldset['computed_entries'] = fieldset['entries']
+            entries_map = {}
+            entries = fieldset['entries']
 
-            for entry in fieldset['computed_entries']:
-                if entry['key'] in fieldset['computed_entries_map']:
-                    fieldset['computed_entries_map'][entry['key']].append(entry)
+            for entry in entries:
+                if entry['key'] in entries_map:
+                    entries_map[entry['key']].append(entry)
                 else:
-                    fieldset['computed_entries_map'][entry['key']] = [entry]
+                    entries_map[entry['key']] = [entry]
 
             if 'extend' in fieldset:
-                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map']]
+                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in entries_map]
 
-                fieldset['computed_entries'] = copied_entries + fieldset['computed_entries']
+                entries = copied_entries + entries
 
                 for entry in copied_entries:
-                    if entry['key'] in fieldset['computed_entries_map']:
-                        fieldset['computed_entries_map'][entry['key']].append(entry)
+                    if entry['key'] in entries_map:
+                        entries_map[entry['key']].append(entry)
                     else:
-                        fieldset['computed_entries_map'][entry['key']] = [entry]
+                        entries_map[entry['key']] = [entry]
+
+            fieldset['computed_entries_map'] = entries_map
+            fieldset['computed_entries'] = entries
 
         return fieldset['computed_entries']
 
-- 
2.43.0


From 97488624a8d044bb9c7d379ebcbaebe32f586870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 15/25] fix: publish element and entry handles only when all
 exist

Sections and fieldsets cached their list of handles before filling it. A
concurrent reader, or any reader after an interruption, saw contents as
missing that are in the document.
---
 python/enolib/elements/fieldset.py | 23 ++++++++++++-----------
 python/enolib/elements/section.py  | 23 ++++++++++++-----------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 2d8b37e..9a0b608 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -16,9 +16,10 @@ class Fieldset(ElementBase):
 
     def _entries(self, map=False):
         if not hasattr(self, '_instantiated_entries'):
-            self._instantiated_entries = []
-            self._instantiated_entries_map = {}
-            self._instantiate_entries(self._instruction)
+            entries, entries_map = [], {}
+            self._instantiate_entries(self._instruction, entries, entries_map)
+            self._instantiated_entries_map = entries_map
+            self._instantiated_entries = entries
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
@@ -49,27 +50,27 @@ class Fieldset(ElementBase):
 
         return entries[0]
 
-    def _instantiate_entries(self, fieldset):
+    def _instantiate_entries(self, fieldset, entries, entries_map):
         if 'mirror' in fieldset:
-            self._instantiate_entries(fieldset['mirror'])
+            self._instantiate_entries(fieldset['mirror'], entries, entries_map)
         elif 'entries' in fieldset:
             def instantiate_and_index(entry):
                 instance = fieldset_entry.FieldsetEntry(self._context, entry, self)
 
-                if entry['key'] in self._instantiated_entries_map:
-                    self._instantiated_entries_map[entry['key']].append(instance)
+                if entry['key'] in entries_map:
+                    entries_map[entry['key']].append(instance)
                 else:
-                    self._instantiated_entries_map[entry['key']] = [instance]
+                    entries_map[entry['key']] = [instance]
 
                 return instance
 
-            filtered = [entry for entry in fieldset['entries'] if entry['key'] not in self._instantiated_entries_map]
+            filtered = [entry for entry in fieldset['entries'] if entry['key'] not in entries_map]
             native_entries = [instantiate_and_index(entry) for entry in filtered]
 
             if 'extend' in fieldset:
-                self._instantiate_entries(fieldset['extend'])
+                self._instantiate_entries(fieldset['extend'], entries, entries_map)
 
-            self._instantiated_entries.extend(native_entries)
+            entries.extend(native_entries)
 
     def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index aa474ef..4546e06 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -50,9 +50,10 @@ class Section(ElementBase):
 
     def _elements(self, map=False):
         if not hasattr(self, '_instantiated_elements'):
-            self._instantiated_elements = []
-            self._instantiated_elements_map = {}
-            self._instantiate_elements(self._instruction)
+            elements, elements_map = [], {}
+            self._instantiate_elements(self._instruction, elements, elements_map)
+            self._instantiated_elements_map = elements_map
+            self._instantiated_elements = elements
 
         return self._instantiated_elements_map if map else self._instantiated_elements
 
@@ -154,25 +155,25 @@ class Section(ElementBase):
 
         return element.to_fieldset()
 
-    def _instantiate_elements(self, section):
+    def _instantiate_elements(self, section, elements, elements_map):
         if 'mirror' in section:
-            self._instantiate_elements(section['mirror'])
+            self._instantiate_elements(section['mirror'], elements, elements_map)
         else:
             def instantiate_and_index(element):
                 instance = section_element.SectionElement(self._context, element, self)
 
-                if element['key'] in self._instantiated_elements_map:
-                    self._instantiated_elements_map[element['key']].append(instance)
+                if element['key'] in elements_map:
+                    elements_map[element['key']].append(instance)
                 else:
-                    self._instantiated_elements_map[element['key']] = [instance]
+                    elements_map[element['key']] = [instance]
 
                 return instance
 
-            filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            filtered = [element for element in section['elements'] if element['key'] not in elements_map]
+            elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
 
             if 'extend' in section:
-                self._instantiate_elements(section['extend'])
+                self._instantiate_elements(section['extend'], elements, elements_map)
 
     def _list(self, key, *, required=None):
         self._touched = True
-- 
2.43.0


From 2656d827e6dae0f342cf127d4780b370f77d05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:25 +0000
Subject: [PATCH 16/25] fix: publish a typed handle and the type it commits to
 in one step

The two were set one after the other. A second reader arriving in between
got a TypeError for asking for the very same type, and an interruption in
between lost the commitment of the element to its type.
---
 python/enolib/elements/section_element.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/python/enolib/elements/section_element.py b/python/enolib/elements/section_element.py
index f9c25e9..6ae04f1 100644
--- a/python/enolib/elements/section_element.py
+++ b/python/enolib/elements/section_element.py
@@ -33,20 +33,19 @@ class SectionElement(ElementBase):
 
     def to_empty(self):
         if not hasattr(self, '_empty'):
-            if hasattr(self, '_yielded'):
+            if getattr(self, '_yielded', InstructionType.EMPTY_ELEMENT) is not InstructionType.EMPTY_ELEMENT:
                 raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as an empty.")
 
             if self._instruction['type'] is not InstructionType.EMPTY_ELEMENT:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_empty')
 
-            self._empty = empty.Empty(self._context, self._instruction, self._parent)
-            self._yielded = InstructionType.EMPTY_ELEMENT
+            vars(self).update(_empty=empty.Empty(self._context, self._instruction, self._parent), _yielded=InstructionType.EMPTY_ELEMENT)
 
         return self._empty
 
     def to_field(self):
         if not hasattr(self, '_field'):
-            if hasattr(self, '_yielded'):
+            if getattr(self, '_yielded', InstructionType.FIELD) is not InstructionType.FIELD:
                 raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a field.")
 
             if (self._instruction['type'] is not InstructionType.FIELD and
@@ -54,34 +53,31 @@ class SectionElement(ElementBase):
                 self._instruction['type'] is not InstructionType.EMPTY_ELEMENT):
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_field')
 
-            self._field = field.Field(self._context, self._instruction, self._parent)
-            self._yielded = InstructionType.FIELD
+            vars(self).update(_field=field.Field(self._context, self._instruction, self._parent), _yielded=InstructionType.FIELD)
 
         return self._field
 
     def to_fieldset(self):
         if not hasattr(self, '_fieldset'):
-            if hasattr(self, '_yielded'):
+            if getattr(self, '_yielded', InstructionType.FIELDSET) is not InstructionType.FIELDSET:
                 raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a fieldset.")
 
             if self._instruction['type'] is not InstructionType.FIELDSET and self._instruction['type'] is not InstructionType.EMPTY_ELEMENT:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset')
 
-            self._fieldset = fieldset.Fieldset(self._context, self._instruction, self._parent)
-            self._yielded = InstructionType.FIELDSET
+            vars(self).update(_fieldset=fieldset.Fieldset(self._context, self._instruction, self._parent), _yielded=InstructionType.FIELDSET)
 
         return self._fieldset
 
     def to_list(self):
         if not hasattr(self, '_list'):
-            if hasattr(self, '_yielded'):
+            if getattr(self, '_yielded', InstructionType.LIST) is not InstructionType.LIST:
                 raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a list.")
 
             if self._instruction['type'] is not InstructionType.LIST and self._instruction['type'] is not InstructionType.EMPTY_ELEMENT:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list')
 
-            self._list = list.List(self._context, self._instruction, self._parent)
-            self._yielded =  InstructionType.LIST
+            vars(self).update(_list=list.List(self._context, self._instruction, self._parent), _yielded=InstructionType.LIST)
 
         return self._list
 
@@ -90,8 +86,7 @@ class SectionElement(ElementBase):
             if self._instruction['type'] is not InstructionType.SECTION:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_section')
 
-            self._section = section.Section(self._context, self._instruction, self._parent)
-            self._yielded = InstructionType.SECTION
+            vars(self).update(_section=section.Section(self._context, self._instruction, self._parent), _yielded=InstructionType.SECTION)
 
         return self._section
 
-- 
2.43.0


From 21be543ccc30a0426e6de2385d0b3742df5d7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:17 +0000
Subject: [PATCH 17/25] fix: show comments above a line that can not be parsed

Comments pending when parsing stops belonged to no instruction the reporter
knows, so that the snippet printed their lines as if they were blank.
---
 python/enolib/analyzer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..1aff7f9 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -18,7 +18,10 @@ class Analyzer:
 
         self._context.meta = []
 
-    def _tokenize_error_context(self):
+    def _tokenize_error_context(self, comments=None):
+        if comments is not None:
+            self._context.meta.extend(comments)
+
         first_instruction = None
 
         while True:
@@ -67,7 +70,7 @@ class Analyzer:
             match = Grammar.REGEX.search(self._context.input, self._index)
 
             if not match or match.start() != self._index:
-                instruction = self._tokenize_error_context()
+                instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
             instruction = {
@@ -133,7 +136,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.LIST:
                     last_non_section_element['items'].append(instruction)
@@ -141,7 +144,7 @@ class Analyzer:
                     last_non_section_element['items'] = [instruction]
                     last_non_section_element['type'] = InstructionType.LIST
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -175,7 +178,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.FIELDSET:
                     last_non_section_element['entries'].append(instruction)
@@ -183,7 +186,7 @@ class Analyzer:
                     last_non_section_element['entries'] = [instruction]
                     last_non_section_element['type'] = InstructionType.FIELDSET
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -192,7 +195,7 @@ class Analyzer:
             elif match.group(Grammar.SPACED_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['spaced'] = True
@@ -220,7 +223,7 @@ class Analyzer:
             elif match.group(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['ranges']['direct_line_continuation_operator'] = match.span(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX)
@@ -268,7 +271,7 @@ class Analyzer:
 
                     instruction['parent'] = last_section['parent']
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)
 
                 instruction['parent']['elements'].append(instruction)
-- 
2.43.0


From a968fffbc72e8ebc74154031b658fab0cb751a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:19 +0000
Subject: [PATCH 18/25] fix: look up continuations of the last list item or
 fieldset entry

Every position after the first line of the last item or entry was
attributed to the surrounding section.
---
 python/enolib/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..c97d12f 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +92,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +113,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -134,7 +134,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
-- 
2.43.0


From d414aa557a3cade7b183c3becf30bdbfd7b2df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 19/25] fix: find free-standing comments when looking up by
 index

The line compared against is only known when looking up by line.
---
 python/enolib/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index c97d12f..895808e 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -236,7 +236,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0


From 9885cfd952abc1aca73f3e2571fb4ad3c88b09e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 20/25] fix: let looked up elements be taken as fieldset
 entries and list items

The handles were tested for without ever being initialised, and printing a
looked up list item or document failed with KeyError.
---
 python/enolib/elements/element.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..50ba2d0 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,10 +8,10 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._instruction.get('key')}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From 821766b933ccd6d68c4ec27e59d274f8dc4c41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 21/25] fix: return the parent of sections and of looked up
 elements

Section.parent() had its condition inverted, and elements without a known
parent handle accessed their instruction like an object.
---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 python/enolib/elements/section.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 4546e06..32b6bde 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -383,7 +383,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 25c102ebf0cbdbbe046bb79cdb949378c47b0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 22/25] fix: match the current line only instead of searching
 the rest of the document

---
 python/enolib/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1aff7f9..14ccbe8 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -67,7 +67,7 @@ class Analyzer:
         last_section = self._context.document
 
         while self._index < len(self._context.input):
-            match = Grammar.REGEX.search(self._context.input, self._index)
+            match = Grammar.REGEX.match(self._context.input, self._index)
 
             if not match or match.start() != self._index:
                 instruction = self._tokenize_error_context(comments)
-- 
2.43.0


From c4ab76952555688e10c062392b39b290e1bccdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:16 +0000
Subject: [PATCH 23/25] fix: take the whitespace around section operators only
 one way (cubic time on long runs of spaces)

---
 python/enolib/grammar_regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 20a4420..37f15b3 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -56,8 +56,8 @@ class Grammar:
     # # key < template
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
-    SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION_TEMPLATE = rf"(?:[^\S\n]*(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
-- 
2.43.0


From eaa1b79aa8ae1aa7d251029d536bba652599c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:26 +0000
Subject: [PATCH 24/25] fix: report no line beyond the end of a document that
 ends in an unterminated multiline field

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 14ccbe8..39c69a9 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -347,7 +347,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From 9ea139b76320e4ec0301aa456f47f4911d1f45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:03 +0000
Subject: [PATCH 25/25] fix: do not hand out one shared selection with all
 missing document element errors

Every ValidationError about an element missing directly in a document carried the same module level
dictionaries as cursor and selection, so a caller changing them (e.g. to convert to one-based lines)
changed every other such error in the process.
---
 python/enolib/errors/selections.py | 9 +++++----
 python/enolib/errors/validation.py | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index fef8b33..7c3e5b5 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -1,9 +1,10 @@
 from ..constants import BEGIN, END, InstructionType
 
-DOCUMENT_BEGIN = {
-    'from': { 'column': 0, 'index': 0, 'line': 0 },
-    'to': { 'column': 0, 'index': 0, 'line': 0 }
-}
+def document_begin():
+    return {
+        'from': { 'column': 0, 'index': 0, 'line': 0 },
+        'to': { 'column': 0, 'index': 0, 'line': 0 }
+    }
 
 def last_in(element):
     if ((element['type'] == InstructionType.FIELD or
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index bda328d..0f698aa 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -1,5 +1,5 @@
 from ..error_types import ValidationError
-from .selections import cursor, DOCUMENT_BEGIN, select_comments, select_element, select_key, selection
+from .selections import cursor, document_begin, select_comments, select_element, select_key, selection
 from ..constants import BEGIN, END, InstructionType
 
 
@@ -46,7 +46,7 @@ class Validation:
         return ValidationError(
             message if key is None else message(key),
             context.reporter(context).report_missing_element(parent).snippet(),
-            DOCUMENT_BEGIN if parent['type'] is InstructionType.DOCUMENT else selection(parent, 'line', END)
+            document_begin() if parent['type'] is InstructionType.DOCUMENT else selection(parent, 'line', END)
         )
 
     @staticmethod
-- 
2.43.0

