From e8b6adcb908dc1058c752e7eed4dbbfd2d71728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 01/61] fix: keep the contents of verbatim and code tags
 literal when they are nested

parse_tags descended into the contents of tags that were created with
process_content set to False, so that @code{@b{x}} in a paragraph or in
another tag was parsed for tags.
---
 src/disseminate/tags/receivers/content.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..fc699ae 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -68,6 +68,9 @@ def parse_tags(content, context, tag_factory, level=1):
     elif isinstance(content, list):
         return list(map(parse, content))
     elif hasattr(content, 'content'):
+        # Do not process the (literal) contents of tags like verb and code
+        if not getattr(content, 'process_content', True):
+            return content
         if isinstance(content.content, list):
             content.content = list(map(parse, content.content))
         else:
-- 
2.43.0


From 630c8b3c79f05d4ad6173e9d0e0024ed78e328db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 02/61] fix: render references in the txt target

Ref.default_fmt accessed a missing attribute of labels (kinds) and passed the
label id twice to format_string, so that rendering any document with a
reference to the txt target raised an exception.
---
 src/disseminate/tags/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..46680ca 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,8 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label.id, *keys)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From 2b64c353eb870d255679b30055831effd6218504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 03/61] fix: render the title of headings without a label in
 tex

Heading.tex_fmt only used the contents of the label tag, so that the title of
a heading with the nolabel attribute was lost in tex and pdf targets.
---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..ee1e237 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From 148ae5588df9cbe8394badaea5e23bc5afa21558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 04/61] fix: render references to documents that lack the
 target

Ref.url expected None for the target filepath of a document without the
target, but TargetNotFound is raised. A tex document with a reference to
another document could not be rendered without a pdf target.
---
 src/disseminate/tags/ref.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 46680ca..00890d0 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -4,6 +4,7 @@ The Ref tag to reference captions and other labels.
 from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
+from ..document.exceptions import TargetNotFound
 from ..label_manager.types import DocumentLabel
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
@@ -184,13 +185,13 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
-
-        if target_filepath is None:
+        try:
+            target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
+        except TargetNotFound:
+            # One of the documents isn't rendered for this target
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
@@ -362,8 +363,10 @@ class Ref(Tag):
             # for a DocumentLabel. DocumentLabels should just point to the
             # file itself.
             include_anchor = not isinstance(label, DocumentLabel)
-            attrs['href'] = self.url(target=method, cache=cache,
-                                     include_anchor=include_anchor)
+            url = self.url(target=method, cache=cache,
+                           include_anchor=include_anchor)
+            if url is not None:
+                attrs['href'] = url
 
             # wrap content in 'a' tag
             return xhtml_tag('a', attributes=attrs, formatted_content=content,
-- 
2.43.0


From d4da62a2012c30133cf6901f5d44f347ba0661d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 05/61] fix: set navigation links for every target and render
 them in all formats

set_navigation_labels only processed the targets of the last document in the
tree, the tex format of the next and prev tags produced html, their xhtml
format was not implemented and links to other targets could not be used in
the body of a document.
---
 src/disseminate/tags/navigation.py | 47 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..8939a52 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,11 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
-
+    for target, doc_ids in doc_ids_by_target.items():
         for document in documents:
             doc_id = document.doc_id
 
@@ -113,26 +109,25 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-    def html_fmt(self, cache=None, **kwargs):
+    def html_fmt(self, cache=None, method='html', **kwargs):
         context = self.context
         cache = dict() if cache is None else cache
+        key = '_'.join(('next', method))  # ex: 'next_html' or 'next_xhtml'
 
-        if 'label' not in cache and 'next_html' in context:
-            label = context['next_html']
+        if 'label' not in cache and key in context:
+            label = context[key]
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).html_fmt(cache=cache, method=method,
+                                              **kwargs)
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
-
 
 class Prev(Ref):
     """Produces links to the previous document.
@@ -169,26 +164,25 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-    def html_fmt(self, cache=None, **kwargs):
+    def html_fmt(self, cache=None, method='html', **kwargs):
         context = self.context
         cache = dict() if cache is None else cache
+        key = '_'.join(('prev', method))  # ex: 'prev_html' or 'prev_xhtml'
 
-        if 'label' not in cache and 'prev_html' in context:
-            label = context['prev_html']
+        if 'label' not in cache and key in context:
+            label = context[key]
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).html_fmt(cache=cache, method=method,
+                                              **kwargs)
         else:
             return ""
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
-
 
 class OtherLink(Tag):
     """Produces a link to a source document or another target for this
@@ -241,8 +235,7 @@ class OtherLink(Tag):
             return ''
 
         # Generate the relative path
-        rp = relpath(other_filepath, this_filepath.parent)
-        return escape(rp)
+        return relpath(other_filepath, this_filepath.parent)
 
     def default_fmt(self, **kwargs):
         return ""
@@ -250,11 +243,11 @@ class OtherLink(Tag):
     def tex_fmt(self, **kwargs):
         return self.other_relpath(this_target='.tex')
 
-    def html_fmt(self, **kwargs):
-        return self.other_relpath(this_target='.html')
+    def html_fmt(self, method='html', level=1, **kwargs):
+        rp = self.other_relpath(this_target='.' + method)
 
-    def xhtml_fmt(self, **kwargs):
-        raise NotImplementedError
+        # The text of nested tags is escaped by the parent tag's element
+        return escape(rp) if level == 1 else rp
 
 
 class Srclink(OtherLink):
-- 
2.43.0


From d25b5ef9c18ff99a1e566663710db2d51f01972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 06/61] fix: spaces of blank lines before a list bullet were
 counted in its level

---
 src/disseminate/tags/list.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..4c9066b 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -18,6 +18,14 @@ re_list = regex.compile(r'^\s*[\*\-]', regex.MULTILINE)
 re_multiline_items = regex.compile(r'\s*\n+\s+')
 
 
+def count_indent(match):
+    """The number of spaces before the bullet of a re_list match.
+
+    The match may include preceding blank lines, whose spaces do not count.
+    """
+    return match.group().splitlines()[-1].count(' ')
+
+
 def parse_string_list(s):
     r"""Parse a string with lists.
 
@@ -49,7 +57,7 @@ def parse_string_list(s):
             current_pos = match.end()
 
             # Find the level. The number of spaces determines the level
-            list_level = match.group().count(' ')
+            list_level = count_indent(match)
             continue
 
         # Retrieve the string up to this point. Remove leading spaces.
@@ -62,7 +70,7 @@ def parse_string_list(s):
         # Set the current position and current match for the next iteration
         current_match = match
         current_pos = match.end()
-        list_level = match.group().count(' ')
+        list_level = count_indent(match)
 
     # Add the remaining match to the returned list
     if current_match is not None:
-- 
2.43.0


From 83f08b72f087d958e8e10dca3f12fad207c2302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 07/61] fix: csv data with blank lines, duplicate headers or a
 single row lost data; tsv used commas

---
 src/disseminate/tags/data.py | 52 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..f70c1c5 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -58,6 +58,8 @@ class Data(Tag):
     processed_headers = None
     processed_rows = None
 
+    _headers = None
+
     def __init__(self, name, content, attributes, context):
         super().__init__(name=name, content=content, attributes=attributes,
                          context=context)
@@ -102,7 +104,8 @@ class Data(Tag):
     @property
     def headers(self):
         """The tuple of the data headers"""
-        return tuple(self.data.keys())
+        return (self._headers if self._headers is not None else
+                tuple(self.data.keys()))
 
     @property
     def rows(self):
@@ -122,12 +125,10 @@ class Data(Tag):
 
     @property
     def num_rows(self):
-        """The number of columns in the data"""
+        """The number of rows in the data"""
         if self.data is None:
             return None
-        first_key = self.data.keys()[0]
-        first_row = self.data[first_key]
-        return len(first_row)
+        return len(next(iter(self.data.values()), ()))
 
 
 class DelimData(Data):
@@ -138,7 +139,9 @@ class DelimData(Data):
     delimiter = None
     skipinitialspace = True
 
-    def __init__(self, delimiter=',', *args, **kwargs):
+    def __init__(self, delimiter=None, *args, **kwargs):
+        if delimiter is None:
+            delimiter = '\t' if kwargs.get('name') == 'tsv' else ','
         self.delimiter = delimiter
         super().__init__(*args, **kwargs)
 
@@ -150,30 +153,37 @@ class DelimData(Data):
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
             # Parse the csv data.
-            # first_row is an len(cols) list
             # rows is a len(rows) list of len(cols) lists
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
-            first_row = next(csv_reader)
-            rows = [row for row in csv_reader]
+            # Skip blank lines, which are not rows.
+            rows = [row for row in csv_reader
+                    if len(row) > 1 or (row and row[0].strip())]
+
+            # Use the first row as the column names, if available
+            headers = None
+            if 'noheader' not in self.attributes and rows:
+                headers, rows = rows[0], rows[1:]
 
-            # Transpose the rows so that rows is a len(cols) list of len(rows)
+            # Transpose the rows so that cols is a len(cols) list of len(rows)
             # lists
-            rows = transpose(rows)
+            cols = (transpose(rows) if rows else
+                    [[] for _ in (headers or [])])
 
-            # Convert the rows into a data dict with the keys as column names
-            # (header) or column numbers (no header)
+            # Convert the columns into a data dict with the keys as column
+            # names (header) or column numbers (no header or a column name
+            # that is already used by another column)
             data = OrderedDict()
 
-            if 'noheader' in self.attributes:
-                # Prepend the first row to each row
-                for col_num, (first, row) in enumerate(zip(first_row, rows)):
-                    row.insert(0, first)
-                    data[col_num] = tuple(row)
+            if headers is None:
+                for col_num, col in enumerate(cols):
+                    data[col_num] = tuple(col)
             else:
-                # Use the first_row as the column names
-                for first, row in zip(first_row, rows):
-                    data[first] = tuple(row)
+                headers = headers[:len(cols)]
+                for col_num, (header, col) in enumerate(zip(headers, cols)):
+                    key = header if header not in data else col_num
+                    data[key] = tuple(col)
+                self._headers = tuple(headers)
 
             # Set the data attributes
             self.data = data
-- 
2.43.0


From ee2edf49a2ed537dd5bd8f27e5c23bb787a72e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:51 +0000
Subject: [PATCH 08/61] fix: replace macros in macros at any depth, and stop on
 macros that use themselves

---
 src/disseminate/utils/string.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..6f956cc 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -2,6 +2,7 @@
 String manipulation operations.
 """
 import hashlib
+from functools import partial
 from itertools import groupby
 
 import regex
@@ -495,7 +496,7 @@ def replace_macros(s, *dicts):
         not be found.
     """
     # Replace the values
-    def _substitute(m):
+    def _substitute(m, parents=()):
         # Get the string for the match
         # ex: macro = '@friend.name'
         d = m.groupdict()
@@ -504,6 +505,7 @@ def replace_macros(s, *dicts):
         # Split at periods
         # ex: pieces = ['@friend', 'name']
         pieces = macro.split('.')
+        name = pieces[0]
 
         # See if the first piece corresponds to an entry in kwargs
         obj = None
@@ -515,7 +517,7 @@ def replace_macros(s, *dicts):
                     if piece in d:
                         obj = d[piece]
                         break
-            elif hasattr(obj, piece):
+            elif not isinstance(obj, str) and hasattr(obj, piece):
                 obj = getattr(obj, piece)
             else:
                 # Match not found. Re-add piece to the pieces list
@@ -523,19 +525,16 @@ def replace_macros(s, *dicts):
                 break
 
         # Convert obj and the remaining pieces to a string
-        if obj is None:
-            # no match found. Return the match
+        if obj is None or parents.count(name) > 1:
+            # no match found, or the macro is part of its own replacement
+            # (which is replaced only once). Return the match
             return m.group()
         else:
-            # match(es) found, replace with the string
-            return str(obj) + ''.join('.' + piece for piece in pieces)
-
-    # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
-    s, num_subs = _re_macro.subn(_substitute, s)
-    last_num_subs = 0
-    while num_subs > 0 and num_subs > last_num_subs:
-        last_num_subs = num_subs
-        s, num_subs = _re_macro.subn(_substitute, s)
-
-    return s
+            # match(es) found, replace with the string. The macros in the
+            # string are replaced as well.
+            s = _re_macro.sub(partial(_substitute, parents=parents + (name,)),
+                              str(obj))
+            return s + ''.join('.' + piece for piece in pieces)
+
+    # Return a string with the dicts substituted.
+    return _re_macro.sub(_substitute, s)
-- 
2.43.0


From 85719e5946a5b07cdf35c3158448d71cb8920573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:34 +0000
Subject: [PATCH 09/61] fix: subdocuments changed the nested sets and dicts of
 their parent's context

---
 src/disseminate/context/context.py | 11 ++++++-----
 src/disseminate/utils/dict.py      | 31 ++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..7134440 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -9,6 +9,7 @@ from weakref import ref
 from .utils import load_from_string
 from ..tags import Tag
 from ..utils.classes import all_attributes_values
+from ..utils.dict import copy_nested
 from ..utils.string import str_to_dict, str_to_list
 from .. import settings
 
@@ -227,8 +228,8 @@ class BaseContext(dict):
         .. note:: Entries in the parent_context are copied to this context.
                   If the parent_context entry is a mutable, like a list or
                   dict, then a copy of that mutable is created if a 'copy'
-                  method exists for that mutable. However, mutables within
-                  those mutables will still point to the original.
+                  method exists for that mutable. The dicts, lists and sets
+                  within dicts and lists are copied as well.
 
         Examples
         --------
@@ -403,9 +404,9 @@ class BaseContext(dict):
                     self[key] = change_value.copy(new_context=self)
 
                 except TypeError:
-                    # Other objects, like dicts, have a copy method to create
-                    # a shallow copy, but these do not accept keyword arguments
-                    self[key] = change_value.copy()
+                    # Other objects, like dicts, have a copy method, but these
+                    # do not accept keyword arguments
+                    self[key] = copy_nested(change_value.copy())
                 except AttributeError:
                     # Otherwise reference the value directly, like immutables
                     self[key] = change_value
diff --git a/src/disseminate/utils/dict.py b/src/disseminate/utils/dict.py
index 66cdcbe..d97b8a2 100644
--- a/src/disseminate/utils/dict.py
+++ b/src/disseminate/utils/dict.py
@@ -72,3 +72,34 @@ def find_entry(dicts, *keys, suffix=None, sep='_'):
 
     msg = "Could not find a key constructed from '{keys}'"
     raise KeyError(msg.format(keys=keys))
+
+
+def copy_nested(value):
+    """Copy a dict, list or set, including the dicts, lists and sets it holds.
+
+    Parameters
+    ----------
+    value : Union[dict, list, set]
+        The value to copy. Other items are not copied, but referenced.
+
+    Returns
+    -------
+    copy
+        The copy.
+
+    Examples
+    --------
+    >>> d = {'a': {1, 2}}
+    >>> c = copy_nested(d)
+    >>> c['a'].add(3)
+    >>> d == {'a': {1, 2}}
+    True
+    """
+    # Only containers that are known to be data are entered
+    if type(value) is dict:
+        return {k: copy_nested(v) for k, v in value.items()}
+    if type(value) is list:
+        return [copy_nested(v) for v in value]
+    if isinstance(value, (dict, list, set)):
+        return value.copy()
+    return value
-- 
2.43.0


From aceff53da7dc42a3a340e664a3ef07e2fcf2640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:34 +0000
Subject: [PATCH 10/61] fix: template values replaced header entries inherited
 from parent documents with the same template

---
 .../document/receivers/process_headers.py       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/document/receivers/process_headers.py b/src/disseminate/document/receivers/process_headers.py
index 004a2a3..0934af0 100644
--- a/src/disseminate/document/receivers/process_headers.py
+++ b/src/disseminate/document/receivers/process_headers.py
@@ -56,13 +56,18 @@ def process_headers(context, **kwargs):
     # Next, find the additional context files and load their context values.
     # These are done in *reverse* order because the parent templates are
     # listed last and the child templates listed first. The child template
-    # values take precedence.
+    # values take precedence. A document with the template of its parent
+    # document already inherited these values--or the ones that replaced them
+    # in the headers of parent documents.
     template_context = BaseContext()
-
-    # Get the additional context filepaths in reverse order
-    fps = find_additional_context_filepaths(template_paths[::-1])
-    for context_filepath in fps:
-        template_context.load(context_filepath.read_text())
+    parent = context.parent_context
+
+    if not (isinstance(parent, BaseContext) and
+            parent.get('template') == template_name):
+        # Get the additional context filepaths in reverse order
+        fps = find_additional_context_filepaths(template_paths[::-1])
+        for context_filepath in fps:
+            template_context.load(context_filepath.read_text())
 
     # Now load the template paths and context values
     paths = context['paths']
-- 
2.43.0


From 715bafd6ce8a194bba560d59e08ed69886f10224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:46 +0000
Subject: [PATCH 11/61] fix: document tree loading: cycles, documents included
 twice or moved, and header changes above a parent

---
 src/disseminate/document/document.py | 94 +++++++++++++++++-----------
 1 file changed, 59 insertions(+), 35 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..539d30f 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -31,6 +31,8 @@ class Document(object):
     level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+    tree : Optional[Tuple[dict, set]]
+        The state of the loading of the document tree. See :meth:`load`.
 
     Attributes
     ----------
@@ -64,7 +66,7 @@ class Document(object):
     _succesfully_loaded = False
 
     def __init__(self, src_filepath, environment, parent_context=None,
-                 level=1):
+                 level=1, tree=None):
         logging.debug("Creating document: {}".format(src_filepath))
 
         # Populate attributes
@@ -90,7 +92,7 @@ class Document(object):
                                        parent_context=parent_context)
 
         # Read in the document and load sub-documents
-        self.load(level=level)
+        self.load(level=level, tree=tree)
 
         # Send the 'document_created' signal
         signals.document_created.emit(document=self)
@@ -343,7 +345,7 @@ class Document(object):
 
         return False
 
-    def load(self, reload=False, level=1):
+    def load(self, reload=False, level=1, tree=None):
         """Load or reload the document into the context.
 
         Parameters
@@ -353,6 +355,11 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        tree : Optional[Tuple[dict, set]]
+            The state of the loading of the document tree: the dict of the
+            documents (by src_filepath) that may be used as sub-documents, and
+            the set of the src_filepaths of documents that are already in the
+            tree. It is created if it is not specified.
 
         Returns
         -------
@@ -393,7 +400,9 @@ class Document(object):
         # Load the sub-documents. This is done after processing the string
         # and ast since these may include sub-files, which should be read
         # in before being loaded.
-        document_loaded |= self.load_subdocuments(level=level + 1)
+        document_loaded |= self.load_subdocuments(level=level + 1,
+                                                  reload=document_loaded,
+                                                  tree=tree)
 
         # Emit a signal if this is the root document and a document (or sub-
         # document) was reloaded
@@ -431,7 +440,7 @@ class Document(object):
 
         return mtime
 
-    def load_subdocuments(self, level=1):
+    def load_subdocuments(self, level=1, reload=False, tree=None):
         """Load the sub-documents listed in the include entries in the
         context.
 
@@ -440,6 +449,11 @@ class Document(object):
         level : Optional[int]
             The level of document loaded. Sub-documents are loaded at a higher
             level (>1) than the root document.
+        reload : Optional[bool]
+            If True, force the reload of the sub-documents, because the
+            context they inherit from this document changed.
+        tree : Optional[Tuple[dict, set]]
+            The state of the loading of the document tree. See :meth:`load`.
 
         Returns
         -------
@@ -448,25 +462,31 @@ class Document(object):
         """
         document_loaded = False
 
-        # Get the root document's src_filepath and the src_filepath for all of
-        # its included subdocuments to make sure we do not load documents
-        # recursively or twice
-        root_document = self.context.get('root_document', None)
-        root_document = root_document() if root_document is not None else None
-
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
+        if tree is None:
+            # Get the root document's src_filepath and the src_filepath for all
+            # of its included subdocuments to make sure we do not load
+            # documents recursively or twice
+            root_document = self.context.get('root_document', None)
+            root_document = (root_document() if root_document is not None else
+                             None)
+
+            # Get a dict with all documents in a project
+            root_dict = (root_document.documents_dict(recursive=True)
+                         if root_document is not None else dict())
+
+            # Get a dict with all documents owned by this document. This
+            # document can control those documents, but it cannot control other
+            # documents in the root_dict. This avoids recursion.
+            subs_dict = self.documents_dict(recursive=True)
+
+            placed = root_dict.keys() - subs_dict.keys()
+            placed.add(self.src_filepath)
+            tree = (subs_dict, placed)
 
-        # Get a dict with all documents owned by this document. This document
-        # can control those documents, but it cannot control other documents in
-        # the root_dict. This avoids recursion.
-        subs_dict = self.documents_dict(only_subdocuments=False,
-                                        recursive=True)
+        available, placed = tree
 
         # Clear the subdocuments ordered dict and add new entries. Old entries
         # will automatically be deleted if the subdocument no longer holds a
@@ -477,32 +497,36 @@ class Document(object):
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            # If the document is already in the tree, do nothing. A document
+            # is only included once, by the first document that includes it,
+            # and it isn't a sub-document of itself.
+            if src_filepath in placed:
                 continue
+            placed.add(src_filepath)
 
             # If the document is already loaded and controlled by this
             # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
-                subdoc = subs_dict[src_filepath]
-                document_loaded |= subdoc.load(level=level + 1)
+            if src_filepath in available:
+                subdoc = available[src_filepath]
 
-                if self.src_filepath not in subdoc.subdocuments:
-                    self.subdocuments[src_filepath] = subdoc
+                # The document may have been the sub-document of another
+                # document
+                moved = subdoc.context.parent_context is not self.context
+                if moved:
+                    subdoc.context.parent_context = self.context
 
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
+                document_loaded |= subdoc.load(reload=reload or moved,
+                                               level=level + 1, tree=tree)
+                self.subdocuments[src_filepath] = subdoc
+
+            # The document could not be found, at this point. Create it.
+            else:
                 subdoc = Document(src_filepath=src_filepath,
                                   environment=environment,
                                   parent_context=self.context,
-                                  level=level + 1)
+                                  level=level + 1, tree=tree)
                 self.subdocuments[src_filepath] = subdoc
                 document_loaded |= True
-            else:
-                continue
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 6803d0a26482e2414446b98b1f607cb48c478c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 12/61] fix: labels of documents with a doc_id in their header
 were dropped

---
 src/disseminate/document/document.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 539d30f..605ede8 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -111,8 +111,10 @@ class Document(object):
     @property
     def doc_id(self):
         """The unique string identifier (within a project) for the document."""
-        # The subpath of the src_filepath is guaranteed to be unique.
-        return str(self.src_filepath.subpath)
+        # Use the doc_id from the header, if available. Otherwise, the subpath of
+        # the src_filepath is guaranteed to be unique.
+        doc_id = self.context.get('doc_id') if self.context else None
+        return str(self.src_filepath.subpath) if doc_id is None else doc_id
 
     @property
     def doc_ids(self):
-- 
2.43.0


From 258d56bbf793d61b3a01255a5702c8b505dad582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 13/61] fix: label_resets entries from headers were ignored for
 kinds without a default entry

---
 src/disseminate/label_manager/register_orders.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/label_manager/register_orders.py b/src/disseminate/label_manager/register_orders.py
index aba719c..e7467c1 100644
--- a/src/disseminate/label_manager/register_orders.py
+++ b/src/disseminate/label_manager/register_orders.py
@@ -4,6 +4,8 @@ Function(s) for setting the label order attributes.
 
 from collections import Counter
 
+from ..utils.string import str_to_list
+
 
 def reorder_and_purge_labels_by_doc_id(labels, root_context):
     """Reorder labels by doc_id and remove labels that refer to a doc_id for
@@ -100,7 +102,11 @@ def register_orders(labels, root_context, **kwargs):
 
             # Reset counters, if specified
             if k in reset_counts:
-                for i in reset_counts[k]:
+                resets = reset_counts[k]
+                if isinstance(resets, str):
+                    # an entry from a header
+                    resets = map(str.strip, str_to_list(resets))
+                for i in resets:
                     count[i] = 0
 
             # Append the count
-- 
2.43.0


From bbf3cbb55b19b13667bccff5346e224a98e37edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 14/61] fix: weakattr kept the previous reference when set to
 None, so labels kept removed chapters

---
 src/disseminate/utils/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..5ed6995 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,10 +135,11 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
+        if value is None:  # remove the previous reference, if any
+            weakref_dict.pop(attrname, None)
+            return
         weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
-- 
2.43.0


From 73f590b22855450817cbffcefbf338963de6373c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 15/61] fix: labels with the same id in several documents
 showed the label of the first document

---
 .../label_manager/label_manager.py            | 22 +++++++++++++------
 src/disseminate/tags/headings.py              |  3 ++-
 src/disseminate/tags/label.py                 |  9 +++++---
 src/disseminate/tags/ref.py                   | 19 ++++++++++------
 src/disseminate/tags/toc.py                   | 12 ++++++----
 5 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..01ef9c6 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -4,7 +4,7 @@ The manager for labels.
 from collections import OrderedDict
 from threading import Lock
 
-from .types import ContentLabel, DocumentLabel
+from .types import Label, ContentLabel, DocumentLabel
 from .exceptions import LabelNotFound, DuplicateLabel
 from .register_orders import register_orders
 from .register_content_labels import register_content_labels
@@ -232,9 +232,14 @@ class LabelManager(object):
         if (doc_id, label_id) in self.labels:
             return self.labels[(doc_id, label_id)]
 
-        # Try to find the first label with a matching label_id, if no
-        # doc_id is specified
+        # Try to find a label with a matching label_id, if no doc_id is
+        # specified. Labels of the context's document are preferred.
         if doc_id is None:
+            own_key = (context.get('doc_id') if context is not None else None,
+                       label_id)
+            if own_key in self.labels:
+                return self.labels[own_key]
+
             try:
                 return next(l for k, l in self.labels.items()
                             if k[1] == label_id)
@@ -331,7 +336,7 @@ class LabelManager(object):
 
         return returned_labels
 
-    def format_string(self, id, *keys, target=None):
+    def format_string(self, id, *keys, target=None, context=None):
         """Retrieve the formatted label string for a label.
 
         Label format strings are intended to be replaced with the values of the
@@ -340,15 +345,18 @@ class LabelManager(object):
 
         Parameters
         ----------
-        id : str
-            The label of the label ex: 'ch:nmr-introduction'
+        id : Union[str, :obj:`Label <.label_manager.types.Label>`]
+            The label (or its identifier) ex: 'ch:nmr-introduction'
         keys : Optional[List[str], Tuple[str]]
             If specified, use the given keys to find entries in the format_str
             dict. (see :func:`find_entry <disseminate.utils.dict.find_entry>`)
         target : Optional[str]
             If specified, try finding format strings for the given target.
+        context : Optional[:obj:`DocumentContext <.DocumentContext>`]
+            The context for the document using the label.
         """
-        label = self.get_label(id=id)
+        label = (id if isinstance(id, Label) else
+                 self.get_label(id=id, context=context))
 
         dicts = []
         if 'label_fmts' in self.root_context:
diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index ee1e237..7994039 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -100,7 +100,8 @@ class Heading(Tag, LabelMixin):
             assert self.context.is_valid('label_manager')
 
             label_manager = self.context['label_manager']
-            label = label_manager.get_label(id=self.label_id)
+            label = label_manager.get_label(id=self.label_id,
+                                            context=self.context)
 
             number = label.order[-1] if label.order else None
             number -= 1  # Offset by -1 as the counter is increased
diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index 18f4511..b0affda 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -263,7 +263,8 @@ class LabelTag(Tag):
         context = self.context
 
         if all(i is not None for i in (label_manager, label_id, context)):
-            format_str = label_manager.format_string(id=self.label_id)
+            format_str = label_manager.format_string(id=self.label_id,
+                                                     context=context)
             processed_tag = Tag(name='label', content=format_str,
                                 attributes='', context=context)
             return content_to_str(processed_tag.content)
@@ -278,7 +279,8 @@ class LabelTag(Tag):
 
         if all(i is not None for i in (label_manager, label_id, context)):
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.tex')
+                                                     target='.tex',
+                                                     context=context)
 
             # Process the tags and format the contents for tex
             processed_tag = Tag(name='label', content=format_str,
@@ -301,7 +303,8 @@ class LabelTag(Tag):
             # Retrieve the format string for the label
             # Use the 'html' format_str for html and xhtml
             format_str = label_manager.format_string(id=self.label_id,
-                                                     target='.html')
+                                                     target='.html',
+                                                     context=context)
 
             # Process the tags and format the contents for html (html_fmt) or
             # xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 00890d0..4038bd1 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -36,7 +36,8 @@ def add_ref_labels(builder, **kwargs):
     # Retrieve the labels
     label_man = context.get('label_manager')
     if label_man is not None and ref_label_ids:
-        return sorted(label_man.get_labels_by_id(ids=ref_label_ids))
+        return sorted(label_man.get_labels_by_id(ids=ref_label_ids,
+                                                 context=context))
     else:
         return []
 
@@ -82,7 +83,8 @@ class Ref(Tag):
         assert self.context.is_valid('label_manager')
         label_manager = self.context['label_manager']
         if self.label_id is not None:
-            return label_manager.get_label(id=self.label_id)
+            return label_manager.get_label(id=self.label_id,
+                                           context=self.context)
         else:
             return None
 
@@ -226,7 +228,8 @@ class Ref(Tag):
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys)
+            format_str = label_manager.format_string(label, *keys,
+                                                     context=context)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
@@ -273,8 +276,9 @@ class Ref(Tag):
         if all(i is not None for i in (label_manager, label, context)):
             # Retrieve the format string for the reference
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.tex')
+            format_str = label_manager.format_string(label, *keys,
+                                                     target='.tex',
+                                                     context=context)
 
             # process the tags and format the contents
             # for html
@@ -345,8 +349,9 @@ class Ref(Tag):
             # Retrieve the format string for the reference
             # Use the 'html' format_str for html and xhtml
             keys = ('ref', *label.kind)
-            format_str = label_manager.format_string(label.id, *keys,
-                                                     target='.html')
+            format_str = label_manager.format_string(label, *keys,
+                                                     target='.html',
+                                                     context=context)
 
             # substitute the link, process the tags and format the contents
             # for html (html_fmt) or xhtml (xhtml_fmt)
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..dede895 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -6,6 +6,7 @@ from .ref import Ref
 from .tag import Tag
 from . import exceptions
 from ..formats import xhtml_tag, xhtml_list
+from .. import settings
 
 
 class TocError(Exception):
@@ -166,6 +167,10 @@ class Toc(Tag):
         """
         labels = self.get_labels()
 
+        # The label ids are only unique within documents
+        label_sep = self.context.get('label_sep',
+                                     settings.default_context['label_sep'])
+
         # Collect the created tags.
         tags = []
 
@@ -181,7 +186,8 @@ class Toc(Tag):
 
             # Create the tag and add it to the tags list
             tag_name = 'toc-' + label.kind[-1]
-            tag = TocRef(name=tag_name, content=label.id,
+            tag = TocRef(name=tag_name, content=label_sep.join((label.doc_id,
+                                                                label.id)),
                          attributes=self.attributes, context=self.context)
             tag.attributes['level'] = level
 
@@ -206,11 +212,9 @@ class Toc(Tag):
 
         # Get the labels
         labels = self.get_labels()
-        labels_by_id = {label.id: label for label in labels}
 
-        for tag in tags:
+        for tag, label in zip(tags, labels):
             listlevel = tag.attributes['level']
-            label = labels_by_id.get(tag.label_id, None)
 
             cache = dict() if cache is None else cache
             cache['label'] = label
-- 
2.43.0


From a93df6c854e9c5e99cf1e3cd47978bdb31b50b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 16/61] fix: references lost their text in tex and failed in
 html if the document lacks the target

---
 src/disseminate/tags/ref.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 4038bd1..ec524e0 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -286,6 +286,7 @@ class Ref(Tag):
                                 context=context)
             content = format_content(content=processed_tag.content,
                                      format_func='tex_fmt', level=level + 1)
+            content = ''.join(content)
 
             # setup a url path and include the anchor if the label is not
             # for a DocumentLabel. DocumentLabels should just point to the
@@ -373,8 +374,10 @@ class Ref(Tag):
             if url is not None:
                 attrs['href'] = url
 
-            # wrap content in 'a' tag
-            return xhtml_tag('a', attributes=attrs, formatted_content=content,
+            # wrap content in 'a' tag, or a 'span' tag if there is no document
+            # to link to
+            return xhtml_tag('a' if url is not None else 'span',
+                             attributes=attrs, formatted_content=content,
                              level=level, method=method,
                              pretty_print=False)  # no line breaks
         else:
-- 
2.43.0


From 3684e1f99f2fa34cce6d0161b86767ebac5c5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 17/61] fix: tables of contents of figures and tables were
 empty

---
 src/disseminate/tags/toc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index dede895..6970876 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -138,6 +138,12 @@ class Toc(Tag):
         if 'document' in self.toc_kind or 'documents' in self.toc_kind:
             labels += label_manager.get_labels_by_kind(doc_id=doc_id,
                                                        kinds='document')
+        if 'figure' in self.toc_kind or 'figures' in self.toc_kind:
+            labels += label_manager.get_labels_by_kind(doc_id=doc_id,
+                                                       kinds='figure')
+        if 'table' in self.toc_kind or 'tables' in self.toc_kind:
+            labels += label_manager.get_labels_by_kind(doc_id=doc_id,
+                                                       kinds='table')
 
         # Now filter apply additional filters
         doc_id = context.get('doc_id')
-- 
2.43.0


From 2804cacb0c48a172319fbee07c4ef0e96e13eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 18/61] fix: rebuild documents when the titles, labels, values,
 images or data they use change

---
 src/disseminate/builders/builder.py           |  12 +++
 src/disseminate/builders/jinja_render.py      | 100 ++++++++++++++++++
 .../target_builders/target_builder.py         |   3 +-
 .../label_manager/types/document_label.py     |   6 ++
 src/disseminate/tags/code.py                  |   1 +
 src/disseminate/tags/data.py                  |   5 +-
 src/disseminate/tags/img.py                   |  22 ++--
 src/disseminate/tags/tag.py                   |   4 +
 8 files changed, 141 insertions(+), 12 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..6bbb24c 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -282,10 +282,22 @@ class Builder(metaclass=ABCMeta):
         inputs = list(self.parameters)
         if self.action:
             inputs.append(self.action)
+        inputs += self.additional_dependencies()
         return self.decision.build_needed(inputs=inputs,
                                           output=self.outfilepath,
                                           reset=reset)
 
+    def additional_dependencies(self):
+        """Dependencies, other than the parameters, that are used to decide
+        whether a build is needed.
+
+        Returns
+        -------
+        dependencies : list
+            A list of dependencies.
+        """
+        return []
+
     @property
     def parameters(self):
         """The list of input parameters, including filepaths, needed for the
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..f8592df 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -8,6 +8,7 @@ import jinja2
 import jinja2.meta
 
 from .builder import Builder
+from .deciders.utils_hash import hash_items
 from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
 from ..paths import SourcePath
@@ -101,6 +102,9 @@ class JinjaRender(Builder):
 
     render_ext = None
 
+    context_dependencies = False  # depend on values and labels in the context
+    exclude_values = {'mtime'}  # context values that are not dependencies
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -191,6 +195,22 @@ class JinjaRender(Builder):
     def parameters(self, value):
         self._parameters = value
 
+    def additional_dependencies(self):
+        dependencies = super().additional_dependencies()
+        context = self.context
+
+        if self.context_dependencies and context is not None:
+            # add the files used by tags (ex: images and data files)
+            dependencies += context_tag_files(context)
+
+            # add the values and labels used in rendering (ex: titles of
+            # documents and chapter numbers)
+            dependencies += context_values(context,
+                                           exclude=self.exclude_values)
+            dependencies += context_labels(context)
+
+        return dependencies
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
@@ -360,3 +380,83 @@ def context_filepaths(template_filepaths):
                 context_fp not in filepaths):
             filepaths.append(context_fp)
     return filepaths
+
+
+def context_tag_files(context):
+    """Return the hashes of the files used by the tags in a context.
+
+    Hashes are returned, instead of the filepaths, because the tags take care
+    of adding these files to the target builder.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context dict for the document being rendered.
+
+    Returns
+    -------
+    hashes : List[Tuple[str, str]]
+        A list of filenames and hashes.
+    """
+    filepaths = []
+    for value in context.values():
+        if hasattr(value, 'flatten'):
+            for tag in value.flatten(filter_tags=True):
+                filepaths += tag.infilepaths
+    return [(filepath.name, hash_items(filepath))
+            for filepath in uniq(filepaths) if filepath.is_file()]
+
+
+def context_values(context, exclude=()):
+    """Return the context values that are strings, numbers or collections of
+    these, like most header entries.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context dict for the document being rendered.
+    exclude : Iterable[str]
+        The keys of context entries to exclude.
+
+    Returns
+    -------
+    values : List[Tuple[str, str]]
+        A sorted list of keys and values formatted as strings.
+    """
+    def is_value(value):
+        if isinstance(value, dict):
+            return all(map(is_value, value.values()))
+        elif isinstance(value, (list, tuple, set)):
+            return all(map(is_value, value))
+        return isinstance(value, (str, int, float))
+
+    def to_str(value):
+        if isinstance(value, dict):
+            return str(sorted((str(k), to_str(v)) for k, v in value.items()))
+        elif isinstance(value, set):
+            return str(sorted(map(to_str, value)))
+        elif isinstance(value, (list, tuple)):
+            return str(list(map(to_str, value)))
+        return str(value)
+
+    return sorted((k, to_str(v)) for k, v in context.items()
+                  if k not in exclude and is_value(v))
+
+
+def context_labels(context):
+    """Return the labels of a project, which include the titles and numbers
+    used in rendering headings, references and tables of contents.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context dict for the document being rendered.
+
+    Returns
+    -------
+    labels : List[:obj:`.label_manager.types.Label`]
+        A list of labels.
+    """
+    label_manager = context.get('label_manager', None)
+    return (list(label_manager.get_labels_by_kind())
+            if label_manager is not None else [])
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 1b988cc..4508e38 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -123,7 +123,8 @@ class TargetBuilder(SequentialBuilder):
             render_builder = JinjaRender(env, context, outfilepath=outfilepath,
                                          render_ext=self.outfilepath_ext,
                                          **kwargs)
-            # Add ref label dependencies
+            # Add context and ref label dependencies
+            render_builder.context_dependencies = True
             render_builder.parameters_from_signals = 'ref_label_dependencies'
 
             subbuilders.append(render_builder)
diff --git a/src/disseminate/label_manager/types/document_label.py b/src/disseminate/label_manager/types/document_label.py
index 04f0dae..b21fc35 100644
--- a/src/disseminate/label_manager/types/document_label.py
+++ b/src/disseminate/label_manager/types/document_label.py
@@ -9,3 +9,9 @@ class DocumentLabel(Label):
     def __init__(self, doc_id, id, kind, title, order=None):
         super().__init__(doc_id=doc_id, id=id, kind=kind, order=order)
         self.title = title
+
+    def __repr__(self):
+        if self.title is not None:
+            return super().__repr__(title=self.title)
+        else:
+            return super().__repr__()
diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index ec60a93..97beb39 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -29,6 +29,7 @@ class Code(Tag):
         # Load files, if needed
         files = find_files(self.content, self.context)
 
+        self.infilepaths = files
         if len(files) > 0:
             new_content = "\n".join([file.read_text() for file in files])
             self.content = new_content
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index f70c1c5..e15dfaa 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -8,7 +8,7 @@ from collections import OrderedDict
 from .tag import Tag
 from .utils import format_content
 from ..utils.list import transpose
-from ..paths.utils import load_io_stream
+from ..paths.utils import find_files, load_io_stream
 from ..formats.xhtml import xhtml_tag
 from ..formats.tex import tex_cmd
 
@@ -150,6 +150,9 @@ class DelimData(Data):
             delimiter = delimiter if delimiter is not None else self.delimiter
 
             # Load a file or string stream from the filepath_or_buffer
+            if isinstance(filepath_or_buffer, str):
+                self.infilepaths = find_files(filepath_or_buffer,
+                                              context=self.context)
             stream = load_io_stream(filepath_or_buffer, context=self.context)
 
             # Parse the csv data.
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..5341291 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -83,6 +83,12 @@ class Img(Tag):
 
         return None
 
+    @property
+    def infilepaths(self):
+        """The paths of files used by this tag."""
+        filepath = self.content_as_filepath()
+        return [filepath] if filepath is not None else []
+
     def add_file(self, target, content=None, attributes=None, context=None):
         """Convert and add the file dependency for the specified document
         target.
@@ -114,16 +120,12 @@ class Img(Tag):
         BuildError
             If a builder could not be found for the builder
         """
-        # See if a cached path exists already. This can only be done if the
+        # See if the path can be stored. This can only be done if the
         # content, attributes and context aren't specified because the
-        # values of this tag will be used for these parameters.
-        if all(i is None for i in (content, attributes, context)):
-            if target in self._outfilepaths:
-                return self._outfilepaths[target]
-            else:
-                can_cache = True
-        else:
-            can_cache = False
+        # values of this tag will be used for these parameters. The file is
+        # always added because the target builder may have changed or it may
+        # have already built the file from a previous version.
+        can_cache = all(i is None for i in (content, attributes, context))
 
         # Retrieve the unspecified arguments
         content = content or self.content
@@ -149,7 +151,7 @@ class Img(Tag):
 
         outfilepath = outfilepaths[0]
 
-        # Cache the outfilepath, if possible
+        # Store the outfilepath, if possible
         if can_cache:
             self._outfilepaths[target] = outfilepath
 
diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index e97eab0..b0ecab4 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -59,6 +59,8 @@ class Tag(object):
         If True, the strings in contents of the tag will be parsed and
         processed for typography characters by the ProcessTypography processor
         on creation.
+    infilepaths : Iterable[:obj:`.paths.SourcePath`]
+        The paths of files used by this tag, if any.
     include_paragraphs : bool
         If True, then the contents of this tag can be included in paragraphs.
         See :func:`disseminate.tags.processors.process_paragraphs`.
@@ -93,6 +95,8 @@ class Tag(object):
     include_paragraphs = True
     paragraph_role = None
 
+    infilepaths = ()
+
     def __init__(self, name, content, attributes, context):
         self.name = name
         self.attributes = Attributes(attributes)
-- 
2.43.0


From f9c4366e71215e50bc4fc7ae53a61e9a777ab86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:02 +0000
Subject: [PATCH 19/61] fix: update epub files after edits of their documents

---
 .../builders/target_builders/epub_builder.py  |  4 +++-
 src/disseminate/builders/xhtml2epub.py        | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 8b0a31f..fad00ec 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -105,7 +105,8 @@ class EpubBuilder(TargetBuilder):
         # This will require a new context (render_context), owned by this
         # builder so that the render builder can hold a weakref to it.
         render_context = context.filter(['toc', 'label_manager',
-                                         'root_document', 'relative_links'])
+                                         'root_document', 'relative_links',
+                                         'label_fmts'])
         self._render_toc_context = render_context
 
         # Modify the new context and toc tag to mock a new toc document
@@ -126,6 +127,7 @@ class EpubBuilder(TargetBuilder):
         builder = builder_cls(env=self.env, context=render_context,
                               outfilepath=outfilepath, render_ext='.xhtml',
                               use_media=False, use_cache=True, target='xhtml')
+        builder.context_dependencies = True
         return builder
 
     def create_subbuilders(self):
diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..3bd7680 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -110,6 +110,7 @@ class XHtml2Epub(SequentialBuilder):
         # Add required entries, if not present
         now = datetime.now(timezone.utc).replace(microsecond=0)
         date_str = now.isoformat().replace("+00:00", "Z")
+        generated = {k for k in ('uuid', 'date') if k not in self.context}
         render_context.setdefault('uuid', str(uuid.uuid4()).upper())
         render_context.setdefault('title', 'Default Title')
         render_context.setdefault('date', date_str)
@@ -124,6 +125,10 @@ class XHtml2Epub(SequentialBuilder):
         builder = builder_cls(env=self.env, context=render_context,
                               outfilepath=outfilepath, render_ext='.opf',
                               use_cache=True)
+
+        # Generated values change every time, and they are not dependencies
+        builder.context_dependencies = True
+        builder.exclude_values = builder.exclude_values | generated
         return builder
 
     def filepath_dict_list(self, filepaths, suffix):
@@ -149,6 +154,22 @@ class XHtml2Epub(SequentialBuilder):
                        'is_toc': is_toc})
         return rv
 
+    @property
+    def status(self):
+        # The epub file depends on the parameters (the xhtml, css and svg
+        # files) as well as the subbuilders.
+        status = super().status
+        if status != 'done':
+            return status
+        if not all(filepath.exists() for filepath in self.infilepaths):
+            return 'missing (parameters)'
+        try:
+            self.scan_parameters()
+        except FileNotFoundError:
+            # Files used in the xhtml files may not have been copied yet
+            return 'ready'
+        return 'ready' if self.build_needed() else 'done'
+
     def build(self, complete=False):
         # Scan for additional dependencies. This is done during the build,
         # rather during __init__ (as is usually done), because the xhtml
@@ -157,7 +178,8 @@ class XHtml2Epub(SequentialBuilder):
         self.scan_parameters()
 
         # Build subbuilders first
-        super().build(complete=complete)
+        for subbuilder in self.subbuilders:
+            subbuilder.build(complete=complete)
 
         context = self.context
         outfilepath = self.outfilepath
-- 
2.43.0


From 1c6d8aa46c4d3d0185e2a05838dbe153b82737d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:56 +0000
Subject: [PATCH 20/61] fix: converters that print much ran into the timeout

The pipes of the process were only read after it had ended, and a process that timed out kept running.
---
 src/disseminate/builders/executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..451c2c7 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,14 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    try:
+        # Read the output while waiting, since the process stops when it fills
+        # the pipes
+        stdout, stderr = popen.communicate(timeout=timeout)
+    except subprocess.TimeoutExpired:
+        popen.kill()
+        popen.communicate()
+        raise
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From 0ff48f3a8b29b6496360cdab64bba0764184339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:56 +0000
Subject: [PATCH 21/61] fix: missing files (ex: images) of rendered documents
 after a failed build

A rendered document was recorded as done before the files it uses were built, so that, after a failed (or interrupted) build or a removed file, later builds did not make these files.
---
 src/disseminate/builders/deciders/decider.py  |  8 ++++++
 .../builders/deciders/md5decider.py           |  9 ++++++
 src/disseminate/builders/jinja_render.py      | 28 ++++++++++++++++++-
 .../target_builders/target_builder.py         |  3 ++
 4 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/decider.py b/src/disseminate/builders/deciders/decider.py
index 7df6ab6..9a40bc0 100644
--- a/src/disseminate/builders/deciders/decider.py
+++ b/src/disseminate/builders/deciders/decider.py
@@ -70,3 +70,11 @@ class Decider(object):
     def decision(self):
         """Return the Decision class associated with this decider."""
         return self.decision_cls(parent_decider=self)
+
+    def get_files(self, output):
+        """The list of files recorded by set_files for the output file."""
+        return []
+
+    def set_files(self, output, files):
+        """Record the files that were built for the output file."""
+        pass
diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..69df51e 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -1,6 +1,8 @@
 """
 A decider that uses MD5 hashes.
 """
+import pathlib
+
 import diskcache
 
 from .decider import Decider, Decision
@@ -79,3 +81,10 @@ class Md5Decider(Decider):
         if self._db is None:
             self._db = diskcache.Cache(self.db_path)
         return self._db
+
+    def get_files(self, output):
+        files = self.db.get('files ' + str(output), [])
+        return [pathlib.Path(file) for file in files]
+
+    def set_files(self, output, files):
+        self.db['files ' + str(output)] = sorted({str(f) for f in files})
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index f8592df..4f4fbcf 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -105,6 +105,11 @@ class JinjaRender(Builder):
     context_dependencies = False  # depend on values and labels in the context
     exclude_values = {'mtime'}  # context values that are not dependencies
 
+    #: The builder for the files (ex: images) used by the rendered file. If
+    #: specified, the render is only done once these files are built.
+    file_builder = None
+    _rendered_files = None
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -209,8 +214,25 @@ class JinjaRender(Builder):
                                            exclude=self.exclude_values)
             dependencies += context_labels(context)
 
+        if self.file_builder is not None:
+            # add the files that were built for the last render
+            dependencies += self.env.decider.get_files(self.outfilepath)
+
         return dependencies
 
+    @property
+    def status(self):
+        if self._rendered_files is not None:
+            # The file is rendered, but its files may not be built yet
+            status = self.file_builder.status
+            if status != 'done':
+                return 'building' if status == 'ready' else status
+
+            self.env.decider.set_files(self.outfilepath, self._rendered_files)
+            self._rendered_files = None
+            self.build_needed(reset=True)
+        return super().status
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
@@ -275,7 +297,11 @@ class JinjaRender(Builder):
                                               outfilepath=outfilepath)
 
         outfilepath.write_text(rendered_string)
-        self.build_needed(reset=True)
+        if self.file_builder is not None:
+            self._rendered_files = [builder.outfilepath for builder in
+                                    self.file_builder.subbuilders]
+        else:
+            self.build_needed(reset=True)
         return self.status
 
     @staticmethod
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 4508e38..28cc62d 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -127,6 +127,9 @@ class TargetBuilder(SequentialBuilder):
             render_builder.context_dependencies = True
             render_builder.parameters_from_signals = 'ref_label_dependencies'
 
+            # Wait for the files added by tags in the render
+            render_builder.file_builder = self._parallel_builder
+
             subbuilders.append(render_builder)
             self._render_builder = render_builder
 
-- 
2.43.0


From 919b64424fb481be2c70b7e8008198472771b738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 22/61] fix: builders of the same file ran the same command at
 the same time

With the same equation or diagram in several documents, a converter could read
a file while the other builder was writing it.
---
 src/disseminate/builders/builder.py     | 22 ++++++++++++++++++++--
 src/disseminate/builders/environment.py |  6 ++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 6bbb24c..5c76d0f 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -9,6 +9,7 @@ from distutils.spawn import find_executable
 
 import pathvalidate
 
+from .deciders.utils_hash import hash_items
 from .executor import executor, run, runtime_error, runtime_success
 from .utils import generate_outfilepath, generate_mock_parameters
 from .exceptions import BuildError
@@ -127,6 +128,8 @@ class Builder(metaclass=ABCMeta):
     future = None
     timeout = settings.default_timeout
 
+    _shared_key = None
+
     _active = dict()
     _available_builders = dict()
     _parameters = None
@@ -247,6 +250,9 @@ class Builder(metaclass=ABCMeta):
             if self.future.cancelled():
                 return "cancelled"
 
+            # The result is used (and recorded) from here
+            self.env.shared_futures.pop(self._shared_key, None)
+
             exc = self.future.exception()
             if exc is not None:
                 # Raise the exception, if an exception was raised
@@ -457,8 +463,20 @@ class Builder(metaclass=ABCMeta):
             logging.debug("'{}' run with: '{}'".format(self.__class__.__name__,
                                                        " ".join(args)))
 
-            # add the process to the executor pool
-            future = executor.submit(run, args=args, timeout=self.timeout)
+            # use the future of another builder with the same command and
+            # inputs, if there is one
+            key = (args, hash_items(*self.parameters))
+            future = self.env.shared_futures.get(key, None)
+
+            if future is None or future.done() and not (
+               future.exception() is None and
+               self.runtime_success(future=future) and
+               self.outfilepath.exists()):
+                # add the process to the executor pool
+                future = executor.submit(run, args=args, timeout=self.timeout)
+                self.env.shared_futures[key] = future
+
+            self._shared_key = key
             self.future = future
 
     def build(self, complete=False):
diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 007d566..96166ed 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -41,11 +41,17 @@ class Environment(object):
     project_root = None
     target_root = None
 
+    #: The futures of commands whose results haven't been used yet, so that
+    #: builders with the same command and inputs do not run it at the same time
+    shared_futures = None
+
     _cache_path = None
     _concrete_builders = None
 
     def __init__(self, src_filepath, target_root=None, parent_context=None):
 
+        self.shared_futures = dict()
+
         # Setup the decider
         decider_cls = [cls for cls in Decider.__subclasses__()
                        if cls.__name__ == settings.default_decider]
-- 
2.43.0


From d0142b9763b006310eec847af79494e073e61560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 23/61] fix: scaled diagrams could be shown without their scale

The cached file of the scaled image replaced the unscaled one it was made
from, so that another builder of the same diagram could copy either.
---
 src/disseminate/builders/pdf2svg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..b9abc19 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -71,6 +71,10 @@ class Pdf2SvgCropScale(SequentialBuilder):
 
         scale = self.get_parameter('scale', *parameters)
         if scale is not None:
+            # The unscaled file shouldn't have the path of this builder's file
+            if crop is None:
+                pdf2svg.outfilepath_append = '_unscaled'
+
             scalesvg = ScaleSvg(env, parameters=parameters, use_cache=True,
                                 **kwargs)
             subbuilders.append(scalesvg)
-- 
2.43.0


From fadea973b7043f23f120e2d0d56c2cc625320213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 24/61] fix: equations used replaced builders after other
 documents were edited

---
 src/disseminate/tags/eqs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 9e47d7d..05568c6 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -121,6 +121,10 @@ class Eq(Img):
             context = self.context.filter(['paths', 'builders'])
             context['eq'] = self
             context['template'] = 'default/tex/eq'
+
+            # Use the builders of the document rather than a copy, because
+            # these are replaced when the document tree is updated
+            context['builders'] = self.context['builders']
             self._target_context[method] = context
 
         context = context or self._target_context[method]
-- 
2.43.0


From f19895bf2b42a783f0962cd92b60531b0ef034d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:57 +0000
Subject: [PATCH 25/61] fix: conversions of files in paths with spaces failed

The formatted action was split at spaces, so that paths with spaces became
many arguments. The page number of pdf2svg wasn't a string.
---
 src/disseminate/builders/builder.py | 24 +++++++++++++++++++-----
 src/disseminate/builders/pdf2svg.py |  2 +-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 5c76d0f..ea3d428 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -22,13 +22,23 @@ from .. import settings
 
 class CustomFormatter(Formatter):
     """A custom formatter class for preparing actions into command-line
-    arguments."""
+    arguments.
+
+    Attributes
+    ----------
+    separator : str
+        The string that separates the items of lists and tuples. It cannot be
+        part of paths.
+    """
+
+    separator = '\0'
 
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
-            # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            # Make lists/tuples into separated strings
+            field_value = self.separator.join(self.clean_field(f)
+                                              for f in field_value)
             return field_value, field_name
         return self.clean_field(field_value), field_name
 
@@ -448,9 +458,13 @@ class Builder(metaclass=ABCMeta):
             A tuple of the arguments to run in a process.
         """
         if isinstance(self.action, str):
+            # Split the action before it's formatted, since the formatted
+            # fields (ex: paths) may have spaces
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            args = []
+            for arg in self.action.split():
+                args += fmt.format(arg, builder=self).split(fmt.separator)
+            return tuple(arg for arg in args if arg)
         else:
             return tuple()
 
diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index b9abc19..22f7f57 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -33,7 +33,7 @@ class Pdf2svg(Builder):
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
         if isinstance(self.page_no, int):
-            args += [self.page_no]
+            args += [str(self.page_no)]
         return tuple(args)
 
 
-- 
2.43.0


From dc6fef2a3d464d203076ed107577fab677577716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 26/61] fix: target-specific attributes were ignored or
 overruled in many tags

Target-specific attributes of generic tags, boxes, panels and xhtml tables
were not used in html and xhtml; the width attributes for a target were
overruled or not converted when there's a general width, and the classes of
figures and panels were lost.
---
 src/disseminate/tags/featurebox.py |  8 ++++----
 src/disseminate/tags/figs.py       | 12 +++++++-----
 src/disseminate/tags/img.py        |  4 ++--
 src/disseminate/tags/table.py      |  2 +-
 src/disseminate/tags/tag.py        |  6 ++++--
 5 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/disseminate/tags/featurebox.py b/src/disseminate/tags/featurebox.py
index 95ea58b..1f461b1 100644
--- a/src/disseminate/tags/featurebox.py
+++ b/src/disseminate/tags/featurebox.py
@@ -27,14 +27,14 @@ class FeatureBox(Tag):
     def __init__(self, name, *args, **kwargs):
         super().__init__(name='featurebox', *args, **kwargs)
 
-    def html_fmt(self, attributes=None, **kwargs):
-        attributes = (self.attributes.copy() if attributes is None else
-                      attributes)
+    def html_fmt(self, attributes=None, method='html', **kwargs):
+        attributes = self.attributes if attributes is None else attributes
+        attributes = attributes.filter(target=method)
 
         # Add the html attribute
         attributes['class'] = (attributes['class'] + " " + self.html_classes
                                if 'class' in attributes else self.html_classes)
-        return super().html_fmt(attributes=attributes, **kwargs)
+        return super().html_fmt(attributes=attributes, method=method, **kwargs)
 
 
 class ExampleBox(FeatureBox):
diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..a227e68 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -46,12 +46,12 @@ class BaseFigure(Tag):
             caption.create_label()
 
     def html_fmt(self, attributes=None, method='html', **kwargs):
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target=method)
 
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] += ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
@@ -98,7 +98,8 @@ class Panel(Tag):
     tex_env = 'panel'
 
     def tex_fmt(self, attributes=None, **kwargs):
-        attrs = self.attributes.copy() if attributes is None else attributes
+        attrs = self.attributes if attributes is None else attributes
+        attrs = attrs.filter(target='.tex')
 
         # Format the width
         attrs = tex_percentwidth(attrs, target='.tex', use_positional=True)
@@ -109,10 +110,11 @@ class Panel(Tag):
         return strip_multi_newlines(env).strip()
 
     def html_fmt(self, attributes=None, method='html', **kwargs):
-        attrs = self.attributes.copy() if attributes is None else attributes
+        attrs = self.attributes if attributes is None else attributes
         target = '.' + method if not method.startswith('.') else method
+        attrs = attrs.filter(target=target)
 
         # Format the html classes
-        attrs['class'] = 'panel'
+        attrs.append('class', 'panel')
         attrs = xhtml_percentwidth(attributes=attrs, target=target)
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 5341291..bd2319e 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -163,7 +163,7 @@ class Img(Tag):
                                     context=context, attributes=attributes)
 
         # Format the width
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target='.tex')
         attrs = tex_percentwidth(attrs, target='.tex')
 
         # Get the filename for the file.
@@ -193,7 +193,7 @@ class Img(Tag):
         url = outfilepath.get_url(context=self.context, target=target)
 
         # Format the width and attributes
-        attrs = attributes or self.attributes.copy()
+        attrs = (attributes or self.attributes).filter(target=target)
         attrs = xhtml_percentwidth(attrs, target=target)
         attrs['src'] = url
 
diff --git a/src/disseminate/tags/table.py b/src/disseminate/tags/table.py
index e14fa60..dc7d50f 100644
--- a/src/disseminate/tags/table.py
+++ b/src/disseminate/tags/table.py
@@ -71,7 +71,7 @@ class BaseTable(Tag):
                  method='html', level=1, **kwargs):
         # Setup the html class, if specified
         attributes = (attributes if attributes is not None else
-                      self.attributes.filter(target='.html'))
+                      self.attributes.filter(target=method))
         if self.html_class is not None:
             if 'class' in attributes:
                 attributes['class'] += " " + self.html_class
diff --git a/src/disseminate/tags/tag.py b/src/disseminate/tags/tag.py
index b0ecab4..ce2b3a5 100644
--- a/src/disseminate/tags/tag.py
+++ b/src/disseminate/tags/tag.py
@@ -327,9 +327,11 @@ class Tag(object):
         # Set the attributes
         attributes = attributes or self.attributes
 
-        # Format the html tag
+        # Format the html tag. Target-specific attributes are used for the
+        # method's target. ex: 'class.html' or 'class.xhtml'
         return xhtml_tag(name=name, level=level, attributes=attributes,
-                         formatted_content=content, method=method)
+                         formatted_content=content, method=method,
+                         target=method)
 
     @property
     def xhtml(self):
-- 
2.43.0


From d3cb502618910b48b1eb0e099ef879704ac1a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:31 +0000
Subject: [PATCH 27/61] fix: positional attributes of other targets were used

---
 src/disseminate/attributes/attributes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..3426ca3 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -255,18 +255,21 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
+            # Find the entries that aren't target-specific
+            general_items = [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
+
             if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
+                # Use the entries of the target, if available, or the general
+                # entries. Entries of other targets aren't used.
+                items = ([(k, v) for k, v in items
+                          if k.endswith(sep + target)] or general_items)
             else:
-                # Otherwise remove entries that have target-specific
-                target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+                # Otherwise use target-specific entries last
+                items = general_items or items
 
             # Return the first item found
-            if target_items:
-                return target_items[0]
-            elif items:
+            if items:
                 return items[0]
 
         # Give up
-- 
2.43.0


From cf26c89f7e803b67b1126df2c0d5288fabae32c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:55 +0000
Subject: [PATCH 28/61] fix: images with a width of 34% had no width

---
 src/disseminate/tags/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..a8c347b 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -237,7 +237,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
     windows = {99: (75, 100),  # ]75, 100]
                74: (67, 75),
                65: (50, 67),
-               49: (34, 50),
+               49: (33, 50),
                32: (25, 33),
                24: (0, 25)}
 
@@ -306,7 +306,7 @@ def xhtml_percentwidth(attributes, target='.html'):
     windows = {'w100': (75, 100),  # ]75, 100]
                'w75': (67, 75),
                'w66': (50, 67),
-               'w50': (34, 50),
+               'w50': (33, 50),
                'w33': (25, 33),
                'w25': (0, 25)}
 
-- 
2.43.0


From 650bcab63f764e184b7e2cb02254f680a05f4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 29/61] fix: contexts with bools could not be inherited, nested
 lists were shared

A bool (rather than the string for it) for an entry that is inherited raised
AttributeError, and the lists in lists of changes were not copied.
---
 src/disseminate/context/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 7134440..91b786b 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -435,7 +435,7 @@ class BaseContext(dict):
             if isinstance(original_value, list):
                 change_value = (str_to_list(change_value)
                                 if isinstance(change_value, str) else
-                                list(change_value))
+                                copy_nested(list(change_value)))
                 original_value[0:0] = change_value  # prepend to top
 
             # 3. *sets*. Create a copy from changes
@@ -473,7 +473,8 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                # (bools are converted like the strings 'True' and 'False')
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
-- 
2.43.0


From 27268b0cbbaed4e211f5473d903a3b7878d94c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 30/61] fix: files were searched in the current directory
 before the project

---
 src/disseminate/paths/utils.py | 35 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/disseminate/paths/utils.py b/src/disseminate/paths/utils.py
index b0dfa96..581c765 100644
--- a/src/disseminate/paths/utils.py
+++ b/src/disseminate/paths/utils.py
@@ -123,7 +123,8 @@ def find_file(path, context, raise_error=True):
     assert 'paths' in context and isinstance(context['paths'], list)
 
     # Prepare the parameters
-    if isinstance(path, str):
+    is_string = isinstance(path, str)
+    if is_string:
         path_strs = path.strip().splitlines()  # Keep only the first line
         path = pathlib.Path(path_strs[0] if path_strs else '')
 
@@ -134,33 +135,25 @@ def find_file(path, context, raise_error=True):
             raise FileNotFoundError(msg)
         return None
 
-    # See if the file is itself a valid file. This might fail if the string
-    # in the path would make a filename that is too long, raising an OSError
-    try:
-        if path.is_file():
-            return path
-    except OSError as e:
-        if raise_error:
-            raise e
-
-    # See if it's an absolute file that doesn't exist
-    if path.is_absolute():
-        if raise_error:
-            msg = "Could not find file '{}'".format(path)
-            raise FileNotFoundError(msg)
-        return None
-
-    # Otherwise see if the path can be reconstructed
-    paths = ['.'] + context['paths']
+    # The path itself (with respect to the current directory, if it's relative)
+    # and the paths reconstructed from the context. A string is first a path of
+    # the project, so that the files found do not depend on the directory the
+    # program was started from.
+    paths = context['paths'] if not path.is_absolute() else []
+    new_paths = []
     for p in paths:
         # Treat SourcePath and TargetPath in a special way to correctly set the
         # subpath
         if hasattr(p, 'use_subpath'):
             subpath = p.subpath / path if p.subpath is not None else path
-            new_path = p.use_subpath(subpath)
+            new_paths.append(p.use_subpath(subpath))
         else:
-            new_path = p / path
+            new_paths.append(p / path)
+    new_paths.insert(len(new_paths) if is_string else 0, path)
 
+    # Find the first valid file. This might fail if the string in the path
+    # would make a filename that is too long, raising an OSError
+    for new_path in new_paths:
         try:
             if new_path.is_file():
                 return new_path
-- 
2.43.0


From 875c06e760c4d6befd8c53d2d1f817c88cb722b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 31/61] fix: epub files with images were built again in each
 session

---
 src/disseminate/builders/xhtml2epub.py | 52 ++++++++++++++++++--------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 3bd7680..e546c62 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -38,6 +38,7 @@ class XHtml2Epub(SequentialBuilder):
     toc_filename = 'toc.xhtml'
 
     _render_context = None
+    _scanned_parameters = ()
 
     def __init__(self, env, context, **kwargs):
         # Setup the arguments
@@ -91,21 +92,11 @@ class XHtml2Epub(SequentialBuilder):
         builder_cls = self.find_builder_cls(in_ext='.render')
 
         # Setup a renderer for the content.opfs
-        fps = [p for p in self.parameters if hasattr(p, 'suffix')]
-
-        # Place the title.xhtml and toc.xhtml file at the front of the
-        # filepaths
-        front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
-                     [fp for fp in fps if fp.name == 'toc.xhtml'])
-        fps = front_fps + [fp for fp in fps if fp not in front_fps]
-
         render_context = (self._render_context or
                           self.context.filter(['paths', 'title', 'date',
                                                'epub']))
         render_context['template'] = template_name
-        render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
-        render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
-        render_context['css_files'] = self.filepath_dict_list(fps, '.css')
+        self.set_filepaths(render_context)
 
         # Add required entries, if not present
         now = datetime.now(timezone.utc).replace(microsecond=0)
@@ -131,6 +122,20 @@ class XHtml2Epub(SequentialBuilder):
         builder.exclude_values = builder.exclude_values | generated
         return builder
 
+    def set_filepaths(self, render_context):
+        """Set the files of the epub in the context for the content.opf"""
+        fps = [p for p in self.parameters if hasattr(p, 'suffix')]
+
+        # Place the title.xhtml and toc.xhtml file at the front of the
+        # filepaths
+        front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
+                     [fp for fp in fps if fp.name == 'toc.xhtml'])
+        fps = front_fps + [fp for fp in fps if fp not in front_fps]
+
+        render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
+        render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
+        render_context['css_files'] = self.filepath_dict_list(fps, '.css')
+
     def filepath_dict_list(self, filepaths, suffix):
         """Create a list of dicts from the given filepaths"""
         rv = []
@@ -154,20 +159,35 @@ class XHtml2Epub(SequentialBuilder):
                        'is_toc': is_toc})
         return rv
 
+    def scan_parameters(self):
+        # Scan again from the initial parameters, because files found in a
+        # previous scan may not be used anymore
+        given = [p for p in self.parameters
+                 if p not in self._scanned_parameters]
+        self.parameters = given
+        super().scan_parameters()
+        self._scanned_parameters = [p for p in self.parameters
+                                    if p not in given]
+
     @property
     def status(self):
         # The epub file depends on the parameters (the xhtml, css and svg
         # files) as well as the subbuilders.
+        if all(filepath.exists() for filepath in self.infilepaths):
+            # The files used in the xhtml files (ex: images) are only known
+            # once the xhtml files are built.
+            try:
+                self.scan_parameters()
+            except FileNotFoundError:
+                # These files may not have been copied yet
+                return 'ready'
+            self.set_filepaths(self._render_context)
+
         status = super().status
         if status != 'done':
             return status
         if not all(filepath.exists() for filepath in self.infilepaths):
             return 'missing (parameters)'
-        try:
-            self.scan_parameters()
-        except FileNotFoundError:
-            # Files used in the xhtml files may not have been copied yet
-            return 'ready'
         return 'ready' if self.build_needed() else 'done'
 
     def build(self, complete=False):
-- 
2.43.0


From fa1f6c9aa2f5a66849c8f6a1f5d89974047a87b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:34 +0000
Subject: [PATCH 32/61] fix: titles were not escaped in xhtml and epub files

---
 src/disseminate/builders/jinja_render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 4f4fbcf..fded41c 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -127,7 +127,8 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml',
+                                           'opf'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
-- 
2.43.0


From dd4cacec3d8ca3b303c6be6188786be9224d4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 33/61] fix: epub packages had duplicate or invalid ids and
 urls

---
 src/disseminate/builders/xhtml2epub.py         | 18 ++++++++++++++----
 .../templates/default/xhtml/content.opf        |  6 +++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index e546c62..b3ca9ee 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -129,7 +129,8 @@ class XHtml2Epub(SequentialBuilder):
         # Place the title.xhtml and toc.xhtml file at the front of the
         # filepaths
         front_fps = ([fp for fp in fps if fp.name == 'title.xhtml'] +
-                     [fp for fp in fps if fp.name == 'toc.xhtml'])
+                     [fp for fp in fps
+                      if str(fp.subpath) == self.toc_filename])
         fps = front_fps + [fp for fp in fps if fp not in front_fps]
 
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
@@ -139,20 +140,29 @@ class XHtml2Epub(SequentialBuilder):
     def filepath_dict_list(self, filepaths, suffix):
         """Create a list of dicts from the given filepaths"""
         rv = []
+        ids = set()
         for filepath in filepaths:
             if filepath.suffix != suffix:
                 continue
 
-            # Is the filepath a toc file?
-            is_toc = filepath.name == self.toc_filename
+            # Is the filepath the toc file of the book? (The toc files of
+            # subdirectories are documents)
+            is_toc = str(filepath.subpath) == self.toc_filename
 
             # Generate the subpath for the file, as this is the relative
             # path in the epub container. Make sure to strip '..' relpath
             # elements, as this can create compatibility issues.
             subpath = str(os.path.normpath(filepath.subpath))
 
-            # Generate the navigation identifier for the file
+            # Generate the navigation identifier for the file. It must be a
+            # unique xml name, which starts with a letter or underscore.
             id = slugify(subpath) if not is_toc else 'toc'
+            id = id if id[:1].isalpha() else '_' + id
+            base_id, count = id, 1
+            while id in ids:
+                count += 1
+                id = '{}_{}'.format(base_id, count)
+            ids.add(id)
 
             rv.append({'id': id,
                        'subpath': subpath,
diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..8a506e8 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -48,18 +48,18 @@
   <manifest>
     <!-- Main content files in ebook -->
     {%- for file in xhtml_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="application/xhtml+xml"{% if file.is_toc %} properties="nav"{% endif %}/>
     {%- endfor %}
     <!-- Media files -->
     {%- for file in css_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="text/css"/>
     {%- endfor %}
     {%- for file in svg_files %}
-    <item href="{{ file.subpath }}"
+    <item href="{{ file.subpath|urlencode }}"
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
-- 
2.43.0


From 047b834bf126d9acb4c08d61eef17ae097e82383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:41 +0000
Subject: [PATCH 34/61] fix: urls of files with #, ? or % in their names led to
 other files

---
 .../builders/scanners/html_scanner.py         |  6 +++++-
 src/disseminate/paths/paths.py                | 19 +++++++++++++++++--
 src/disseminate/tags/navigation.py            |  3 ++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/scanners/html_scanner.py b/src/disseminate/builders/scanners/html_scanner.py
index 7d5cd45..cd33ba2 100644
--- a/src/disseminate/builders/scanners/html_scanner.py
+++ b/src/disseminate/builders/scanners/html_scanner.py
@@ -1,6 +1,9 @@
 """
 A scanner for html files.
 """
+from html import unescape
+from urllib.parse import unquote
+
 import regex
 
 from .scanner import Scanner
@@ -44,5 +47,6 @@ class HtmlScanner(Scanner):
                 if '://' in link:
                     continue
 
-                filepaths.append(link)
+                # Convert the url in the html attribute to a path
+                filepaths.append(unquote(unescape(link)))
         return filepaths
diff --git a/src/disseminate/paths/paths.py b/src/disseminate/paths/paths.py
index 69985f3..15768ee 100644
--- a/src/disseminate/paths/paths.py
+++ b/src/disseminate/paths/paths.py
@@ -9,9 +9,24 @@ import re
 import weakref
 
 
+re_url_reserved = re.compile(r'[%#?]')  # reserved in the paths of urls
 re_dbl_slash = re.compile(r'(?<!\:)//')  # match '//' but not '://'
 
 
+def quote_url(path):
+    """Quote the characters of a path that have another meaning in urls.
+
+    Examples
+    --------
+    >>> quote_url('my file.html')
+    'my file.html'
+    >>> quote_url('chapter#1.html')
+    'chapter%231.html'
+    """
+    return re_url_reserved.sub(lambda m: '%{:02X}'.format(ord(m.group())),
+                               str(path))
+
+
 # We need to derive the WindowsPath and PosixPath so that we can add
 # entries into its __dict__.
 class WindowsPath(pathlib.WindowsPath):
@@ -225,7 +240,7 @@ class TargetPath(object):
         relpath = os.path.relpath(self, target_path)
 
         # Construct a relative url relative to the target_path
-        return str(relpath)
+        return quote_url(relpath)
 
     def _get_absolute_url(self, context, target=None):
         """Construct the absolute url for the path."""
@@ -238,7 +253,7 @@ class TargetPath(object):
                    'base_url' in context else '/{target}/{subpath}')
 
         return url_str.format(target_root=target_root, target=target,
-                              subpath=subpath)
+                              subpath=quote_url(subpath))
 
     def use_name(self, name):
         """with_name(name) that returns a TargetPath.
diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index 8939a52..f42d471 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -9,6 +9,7 @@ from markupsafe import escape
 
 from .tag import Tag
 from .ref import Ref
+from ..paths.paths import quote_url
 from ..signals import signal
 
 
@@ -244,7 +245,7 @@ class OtherLink(Tag):
         return self.other_relpath(this_target='.tex')
 
     def html_fmt(self, method='html', level=1, **kwargs):
-        rp = self.other_relpath(this_target='.' + method)
+        rp = quote_url(self.other_relpath(this_target='.' + method))
 
         # The text of nested tags is escaped by the parent tag's element
         return escape(rp) if level == 1 else rp
-- 
2.43.0


From eb9ebf8448d8f8bbf622f3dc747965e5f4d6c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:21 +0000
Subject: [PATCH 35/61] fix: the base url was not used for the style sheets of
 absolute links

---
 src/disseminate/paths/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/paths/paths.py b/src/disseminate/paths/paths.py
index 15768ee..c7cdeb7 100644
--- a/src/disseminate/paths/paths.py
+++ b/src/disseminate/paths/paths.py
@@ -249,7 +249,8 @@ class TargetPath(object):
         target = str(target or self.target).strip('.')
         subpath = str(self.subpath).strip('.')
 
-        url_str = (context['base_url'] if isinstance(context, dict) and
+        # (The context may also be the context of a jinja2 template.)
+        url_str = (context['base_url'] if context is not None and
                    'base_url' in context else '/{target}/{subpath}')
 
         return url_str.format(target_root=target_root, target=target,
-- 
2.43.0


From d70f8e9e90a7df7f6d66644608a5768747e12b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:04 +0000
Subject: [PATCH 36/61] fix: a dash at the start or end of a paragraph joined
 it with the next one

---
 src/disseminate/tags/receivers/typography.py | 21 ++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/receivers/typography.py b/src/disseminate/tags/receivers/typography.py
index 1f9c727..f25979d 100644
--- a/src/disseminate/tags/receivers/typography.py
+++ b/src/disseminate/tags/receivers/typography.py
@@ -12,8 +12,8 @@ def process_typography(tag, tag_base_cls, **kwargs):
     return process_tag_typography(tag=tag, tag_base_cls=tag_base_cls)
 
 
-re_endash = regex.compile(r"[\s\u00a0]*(--|\u2013)[\s\u00a0]*")
-re_emdash = regex.compile(r"[\s\u00a0]*(---|\u2014)[\s\u00a0]*")
+re_endash = regex.compile(r"([\s\u00a0]*)(?:--|\u2013)([\s\u00a0]*)")
+re_emdash = regex.compile(r"([\s\u00a0]*)(?:---|\u2014)([\s\u00a0]*)")
 re_apostrophe = regex.compile(r"(?<=\w)'(?=\w)")
 re_single_start = regex.compile(r"(?<!\w)'(?=\S)")
 re_single_end = regex.compile(r"(?<=\S)'(?!\w)")
@@ -21,6 +21,19 @@ re_double_start = regex.compile(r"(?<!\w)\"(?=\S)")
 re_double_end = regex.compile(r"(?<=\S)\"(?!\w)")
 
 
+def sub_dash(regex_dash, dash, string):
+    """Substitute dashes, and the spaces around them, by the given dash.
+
+    Blank lines around a dash separate paragraphs, and these are kept.
+    """
+    def repl(match):
+        before, after = [spaces if spaces.count('\n') > 1 else ''
+                         for spaces in match.groups()]
+        return before + dash + after
+
+    return regex_dash.sub(repl, string)
+
+
 def process_tag_typography(tag, tag_base_cls, level=1):
     """Process the typography for an AST.
 
@@ -43,8 +56,8 @@ def process_tag_typography(tag, tag_base_cls, level=1):
     """
     if isinstance(tag, str):
         # Process the tag if it's simply a string
-        tag = re_emdash.sub('\u2014', tag)
-        tag = re_endash.sub('\u2013', tag)
+        tag = sub_dash(re_emdash, '\u2014', tag)
+        tag = sub_dash(re_endash, '\u2013', tag)
         tag = re_apostrophe.sub('’', tag)
         tag = re_single_start.sub('‘', tag)
         tag = re_single_end.sub('’', tag)
-- 
2.43.0


From 92f45f89c590dd7294b217e9abb085d792042d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:42 +0000
Subject: [PATCH 37/61] fix: the python checker took other packages with the
 same start of the name

---
 src/disseminate/checkers/python.py |  8 +++++---
 src/disseminate/checkers/utils.py  | 12 ++++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..7852d1b 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -5,7 +5,7 @@ import subprocess
 import sys
 
 from .checker import Checker
-from .utils import name_and_version
+from .utils import name_and_version, normalize_name
 from .types import SoftwareDependency, SoftwareDependencyList
 from ..software_dependencies import python_deps
 
@@ -73,10 +73,12 @@ class PythonChecker(Checker):
             # Parse the package name, comparison operator (op) and the version
             # tuple
             name, op, ver = rv
-            name = name.lower()
+            name = normalize_name(name)
 
             # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            freeze = [(i, name_and_version(i)) for i in self.freeze]
+            matching_packages = [i for i, rv in freeze if rv is not None and
+                                 normalize_name(rv[0]) == name]
 
             # If there are no matching packages, return None and do nothing
             # more
diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..fb49abb 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -5,6 +5,18 @@ import re
 import operator
 
 
+def normalize_name(name):
+    """Normalize the name of a package: names are case-insensitive, and
+    hyphens, underscores and periods are equivalent.
+
+    Examples
+    --------
+    >>> normalize_name('Typing_Extensions')
+    'typing-extensions'
+    """
+    return re.sub(r'[-_.]+', '-', name).lower()
+
+
 def name_and_version(string):
     """Parse the name and version from a package name string with an optional
     specifier.
-- 
2.43.0


From 3ad5c9621ada5befba5d0f37816a5646ea62e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:54 +0000
Subject: [PATCH 38/61] fix: the python checker raised an error for post and
 development releases

---
 src/disseminate/checkers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index fb49abb..36d7e17 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -49,7 +49,7 @@ def name_and_version(string):
 
     m = re.search(r'([\w\.\-\_]+)'  # match package name
                   r'\s*(==|>=|<=|>|<|!=)?\s*'  # operator
-                  r'([\d\.]+)?',  # version number
+                  r'(\d+(?:\.\d+)*)?',  # version number
                   string)
 
     if m is None:
-- 
2.43.0


From 1c34012beeabb68603439beeb0302acfc9e8d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:48 +0000
Subject: [PATCH 39/61] fix: the python checker took versions with trailing
 zeros for other versions

---
 src/disseminate/checkers/python.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index 7852d1b..e47144c 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -102,9 +102,15 @@ class PythonChecker(Checker):
                 # In this case, we don't care about the version--just that it's
                 # installed. It is, so mark it as installed
                 packages.available = True
-            elif installed_ver is not None and op(installed_ver, ver):
-                # Otherwise check the version number
-                packages.available = True
+            elif installed_ver is not None:
+                # Otherwise check the version number. Missing numbers are
+                # zeros: '2.1' is the same version as '2.1.0'
+                length = max(len(installed_ver), len(ver))
+                installed_ver += (0,) * (length - len(installed_ver))
+                ver += (0,) * (length - len(ver))
+
+                if op(installed_ver, ver):
+                    packages.available = True
 
         elif isinstance(packages, SoftwareDependencyList):
             # If the packages is a SoftwareDependencyList, process each package
-- 
2.43.0


From 92f28ace908651e1e608170705a568320797970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 40/61] fix: the novel starters could not be built, as their
 template had no tex and xhtml

---
 src/disseminate/templates/books/novel/tex/template.tex   | 9 +++++++++
 .../templates/books/novel/xhtml/template.xhtml           | 1 +
 2 files changed, 10 insertions(+)
 create mode 100644 src/disseminate/templates/books/novel/tex/template.tex
 create mode 100644 src/disseminate/templates/books/novel/xhtml/template.xhtml

diff --git a/src/disseminate/templates/books/novel/tex/template.tex b/src/disseminate/templates/books/novel/tex/template.tex
new file mode 100644
index 0000000..e74f67d
--- /dev/null
+++ b/src/disseminate/templates/books/novel/tex/template.tex
@@ -0,0 +1,9 @@
+{%- extends "default/tex/template.tex" %}
+{%- block class %}
+\documentclass[12pt]{book}
+{% endblock %}
+{%- block extraheader %}
+%%%
+% Sidenotes
+\usepackage{marginnote}
+{%- endblock %}
diff --git a/src/disseminate/templates/books/novel/xhtml/template.xhtml b/src/disseminate/templates/books/novel/xhtml/template.xhtml
new file mode 100644
index 0000000..1f64fcb
--- /dev/null
+++ b/src/disseminate/templates/books/novel/xhtml/template.xhtml
@@ -0,0 +1 @@
+{%- extends "default/xhtml/template.xhtml" %}
-- 
2.43.0


From 223fe3871a728a88e01b1f2ddd3f1c06b7f6ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:36 +0000
Subject: [PATCH 41/61] fix: the macros of greek capitals could not be
 converted to pdf

---
 src/disseminate/settings.py  | 9 +++++++++
 src/disseminate/tags/text.py | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/settings.py b/src/disseminate/settings.py
index 0ddbdcc..13bda64 100644
--- a/src/disseminate/settings.py
+++ b/src/disseminate/settings.py
@@ -410,5 +410,14 @@ tex_cmd_optionals = {'includegraphics': ('width', 'height'),
                      }
 
 
+#: Greek letters that have no LaTeX command.
+tex_symbols = {'Alpha': r'\mathrm{A}', 'Beta': r'\mathrm{B}',
+               'Epsilon': r'\mathrm{E}', 'Zeta': r'\mathrm{Z}',
+               'Eta': r'\mathrm{H}', 'Iota': r'\mathrm{I}',
+               'Kappa': r'\mathrm{K}', 'Mu': r'\mathrm{M}',
+               'Nu': r'\mathrm{N}', 'Omicron': r'\mathrm{O}',
+               'Rho': r'\mathrm{P}', 'Tau': r'\mathrm{T}',
+               'Chi': r'\mathrm{X}', 'omicron': 'o'}
+
 #: Default text width to rewrap paragraphs. Set to 0 to disable.
 # tex_paragraph_width = 80
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index f377b05..0acb259 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -253,7 +253,7 @@ class Symbol(Tag):
     def tex_fmt(self, content=None, attributes=None, mathmode=False, level=1,
                 **kwargs):
         content = content if content is not None else self.content
-        content = "\\" + content
+        content = settings.tex_symbols.get(content, "\\" + content)
         return (tex_cmd(cmd='ensuremath', attributes='',
                         formatted_content=content)
                 if not mathmode else
-- 
2.43.0


From 2b222b979d901ccc56584994033e79dcacf20167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:47 +0000
Subject: [PATCH 42/61] fix: builds in a src folder wrote the files into that
 folder

---
 src/disseminate/builders/environment.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 96166ed..11e11b9 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -1,6 +1,7 @@
 """
 A build environment to manage and execute builders.
 """
+import os
 import pathlib
 from itertools import chain
 
@@ -117,10 +118,16 @@ class Environment(object):
     @staticmethod
     def get_target_root(project_root):
         """Determine the target_root directory from the project_root."""
-        if project_root.match(settings.document_src_directory):
+        # Relative paths, like '.', may lack the name of the directory
+        if project_root.name in ('', '..'):
+            full_path = pathlib.Path(os.path.abspath(str(project_root)))
+        else:
+            full_path = project_root
+
+        if full_path.match(settings.document_src_directory):
             # If the project_root is in a src directory, use the directory
             # above this directory
-            return TargetPath(target_root=project_root.parent)
+            return TargetPath(target_root=full_path.parent)
         else:
             # Otherwise just use the same directory as the src directory
             return TargetPath(target_root=project_root)
-- 
2.43.0


From c77b3d9ce7bf0c5237471979062483f89084cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 43/61] fix: characters and symbols that xhtml lacks raised
 errors of the xml library

---
 src/disseminate/formats/xhtml.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..2fe99dc 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -153,16 +153,21 @@ def xhtml_tag(name, attributes=None, formatted_content=None, level=1,
 
         # If the tag isn't listed in the 'allowed' tags, just create a span
         # element.
-        e = EM('span', *formatted_content) if formatted_content else E('span')
-    else:
+        name = 'span'
+
+    try:
         e = EM(name, *formatted_content) if formatted_content else E(name)
 
-    # Add the reqs and opts attributes
-    for attrs in (i for i in (reqs, opts, other) if i is not None):
-        for k, v in attrs.items():
-            if v is None:
-                continue
-            e.set(k, v)
+        # Add the reqs and opts attributes
+        for attrs in (i for i in (reqs, opts, other) if i is not None):
+            for k, v in attrs.items():
+                if v is None:
+                    continue
+                e.set(k, v)
+    except ValueError as exc:
+        # ex: control characters
+        msg = "The contents of the tag '{}' cannot be converted to xhtml: {}"
+        raise XHtmlFormatError(msg.format(name, exc))
 
     # Format the tag into a string, if it's the root level
     if level == 1:
-- 
2.43.0


From c15bfe10d169b58b6fbc9a22ab5bf4b9317479da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 44/61] fix: links and images in equations raised assertion
 errors

---
 .../builders/target_builders/receivers.py        | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/target_builders/receivers.py b/src/disseminate/builders/target_builders/receivers.py
index 3c565cd..de8b659 100644
--- a/src/disseminate/builders/target_builders/receivers.py
+++ b/src/disseminate/builders/target_builders/receivers.py
@@ -2,6 +2,7 @@
 Receivers for TargetBuilders
 """
 from ..builder import Builder
+from ..exceptions import BuildError
 from ...signals import signal
 
 add_file = signal('add_file')
@@ -34,15 +35,20 @@ def add_file(parameters, context, in_ext, target, use_cache=False):
         The outfilepath for the file from the build.
     """
     # If not get the outfilepath for the given document target
-    assert context.is_valid('builders')
+    # (There are none before the document is loaded, like in the contents of
+    # an equation.)
+    if not context.is_valid('builders'):
+        raise BuildError("The file '{}' cannot be used "
+                         "here".format(parameters[0] if parameters else ''))
 
     # Retrieve the unspecified arguments
     target = target if target.startswith('.') else '.' + target
 
     # Retrieve builder
     target_builder = context.get('builders', dict()).get(target)
-    assert target_builder, ("A target builder for '{}' is needed in the "
-                            "document context".format(target))
+    if not target_builder:
+        raise BuildError("A target builder for '{}' is needed in the "
+                         "document context".format(target))
 
     build = target_builder.add_build(parameters=parameters,
                                      context=context,
@@ -100,7 +106,9 @@ def find_builder(context, target=None, **kwargs):
     builders : List[:obj:`.builders.target_builders.TargetBuilder`]
         Returns a list of all matching target builders.
     """
-    assert 'builders' in context
+    if 'builders' not in context:
+        raise BuildError("Links to the files of the document cannot be used "
+                         "here")
 
     builders = context['builders']
 
-- 
2.43.0


From 9f80f81c06df310af9edcc8858fe84c5e08c5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 45/61] fix: the latex of equations was parsed again for tags

---
 src/disseminate/tags/eqs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/eqs.py b/src/disseminate/tags/eqs.py
index 05568c6..39b0109 100644
--- a/src/disseminate/tags/eqs.py
+++ b/src/disseminate/tags/eqs.py
@@ -57,6 +57,9 @@ class Eq(Img):
                                  mathmode=True)
         self.content = content.strip(' \t\n')
 
+        # The latex string should not be parsed again with the parent tags
+        self.process_content = False
+
     @property
     def block_equation(self):
         return (self._block_equation or
-- 
2.43.0


From 32b2921da3f30e9b19c6d41a95f3d0d45a6b3c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 46/61] fix: authors with formatting tags were lost or raised
 errors

---
 src/disseminate/tags/preamble.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/preamble.py b/src/disseminate/tags/preamble.py
index 1de8541..f690280 100644
--- a/src/disseminate/tags/preamble.py
+++ b/src/disseminate/tags/preamble.py
@@ -3,6 +3,7 @@ Tags for document preambles.
 """
 from .tag import Tag
 from .headings import Title
+from .utils import format_content
 from ..formats import xhtml_tag
 from ..utils.string import str_to_list
 
@@ -53,12 +54,33 @@ class Authors(Tag):
             else:
                 return ', '.join(others) + ', ' + ' and '.join(last_two)
 
+    def has_tags(self):
+        """True if the authors are given with tags, rather than a list of
+        names."""
+        content = (self.content if isinstance(self.content, list) else
+                   [self.content])
+        return any(isinstance(i, Tag) for i in content)
+
+    def default_fmt(self, *args, **kwargs):
+        if self.has_tags():
+            return super().default_fmt(*args, **kwargs)
+        return self.author_string()
+
     def tex_fmt(self, *args, **kwargs):
+        if self.has_tags():
+            return super().tex_fmt(*args, **kwargs)
         return self.author_string()
 
-    def html_fmt(self, content=None, method='html', level=1, *args, **kwargs):
+    def html_fmt(self, content=None, method='html', level=1,
+                 format_func='html_fmt', *args, **kwargs):
+        if self.has_tags():
+            authors = format_content(content=self.content,
+                                     format_func=format_func,
+                                     method=method, level=level + 1)
+        else:
+            authors = self.author_string()
         return xhtml_tag('span', attributes='class=authors',
-                         formatted_content=self.author_string(),
+                         formatted_content=authors,
                          method=method, level=level)
 
 
-- 
2.43.0


From 9da2ed262efcd13ea8119c90618a7eff28727030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:04 +0000
Subject: [PATCH 47/61] fix: tags in symbols and references raised internal
 errors, unknown symbols made invalid xhtml

---
 src/disseminate/tags/ref.py  |  3 +++
 src/disseminate/tags/text.py | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index ec524e0..2b712e5 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -74,6 +74,9 @@ class Ref(Tag):
 
         super(Ref, self).__init__(name, content, *args, **kwargs)
 
+        # Tags in the content cannot be used for a label id
+        assert_content_str(self.content)
+
         # Set the label_id and doc_id
         self.label_id = self.content.strip()
 
diff --git a/src/disseminate/tags/text.py b/src/disseminate/tags/text.py
index 0acb259..d0bda58 100644
--- a/src/disseminate/tags/text.py
+++ b/src/disseminate/tags/text.py
@@ -250,6 +250,9 @@ class Symbol(Tag):
         super().__init__(name=name, content=content, attributes=attributes,
                          context=context)
 
+        # Tags in the content cannot be used for a symbol
+        assert_content_str(self.content)
+
     def tex_fmt(self, content=None, attributes=None, mathmode=False, level=1,
                 **kwargs):
         content = content if content is not None else self.content
@@ -262,7 +265,12 @@ class Symbol(Tag):
     def html_fmt(self, content=None, attributes=None, method='html', level=1,
                  **kwargs):
         content = content or self.content
-        return xhtml_entity(entity=content, method=method, level=level)
+        try:
+            return xhtml_entity(entity=content, method=method, level=level)
+        except ValueError:
+            # ex: entities with spaces
+            raise TagError("The symbol '{}' is not known in "
+                           "html".format(content))
 
     def xhtml_fmt(self, content=None, attributes=None, method='xml', level=1,
                   **kwargs):
@@ -270,9 +278,13 @@ class Symbol(Tag):
 
         # Convert the entity name to a code point, needed for epub.
         # ex: 'gamma' -> '#947'
-        content = ('#' + str(name2codepoint[content])
-                   if content in name2codepoint else content)
-        return xhtml_entity(entity=content, method=method, level=level)
+        if content in name2codepoint:
+            content = '#' + str(name2codepoint[content])
+        elif not content.startswith('#'):
+            # Xml doesn't know other entities
+            msg = "The symbol '{}' is not known in xhtml"
+            raise TagError(msg.format(content))
+        return self.html_fmt(content=content, method=method, level=level)
 
 
 class Verb(Tag):
-- 
2.43.0


From 8a835171513019f0c911ad3a5087266efdebc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:05 +0000
Subject: [PATCH 48/61] fix: a document used as an image raised a TypeError

---
 src/disseminate/builders/target_builders/receivers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/disseminate/builders/target_builders/receivers.py b/src/disseminate/builders/target_builders/receivers.py
index de8b659..e0c63b0 100644
--- a/src/disseminate/builders/target_builders/receivers.py
+++ b/src/disseminate/builders/target_builders/receivers.py
@@ -4,6 +4,7 @@ Receivers for TargetBuilders
 from ..builder import Builder
 from ..exceptions import BuildError
 from ...signals import signal
+from ... import settings
 
 add_file = signal('add_file')
 find_builder = signal('find_builder')
@@ -50,6 +51,11 @@ def add_file(parameters, context, in_ext, target, use_cache=False):
         raise BuildError("A target builder for '{}' is needed in the "
                          "document context".format(target))
 
+    # Documents have builders too, but these are not for dependencies
+    if in_ext == settings.document_extension:
+        raise BuildError("The document '{}' cannot be used as a "
+                         "file".format(parameters[0] if parameters else ''))
+
     build = target_builder.add_build(parameters=parameters,
                                      context=context,
                                      in_ext=in_ext,
-- 
2.43.0


From c2f1ab864eee27edb45239d9d09f0ef6dba45ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:05 +0000
Subject: [PATCH 49/61] fix: data and code that cannot be read raised errors
 without the file or tag

---
 src/disseminate/tags/code.py |  7 ++++++-
 src/disseminate/tags/data.py | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index 97beb39..a9f716b 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -6,6 +6,7 @@ from markupsafe import Markup
 
 from .tag import Tag
 from .utils import content_to_str
+from .exceptions import TagError
 from ..utils.types import StringPositionalValue
 from ..paths.utils import find_files
 from ..formats import xhtml_tag, tex_verb
@@ -31,7 +32,11 @@ class Code(Tag):
 
         self.infilepaths = files
         if len(files) > 0:
-            new_content = "\n".join([file.read_text() for file in files])
+            try:
+                new_content = "\n".join([file.read_text() for file in files])
+            except UnicodeDecodeError as e:
+                raise TagError("The file '{}' cannot be read as text: "
+                               "{}".format(self.content, e))
             self.content = new_content
 
     @property
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index e15dfaa..f6560d6 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -7,6 +7,7 @@ from collections import OrderedDict
 
 from .tag import Tag
 from .utils import format_content
+from .exceptions import TagError
 from ..utils.list import transpose
 from ..paths.utils import find_files, load_io_stream
 from ..formats.xhtml import xhtml_tag
@@ -153,15 +154,24 @@ class DelimData(Data):
             if isinstance(filepath_or_buffer, str):
                 self.infilepaths = find_files(filepath_or_buffer,
                                               context=self.context)
-            stream = load_io_stream(filepath_or_buffer, context=self.context)
+            try:
+                stream = load_io_stream(filepath_or_buffer,
+                                        context=self.context)
+            except UnicodeDecodeError as e:
+                raise TagError("The file '{}' cannot be read as text: "
+                               "{}".format(filepath_or_buffer, e))
 
             # Parse the csv data.
             # rows is a len(rows) list of len(cols) lists
             csv_reader = csv.reader(stream, delimiter=delimiter,
                                     skipinitialspace=self.skipinitialspace)
             # Skip blank lines, which are not rows.
-            rows = [row for row in csv_reader
-                    if len(row) > 1 or (row and row[0].strip())]
+            try:
+                rows = [row for row in csv_reader
+                        if len(row) > 1 or (row and row[0].strip())]
+            except csv.Error as e:
+                raise TagError("The data of the tag '{}' cannot be read: "
+                               "{}".format(self.name, e))
 
             # Use the first row as the column names, if available
             headers = None
-- 
2.43.0


From b9f489a739bfb9bbb9cd7b8b15b92c560f2c0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:48 +0000
Subject: [PATCH 50/61] fix: links to documents whose targets changed were not
 updated

---
 src/disseminate/builders/jinja_render.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index fded41c..0849be6 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -214,6 +214,7 @@ class JinjaRender(Builder):
             dependencies += context_values(context,
                                            exclude=self.exclude_values)
             dependencies += context_labels(context)
+            dependencies += context_targets(context)
 
         if self.file_builder is not None:
             # add the files that were built for the last render
@@ -487,3 +488,26 @@ def context_labels(context):
     label_manager = context.get('label_manager', None)
     return (list(label_manager.get_labels_by_kind())
             if label_manager is not None else [])
+
+
+def context_targets(context):
+    """Return the targets of the documents in a project, because references
+    only link to documents with the same target.
+
+    Parameters
+    ----------
+    context : :obj:`.context.BaseContext`
+        The context dict for the document being rendered.
+
+    Returns
+    -------
+    targets : List[Tuple[str, str]]
+        A list of document ids and their targets.
+    """
+    root_document = getattr(context, 'root_document', None)
+    if root_document is None:
+        return []
+    docs = root_document.documents_list(only_subdocuments=False,
+                                        recursive=True)
+    return [(doc.doc_id, ' '.join(sorted(doc.context.targets)))
+            for doc in docs]
-- 
2.43.0


From 7dc0121870f08d7bdd9591bf960644093423cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:17 +0000
Subject: [PATCH 51/61] fix: authors of @author were shown without separators

---
 src/disseminate/tags/preamble.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/tags/preamble.py b/src/disseminate/tags/preamble.py
index f690280..13b2332 100644
--- a/src/disseminate/tags/preamble.py
+++ b/src/disseminate/tags/preamble.py
@@ -26,9 +26,12 @@ class Authors(Tag):
                       context.get('authors', ''))
             self.content = author
 
-        # Convert the author string to a list
-        if isinstance(self.content, str):
-            self.content = str_to_list(self.content)
+        # Convert a list of authors to a string, because the strings in the
+        # list are otherwise joined without separators when the content of
+        # this tag is processed
+        if (isinstance(self.content, list) and
+           all(isinstance(i, str) for i in self.content)):
+            self.content = '; '.join(self.content)
 
     def author_string(self):
         """Generate a formatted string listing the authors."""
-- 
2.43.0


From 0759538bfe13c5494ff3eee8b58d3f2e33477470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:22 +0000
Subject: [PATCH 52/61] fix: after an error in the update of the document tree,
 later builds raised internal errors

---
 src/disseminate/builders/environment.py | 3 +++
 src/disseminate/document/document.py    | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/environment.py b/src/disseminate/builders/environment.py
index 11e11b9..230e563 100644
--- a/src/disseminate/builders/environment.py
+++ b/src/disseminate/builders/environment.py
@@ -268,5 +268,8 @@ class Environment(object):
         status : str
             The current status of the build.
         """
+        # The target builders are only complete if the documents are loaded
+        self.root_document.load()
+
         root_builder = self.create_root_builder()
         return root_builder.build(complete=complete)
diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 605ede8..557af1e 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -410,7 +410,12 @@ class Document(object):
         # document) was reloaded
         if document_loaded and level == 1:
             root_document = self.context.root_document
-            signals.document_tree_updated.emit(root_document=root_document)
+            try:
+                signals.document_tree_updated.emit(root_document=root_document)
+            except Exception:
+                # The update isn't complete. Repeat it in the next load.
+                root_document._succesfully_loaded = False
+                raise
 
         return document_loaded
 
-- 
2.43.0


From a431c9dda38a8882727ba7a912bf4843464260ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:27 +0000
Subject: [PATCH 53/61] fix: links of the document listing were not quoted

---
 src/disseminate/templates/server/tree_item.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/templates/server/tree_item.html b/src/disseminate/templates/server/tree_item.html
index 8ef5a57..0bb80fb 100644
--- a/src/disseminate/templates/server/tree_item.html
+++ b/src/disseminate/templates/server/tree_item.html
@@ -2,11 +2,11 @@
 <tr class="level-{{ doc['level'] }}">
   <td class="num">{{ doc['level'] }}-{{ doc['number'] }}</td>
   <td class="src">
-    <a href="/{{ doc['src_filepath'] }}">{{ doc['src_filepath'].subpath }}</a>
+    <a href="/{{ url_escape(str(doc['src_filepath']), plus=False) }}">{{ doc['src_filepath'].subpath }}</a>
   </td>
   <td class="tgt">
     {% if doc['targets'] %}
-      ({% for i, (target, link) in enumerate(doc['targets'].items()) %}<a href="{{ link }}">{{ target.replace('.', '') }}</a>{% if i < len(doc['targets']) - 1 %}, {% end %}{% end %})
+      ({% for i, (target, link) in enumerate(doc['targets'].items()) %}<a href="{{ url_escape(str(link), plus=False) }}">{{ target.replace('.', '') }}</a>{% if i < len(doc['targets']) - 1 %}, {% end %}{% end %})
     {% end %}
   </td>
   <td class="date">
-- 
2.43.0


From 429429462acd2365883efd479f741c84d0bb3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 54/61] fix: edited files were reported as not modified by the
 preview server

---
 src/disseminate/server/app.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disseminate/server/app.py b/src/disseminate/server/app.py
index 1ece965..67c08b4 100644
--- a/src/disseminate/server/app.py
+++ b/src/disseminate/server/app.py
@@ -21,6 +21,8 @@ def get_app(in_path, out_dir, debug=False, **kwargs):
     """Create the Tornado app instance"""
     app = TornadoApp(in_path=in_path, out_dir=out_dir, debug=debug,
                      template_path=server_template_path,
+                     # The files change, so their hashes cannot be kept
+                     static_hash_cache=False,
                      default_handler_class=ServerHandler)
     return app
 
-- 
2.43.0


From 34e76dc5a836622fd7c54d58c4de0496fa8d80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 55/61] fix: no page was shown when a document could not be
 loaded or built

---
 src/disseminate/server/handlers/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/server/handlers/server.py b/src/disseminate/server/handlers/server.py
index 199dc3d..42f70af 100644
--- a/src/disseminate/server/handlers/server.py
+++ b/src/disseminate/server/handlers/server.py
@@ -23,10 +23,14 @@ class ServerHandler(RequestHandler):
     """A request handler for server functions"""
 
     def initialize(self, reload_projects=False, *args, **kwargs):
-        if reload_projects:
-            load_projects(self.application)
+        self.reload_projects = reload_projects
         super().initialize(*args, **kwargs)
 
+    def prepare(self):
+        # Errors raised here, unlike in initialize, are shown as error pages
+        if self.reload_projects:
+            load_projects(self.application)
+
     def set_default_headers(self):
         # Disable mimetype sniffing/guessing to allow viewing of plain/text
         self.set_header('X-Content-Type-Options', 'nosniff')
-- 
2.43.0


From 5997f59402073af34c38e7849d9ec2eb643ff450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 56/61] fix: sources outside of the current directory were
 served, and missing ones were internal errors

---
 src/disseminate/server/handlers/pygmentize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 3381b2a..a5b5bc6 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from pygments import highlight
 from pygments.lexers import get_lexer_for_filename
 from pygments.formatters import HtmlFormatter
+from tornado.web import HTTPError
 
 from .server import ServerHandler
 
@@ -14,6 +15,13 @@ class PygmentizeHandler(ServerHandler):
     """A handler to pygmentize source files"""
 
     def get(self, path):
+        # Only show existing files in the current directory
+        source_path = Path(path)
+        if source_path.is_absolute() or '..' in source_path.parts:
+            raise HTTPError(403)
+        if not source_path.is_file():
+            raise HTTPError(404)
+
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
 
@@ -21,6 +29,6 @@ class PygmentizeHandler(ServerHandler):
         formatter = HtmlFormatter(linenos=True, cssclass="source", full=True)
 
         # Source file
-        code = Path(path).read_text()
+        code = source_path.read_text()
 
         self.write(highlight(code, lexer, formatter))
-- 
2.43.0


From 52e2def54287ef1fe11ba66d9669b94557a74e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 57/61] fix: no page was shown for errors of conversion
 programs

---
 src/disseminate/templates/server/500.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/templates/server/500.html b/src/disseminate/templates/server/500.html
index bda2487..d99f541 100644
--- a/src/disseminate/templates/server/500.html
+++ b/src/disseminate/templates/server/500.html
@@ -31,9 +31,9 @@
     <h4>Return code</h4>
     <div class="subbox">{{ exc.returncode }}</div>
     <h4>Shell output</h4>
-    <div class="subbox">{{ exc.shell_out | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% raw escape(str(exc.shell_out)).replace("\n", "<br/>") %}</div>
     <h4>Shell error</h4>
-    <div class="subbox">{{ exc.shell_err | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% raw escape(str(exc.shell_err)).replace("\n", "<br/>") %}</div>
   </div>
   {% end %}
 {% end %}
\ No newline at end of file
-- 
2.43.0


From 05dcbba5808d1b8e774cd73da4e255d709f8018f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 58/61] fix: labels with quotes or dashes in their names could
 not be found by references

---
 src/disseminate/tags/ref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 2b712e5..32d1a8e 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -65,6 +65,7 @@ class Ref(Tag):
     """
 
     active = True
+    process_typography = False  # the content is the id of a label
 
     doc_id = None
     label_id = None
-- 
2.43.0


From 19504a4d2c3a77cf16b41e3420e2ad0c677f4c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:54 +0000
Subject: [PATCH 59/61] fix: shared style sheets of the preview server were
 refused

---
 src/disseminate/server/handlers/__init__.py | 4 +++-
 src/disseminate/server/handlers/server.py   | 4 ++++
 src/disseminate/server/urls.py              | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/server/handlers/__init__.py b/src/disseminate/server/handlers/__init__.py
index eb7b23f..02eb9b4 100644
--- a/src/disseminate/server/handlers/__init__.py
+++ b/src/disseminate/server/handlers/__init__.py
@@ -1,4 +1,5 @@
-from .server import ServerHandler, server_template_path, server_static_path
+from .server import (ServerHandler, server_template_path, server_static_path,
+                     shared_static_path)
 from .tree import TreeHandler
 from .checkers import CheckerHandler
 from .signals import SignalHandler
@@ -6,5 +7,6 @@ from .pygmentize import PygmentizeHandler
 from .static import CustomStaticFileHandler
 
 __all__ = ('ServerHandler', 'server_template_path', 'server_static_path',
+           'shared_static_path',
            'TreeHandler', 'CheckerHandler', 'SignalHandler',
            'PygmentizeHandler', 'CustomStaticFileHandler')
diff --git a/src/disseminate/server/handlers/server.py b/src/disseminate/server/handlers/server.py
index 42f70af..e936820 100644
--- a/src/disseminate/server/handlers/server.py
+++ b/src/disseminate/server/handlers/server.py
@@ -18,6 +18,10 @@ server_template_path = (Path(__file__).parent.parent.parent / 'templates' /
                         'server')
 server_static_path = server_template_path / 'media'
 
+# Style sheets shared with the documents (linked in the server_static_path)
+shared_static_path = (server_template_path.parent / 'default' / 'html' /
+                      'media')
+
 
 class ServerHandler(RequestHandler):
     """A request handler for server functions"""
diff --git a/src/disseminate/server/urls.py b/src/disseminate/server/urls.py
index 7d9b52b..10c8867 100644
--- a/src/disseminate/server/urls.py
+++ b/src/disseminate/server/urls.py
@@ -5,13 +5,16 @@ from tornado.web import url
 
 from .handlers import (TreeHandler, CheckerHandler, SignalHandler,
                        CustomStaticFileHandler, PygmentizeHandler,
-                       server_static_path)
+                       server_static_path, shared_static_path)
 
 
 url_patterns = [
     url(r"/", TreeHandler, name="tree"),
     url(r"/checkers", CheckerHandler, name="checkers"),
     url(r"/signals", SignalHandler, name="signals"),
+    # These are links to other directories, which static handlers may refuse
+    url(r"/media/(css/(?:base|bootstrap\.min)\.css)", CustomStaticFileHandler,
+        {'path': shared_static_path}),
     url(r"/media/(.*)", CustomStaticFileHandler, {'path': server_static_path}),
     url(r"/(.*\.dm)", PygmentizeHandler, name='disseminate_source'),
     url(r"/(.*\.tex)", PygmentizeHandler, name='latex_source',
-- 
2.43.0


From 3194338b3633523e241f1c7b9b0c3424ecfc1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:57 +0000
Subject: [PATCH 60/61] fix: typography characters in the ids of labels were
 converted in tex

---
 src/disseminate/tags/label.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/label.py b/src/disseminate/tags/label.py
index b0affda..dedf5b1 100644
--- a/src/disseminate/tags/label.py
+++ b/src/disseminate/tags/label.py
@@ -187,6 +187,9 @@ class LabelAnchor(Tag):
     tex_cmd = 'label'
     html_name = 'span'
 
+    #: The content is the id of a label
+    process_typography = False
+
     def __init__(self, *args, content, **kwargs):
         # Set the label_id from the content
         assert_content_str(content)
-- 
2.43.0


From 5267af739f01e5bb12e1c90bb2536f4e2e59460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:45 +0000
Subject: [PATCH 61/61] fix: verbatim text with |, ! and ^ was put into tex as
 markup

The contents of verbatim and code tags that hold all of the three delimiters
of \verb were written to tex without the command, and were run as LaTeX.
Use other delimiters in this case.
---
 src/disseminate/formats/tex.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..41c2fa1 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -197,10 +197,8 @@ def tex_verb(formatted_content):
     """
     assert isinstance(formatted_content, str)
 
-    if '|' not in formatted_content:
-        return "\\verb|" + formatted_content + "|"
-    elif '!' not in formatted_content:
-        return "\\verb!" + formatted_content + "!"
-    elif '^' not in formatted_content:
-        return "\\verb^" + formatted_content + "^"
+    # Use the first delimiter that is not in the contents
+    for delim in "|!^+=/:;?,.\"'`()<>[]-@&~_$#%0123456789":
+        if delim not in formatted_content:
+            return "\\verb" + delim + formatted_content + delim
     return formatted_content
-- 
2.43.0

