From 0427faa03afc3b19a2aa59dc4accddb033273a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 01/27] fix: merging bytes must not put str into conflict
 fragments

The empty side of a conflict was always "", so that joining the
fragments of a bytes merge raised TypeError.
---
 src/gaspra/merge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 5598fa0..183c5ed 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -165,9 +165,9 @@ def flush_remaining(fragments0, fragments1, within_conflict):
     remaining = fragments0 or fragments1
     for item in reversed(remaining):
         if within_conflict and remaining == fragments0:
-            yield ConflictFragment(item.insert, "")
+            yield ConflictFragment(item.insert, item.insert[0:0])
         elif within_conflict:
-            yield ConflictFragment("", item.insert)
+            yield ConflictFragment(item.insert[0:0], item.insert)
         else:
             yield item
 
@@ -203,8 +203,8 @@ def pending_conflict(fragment0: InputType, fragment1: InputType):
     head0, tail0 = split_fragment(fragment0, min_length)
     head1, tail1 = split_fragment(fragment1, min_length)
 
-    from0 = head0.insert if head0 else ""
-    from1 = head1.insert if head1 else ""
+    from0 = head0.insert if head0 else fragment0.insert[0:0]
+    from1 = head1.insert if head1 else fragment1.insert[0:0]
 
     output = ConflictFragment(from0, from1)
     return output, tail0, tail1
-- 
2.43.0


From bb7d4d8cab8d97362fe380a51e0bef1c58b01beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 02/27] fix: keep conflict sides in branch order when branch 1
 has the longer change

copy_change() puts the text of the changed branch first.  When the
change was on the second branch the two sides ended up swapped, which
attributed text to the wrong branch and could even make a real conflict
vanish, e.g. parent "cb", branches "cc" and "" merged to "c".
---
 src/gaspra/merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index 183c5ed..df220eb 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -187,6 +187,9 @@ def process_fragments(fragment0, fragment1, within_conflict: bool):
 
     elif isinstance(fragment0, CopyFragment) and isinstance(fragment1, ChangeFragment):
         output, tail0, tail1 = copy_change(fragment0, fragment1)
+        # copy_change() puts the change first, but here it's on branch 1.
+        if isinstance(output, ConflictFragment):
+            output = ConflictFragment(output.version2, output.version1)
 
     elif isinstance(fragment0, ChangeFragment) and isinstance(fragment1, CopyFragment):
         output, tail1, tail0 = copy_change(fragment1, fragment0)
-- 
2.43.0


From e13ee1c0ff11a1af892dbc6a67c3b049e349b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 03/27] fix: LineTokenizer must not emit an empty token after
 the last newline

An extra empty token at the end of every newline-terminated fragment
shifted the slices of later changesets, so Versions using LineTokenizer
returned corrupted versions.
---
 src/gaspra/tokenizers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 357cb8b..a409e8d 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -148,7 +148,10 @@ class LineTokenizer(Generic[BytesOrStr]):
             split_on = cast(BytesOrStr, "\n")
 
         split = cast(list[BytesOrStr], contents.split(split_on))
-        lines = [*(line + split_on for line in split[:-1]), split[-1]]
+        lines = [line + split_on for line in split[:-1]]
+        # What follows the last newline is a line only if it's not empty.
+        if split[-1]:
+            lines.append(split[-1])
         encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
         return encoded
 
-- 
2.43.0


From 07b22e7c3a79a904b268fe6906714904d73cf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 04/27] fix: don't share one default tokenizer between all
 calls of diff() and merged()

A tokenizer remembers the type it has seen, so that diff() on str made
every later diff() on bytes or tokens raise RuntimeError.
---
 src/gaspra/tokenizers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index a409e8d..2cfad99 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -229,13 +229,16 @@ def decode_and_line_diff_changes(
     yield from to_line_diff(decoded_and_transformed)
 
 
-def diff(original, modified, tokenizer: Tokenizer = NullTokenizer()):
+def diff(original, modified, tokenizer: Tokenizer | None = None):
     """
     High level diff() call that optionally encodes the sequences to be
     compared, compares the sequences, decodes, and transforms the
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_original = tokenizer.encode(original)
     encoded_modified = tokenizer.encode(modified)
 
@@ -248,7 +251,7 @@ def merged(
     parent,
     current,
     other,
-    tokenizer: Tokenizer = NullTokenizer(),
+    tokenizer: Tokenizer | None = None,
     transformer=lambda _: _,
 ):
     """
@@ -257,6 +260,9 @@ def merged(
     result.  This is the diff() function for most use cases.
 
     """
+    if tokenizer is None:
+        tokenizer = NullTokenizer()
+
     encoded_parent = tokenizer.encode(parent)
     encoded_current = tokenizer.encode(current)
     encoded_other = tokenizer.encode(other)
-- 
2.43.0


From 01a0724f447ade7b0fb61040ef65320a2bf00e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 05/27] fix: merged() always raised TypeError

merged() passes a transformation to decode_changes(), which documents an
optional function applied to the result but had no such argument.
---
 src/gaspra/tokenizers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 2cfad99..0dd3420 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -203,22 +203,24 @@ class SymbolTokenizer(Generic[BytesOrStr]):
         return generic_decode(contents, self.decoding, cast(BytesOrStr, joiner))
 
 
-def decode_changes(changes: DiffIterable, tokenizer: Tokenizer) -> DiffIterable:
+def decode_changes(
+    changes: DiffIterable, tokenizer: Tokenizer, transform=lambda _: _
+) -> DiffIterable:
     """
     Decode a changeset.  Changesets are first computed on token stream.
     This function decodes each token in a Changeestto a str or a bytes
     object.
 
-    It also applies an optional function escape() to the result.
+    It also applies an optional function transform() to the result.
     """
     for change in changes:
         if isinstance(change, Change):
             yield Change(
-                tokenizer.decode(change.a),
-                tokenizer.decode(change.b),
+                transform(tokenizer.decode(change.a)),
+                transform(tokenizer.decode(change.b)),
             )
         else:
-            yield tokenizer.decode(change)
+            yield transform(tokenizer.decode(change))
 
 
 def decode_and_line_diff_changes(
-- 
2.43.0


From b99e03669efe66b96803e5bc0c73cb341e51b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 06/27] fix: -s/--strikeout crashed on every deletion

The strikeout styles were functions where a prefix/suffix dictionary is
needed.  They were also assigned into the module's own style tables, so
that they leaked into every later use; copy the tables first.  Git
conflict markers have no color, so strikeout doesn't apply to them.
---
 src/gaspra/markup.py     | 13 ++++++++-----
 src/gaspra/merge_tool.py | 14 +++++++-------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 29a9af6..3946e82 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -38,12 +38,15 @@ COLORED_LEVEL1 = {
 }
 
 
-def strikeout_level0() -> str:
-    return "[dark_red strike]"
-
+STRIKEOUT_LEVEL0 = {
+    "prefix": lambda _: "[dark_red strike]",
+    "suffix": lambda _: "[/]",
+}
 
-def strikeout_level1() -> str:
-    return "[pink1 strike]"
+STRIKEOUT_LEVEL1 = {
+    "prefix": lambda _: "[pink1 strike]",
+    "suffix": lambda _: "[/]",
+}
 
 
 def show_header(print, header, markup={}):
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 2b3f55d..9d5a86b 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -9,8 +9,8 @@ from gaspra.markup import (
     COLORED_LEVEL0,
     PLAIN_LEVEL1,
     COLORED_LEVEL1,
-    strikeout_level0,
-    strikeout_level1,
+    STRIKEOUT_LEVEL0,
+    STRIKEOUT_LEVEL1,
     markup_changes,
 )
 
@@ -152,13 +152,13 @@ def get_markup_style(arguments, allow_strikeout=True):
     else:
         level1 = COLORED_LEVEL1
 
-    markup = {"level0": level0, "level1": level1}
+    markup = copy.deepcopy({"level0": level0, "level1": level1})
 
-    if arguments.strikeout and allow_strikeout:
-        markup["level0"]["from"] = strikeout_level0
-        markup["level1"]["from"] = strikeout_level1
+    if arguments.strikeout and allow_strikeout and not arguments.git_compatible:
+        markup["level0"]["from"] = STRIKEOUT_LEVEL0
+        markup["level1"]["from"] = STRIKEOUT_LEVEL1
 
-    return copy.deepcopy(markup)
+    return markup
 
 
 def get_writer(arguments):
-- 
2.43.0


From 83b2d316651342a8e886b239fc4801cf09c9ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 07/27] fix: don't let rich wrap the text written to the
 console

Lines longer than the console (80 columns when redirected) had line
breaks inserted into them, which changes the text being shown.
---
 src/gaspra/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 3946e82..7b0c3d2 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -70,7 +70,7 @@ def console_writer():
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-        console.print(s, end="")
+        console.print(s, end="", soft_wrap=True)
 
     yield print, rich_escape
     return
-- 
2.43.0


From 34cd7006d78528dd5d43f79ed576565d193a98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 08/27] fix: show backslashes, brackets and emoji codes on the
 console as they are

A backslash before a bracket or at the end of a change undid the
escaping, so that text was taken for markup (or markup for text), and
text like ":smile:" was replaced by an emoji.
---
 src/gaspra/markup.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 7b0c3d2..bcba56d 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -2,12 +2,21 @@ from contextlib import contextmanager
 import io
 
 from rich.console import Console
+from rich.text import Text
 
 from gaspra.types import Change
 
 
+# Brackets and backslashes are special to rich's markup, and whether they
+# need an escape depends on what's next to them, which isn't known when a
+# fragment gets escaped.  Hide them behind Unicode noncharacters until
+# the markup has been parsed.
+RICH_HIDE = str.maketrans("[\\", "\ufdd0\ufdd1")
+RICH_UNHIDE = str.maketrans("\ufdd0\ufdd1", "[\\")
+
+
 def rich_escape(s):
-    return s.replace("[", r"\[")
+    return s.translate(RICH_HIDE)
 
 
 COLORED_LEVEL0 = {
@@ -70,7 +79,9 @@ def console_writer():
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-        console.print(s, end="", soft_wrap=True)
+        text = Text.from_markup(s, emoji=False)
+        text.plain = text.plain.translate(RICH_UNHIDE)
+        console.print(text, end="", soft_wrap=True)
 
     yield print, rich_escape
     return
-- 
2.43.0


From bd664667edff6a8196b25431769c64fc372dfe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 09/27] fix: keep the line endings of the files being diffed or
 merged

Reading with universal newlines turned CRLF and CR into LF, so that a
merged file written with -o had different line endings than its inputs,
and changes of line endings were neither shown nor merged.
---
 src/gaspra/markup.py     | 2 +-
 src/gaspra/merge_tool.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index bcba56d..5f282ef 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -68,7 +68,7 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8")
+    file = open(filename, "wt", encoding="utf-8", newline="")
 
     yield file.write, lambda _: _
     file.close()
diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 9d5a86b..d187bc8 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -281,11 +281,11 @@ def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
     for filename in filenames:
         try:
-            with open(filename, "rt", encoding="utf-8") as f:
+            with open(filename, "rt", encoding="utf-8", newline="") as f:
                 data.append(f.read())
 
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1") as f:
+            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
                 data.append(f.read())
 
     return tuple(data)
-- 
2.43.0


From 5d874b12295e1a8273064776509c1b3ee0f0af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 10/27] fix: don't add a blank line to the side of a conflict
 that has its newline

When a line diff ended in a conflict and one side lacked its final
newline, a newline was added to both sides.
---
 src/gaspra/diff_to_lines.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/gaspra/diff_to_lines.py b/src/gaspra/diff_to_lines.py
index 7218d1a..255afdd 100644
--- a/src/gaspra/diff_to_lines.py
+++ b/src/gaspra/diff_to_lines.py
@@ -72,8 +72,9 @@ class DiffAccumulator:
 
     def flush(self):
         if self.in_conflict:
-            tail = "" if self.finishable else "\n"
-            yield from self.finish_conflict(tail)
+            finish_last_line(self.partial_line_into, 0)
+            finish_last_line(self.partial_line_from, 1)
+            yield from self.finish_conflict("")
 
         elif self.partial_line_from and self.partial_line_from[0]:
             # If not in a conflict, partial_line_into should be exactly
@@ -83,6 +84,15 @@ class DiffAccumulator:
             yield "".join(self.partial_line_from)  # type: ignore
 
 
+def finish_last_line(partial_line, side):
+    """Add a missing newline to one side of an unfinished conflict."""
+    text = "".join(
+        item[side] if isinstance(item, Change) else item for item in partial_line
+    )
+    if text and not text.endswith("\n"):
+        partial_line.append("\n")
+
+
 def to_line_diff(fragment_sequence: DiffIterable):
     accumulator = DiffAccumulator()
     empty = True
-- 
2.43.0


From 78f808373ed575f9d89329c29ed4f39c0a360935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 11/27] fix: add_manifest() raised KeyError for a file that its
 base doesn't have

---
 src/gaspra/manifest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gaspra/manifest.py b/src/gaspra/manifest.py
index c6400f2..43cae2e 100644
--- a/src/gaspra/manifest.py
+++ b/src/gaspra/manifest.py
@@ -24,7 +24,7 @@ def add_manifest(
             versions.add(
                 tag,
                 contents[tag],
-                base_manifest[name] if base_manifest is not None else None,
+                base_manifest.get(name) if base_manifest is not None else None,
             )
 
     manifest_doc = manifest_to_doc(manifest)
-- 
2.43.0


From a3fbd119b17132679b8d20bf8248fb5fcc9a57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 12/27] fix: Versions.add() failed when its base was no longer
 a head

Two versions (or two files of a manifest) having the same base, or a file
going back to an earlier version, made the next add() raise KeyError
after it had half-added the new version.  Begin a new branch instead.
---
 src/gaspra/versions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 987b5bd..c6cabd0 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -32,9 +32,16 @@ class Versions:
     tokenizer_factory: Callable[[], Tokenizer] = NullTokenizer
 
     def add(self, tag: Hashable, version: bytes, existing_head: Hashable | None = None):
+        if existing_head is not None and existing_head not in self.tree:
+            raise KeyError(existing_head)
+
         self.head_version[tag] = version
         self.tree.add(tag, existing_head)
 
+        # If existing_head isn't a head any more, `tag` begins a new branch.
+        if existing_head not in self.head_version:
+            existing_head = None
+
         # Find the best split best split among the descendants of existing_head.
         if existing_head is not None:
             split, path_to_split = self.tree.get_split(existing_head)
-- 
2.43.0


From fee6dcc0c790887074e4ac55de0b6f0ad02439b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 13/27] fix: DBCollection lacked the rest of the MutableMapping
 interface

Versions takes MutableMappings, and its version_info() uses get(), which
raised AttributeError on a DBCollection.
---
 src/gaspra/db_collections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/db_collections.py b/src/gaspra/db_collections.py
index e0bc021..0f81210 100644
--- a/src/gaspra/db_collections.py
+++ b/src/gaspra/db_collections.py
@@ -1,3 +1,4 @@
+from collections.abc import MutableMapping
 from typing import Callable
 
 from sqlite3 import Connection
@@ -34,7 +35,7 @@ FROM {table}
 """
 
 
-class DBCollection:
+class DBCollection(MutableMapping):
     table: str
     connection_factory: Callable[[], Connection]
 
-- 
2.43.0


From a9b1cdc01249af9954d7be19f5c5f0119315282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 14/27] fix: tuple tokens could be confused with separators

Separator(0) compared equal to a token (0,), so that the multiple-string
find_lcs() matched tokens with the ends of strings.
---
 src/gaspra/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/types.py b/src/gaspra/types.py
index 0234675..62811dd 100644
--- a/src/gaspra/types.py
+++ b/src/gaspra/types.py
@@ -1,5 +1,6 @@
 from collections.abc import Hashable, Iterable, Sequence
 from collections import namedtuple
+from dataclasses import dataclass
 from typing import TypeVar
 
 Token = Hashable
@@ -13,10 +14,17 @@ StringIterable = Iterable[str]
 BytesIterable = Iterable[bytes]
 TokenSequenceIterable = Iterable[TokenSequence]
 
-Separator = namedtuple("Separator", "index")
 Change = namedtuple("Change", ["a", "b"])
 CommonSlice = namedtuple("Common", ["a_slice", "b_slice"])
 
+
+# A Separator must never compare equal to a token.  It isn't a named
+# tuple because those are equal to plain tuples.
+@dataclass(frozen=True)
+class Separator:
+    index: int
+
+
 # ChangeIterable is agnostic about direction.  It can be used to
 # apply changes in either direction.
 ChangeIterable = Iterable[CommonSlice | Change]
-- 
2.43.0


From 051957db32c45b1964dc26c7784df40d5d853d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 15/27] fix: diffs and merges with many changes exceeded the
 recursion limit

Changesets were found and traversed recursively.  When their matches
have similar lengths (e.g. every other line of a file was edited) the
recursion is as deep as there are changes, so that about 1,000 of them
raised RecursionError.
---
 src/gaspra/changesets.py | 101 ++++++++++++++++++++++++++++++---------
 1 file changed, 79 insertions(+), 22 deletions(-)

diff --git a/src/gaspra/changesets.py b/src/gaspra/changesets.py
index 9704f5b..6800f28 100644
--- a/src/gaspra/changesets.py
+++ b/src/gaspra/changesets.py
@@ -106,6 +106,24 @@ class Changeset:
     prefix: Changeset | ChangesetLeaf
     suffix: Changeset | ChangesetLeaf
 
+    def _in_order(self) -> Iterable[Changeset | ChangesetLeaf]:
+        """Walk the tree from left to right.
+
+        The depth of the tree may be the number of changes, which can be
+        much larger than the recursion limit, so don't use recursion."""
+        pending: list[Changeset | ChangesetLeaf] = []
+        node = self
+        while True:
+            while isinstance(node, Changeset):
+                pending.append(node)
+                node = node.prefix
+            yield node
+            if not pending:
+                return
+            node = pending.pop()
+            yield node
+            node = node.suffix
+
     def _stream(
         self, original: str | TokenSequence
     ) -> Iterable[ChangeFragment | CopyFragment]:
@@ -114,10 +132,12 @@ class Changeset:
         # Construction of the tree creates "empty" changesets.  Omit
         # those from the output stream.
 
-        yield from self.prefix._stream(original)
-        copy = original[self.common_original]
-        yield CopyFragment(insert=copy, length=len(copy))
-        yield from self.suffix._stream(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                copy = original[node.common_original]
+                yield CopyFragment(insert=copy, length=len(copy))
+            else:
+                yield from node._stream(original)
 
     def as_change_stream(self) -> ChangeIterable:
         """Produce a simple output stream containing changes.
@@ -128,9 +148,11 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_change_stream()
-        yield CommonSlice(self.common_original, self.common_modified)
-        yield from self.suffix.as_change_stream()
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield CommonSlice(node.common_original, node.common_modified)
+            else:
+                yield from node.as_change_stream()
 
     def as_diff_stream(self, original: str | TokenSequence) -> DiffIterable:
         """Produce a simpler output stream than _stream() suitable
@@ -141,19 +163,25 @@ class Changeset:
         different.  The simpler objects can returned to a caller without
         exposing the Change tree implementation."""
 
-        yield from self.prefix.as_diff_stream(original)
-        yield original[self.common_original]
-        yield from self.suffix.as_diff_stream(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield original[node.common_original]
+            else:
+                yield from node.as_diff_stream(original)
 
     def old_apply_forward(self, original: str | TokenSequence):
-        yield from self.prefix.old_apply_forward(original)
-        yield original[self.common_original]
-        yield from self.suffix.old_apply_forward(original)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield original[node.common_original]
+            else:
+                yield from node.old_apply_forward(original)
 
     def old_apply_reverse(self, modified: str | TokenSequence):
-        yield from self.prefix.old_apply_reverse(modified)
-        yield modified[self.common_modified]
-        yield from self.suffix.old_apply_reverse(modified)
+        for node in self._in_order():
+            if isinstance(node, Changeset):
+                yield modified[node.common_modified]
+            else:
+                yield from node.old_apply_reverse(modified)
 
     # Exclude __str__ from coverage because it's only used for debugging.
     def __str__(self):  # pragma: no cover
@@ -216,6 +244,39 @@ def find_changeset(
     original_slice: slice = slice(0, None),
     modified_slice: slice = slice(0, None),
 ) -> Changeset | ChangesetLeaf:
+    # The depth of the tree may be the number of changes, which can be
+    # much larger than the recursion limit, so don't use recursion.
+    # Instead, keep a stack of the prefixes and suffixes still to be found.
+    root = find_common(original, modified, original_slice, modified_slice)
+    pending = [root]
+
+    while pending:
+        changeset = pending.pop()
+        if isinstance(changeset, Changeset):
+            original_slice, modified_slice = changeset.prefix
+            changeset.prefix = find_common(
+                original, modified, original_slice, modified_slice
+            )
+            original_slice, modified_slice = changeset.suffix
+            changeset.suffix = find_common(
+                original, modified, original_slice, modified_slice
+            )
+            pending.append(changeset.prefix)
+            pending.append(changeset.suffix)
+
+    return root
+
+
+def find_common(
+    original: TokenSequence,
+    modified: TokenSequence,
+    original_slice: slice,
+    modified_slice: slice,
+) -> Changeset | ChangesetLeaf:
+    """Make the node of the changeset tree for a pair of slices.
+
+    The prefix and suffix of a Changeset made here are the pairs of
+    slices that find_changeset() is going to replace with their trees."""
     automaton_original = build(original[original_slice])
 
     common_offset_original, common_offset_modified, common_length = find_lcs(
@@ -239,15 +300,11 @@ def find_changeset(
             modified_slice.start + common_offset_modified + common_length,
         )
 
-        prefix = find_changeset(
-            original,
-            modified,
+        prefix = (
             slice(original_slice.start, common_original.start),
             slice(modified_slice.start, common_modified.start),
         )
-        suffix = find_changeset(
-            original,
-            modified,
+        suffix = (
             slice(common_original.stop, original_slice.stop),
             slice(common_modified.stop, modified_slice.stop),
         )
-- 
2.43.0


From 2821befee2229aa13019c41f1c8c2c9723612558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 16/27] fix: merge must not move an insertion to the other
 branch's side of a conflict

An insertion on one branch at the start of a deletion on the other was
made part of the deletion.  When the deletion then turned out to
conflict, the inserted text was shown as belonging to the branch that
didn't insert it, e.g. parent "ab", branches "" and "xa" merged to
("x", "a") instead of "x", ("", "a").
---
 src/gaspra/merge.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/gaspra/merge.py b/src/gaspra/merge.py
index df220eb..51a9bf4 100644
--- a/src/gaspra/merge.py
+++ b/src/gaspra/merge.py
@@ -279,13 +279,11 @@ def has_composable_changes(fragment0, fragment1):
     # This is an edge case that showed up in testing. If one change is a
     # pure insertion (no deletion) and the other is a pure deletion (no
     # insertion), they can be combined into a single conflict-free
-    # change.  It needs to be pushed back onto the input list to be
-    # processed properly One input sequence was [insert x/delete
-    # nothing][s] The other input sequence was [insert nothing/delete
-    # s]. These are transformed to the sequences 1) [s] and 2) [insert
-    # x/delete s] by pushing [insert x/delete s] back onto the input
-    # queue which has the affect of inserting 's' at position where 's'
-    # was.  See compose_changes() for how the changes are composed.
+    # change.  One input sequence was [insert x/delete nothing][s] The
+    # other input sequence was [insert nothing/delete s].  The insertion
+    # is output and the deletion is pushed back onto the input list,
+    # which leaves 1) [s] and 2) [insert nothing/delete s].  This has
+    # the affect of inserting 'x' at position where 's' was.
 
     return (fragment0.length == 0 and len(fragment1.insert) == 0) or (
         len(fragment0.insert) == 0 and fragment1.length == 0
@@ -294,19 +292,9 @@ def has_composable_changes(fragment0, fragment1):
 
 def compose_changes(fragment0, fragment1):
     if fragment0.length == 0 and len(fragment1.insert) == 0:
-        tail1 = ChangeFragment(
-            fragment0.insert,
-            fragment1.delete,
-            fragment1.length,
-        )
-        return None, None, tail1
+        return fragment0, None, fragment1
     elif len(fragment0.insert) == 0 and fragment1.length == 0:
-        tail0 = ChangeFragment(
-            fragment1.insert,
-            fragment0.delete,
-            fragment0.length,
-        )
-        return None, tail0, None
+        return fragment1, fragment0, None
     else:  # pragma: no cover
         raise ValueError("Changes are not composable")
 
-- 
2.43.0


From f04da9fbbfd568bf9cf2f04fe4e79288c99dfa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 17/27] fix: put the headers of -g -d output on lines of their
 own

---
 src/gaspra/markup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 5f282ef..3155207 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -30,6 +30,7 @@ GIT_MARKUP_LEVEL0 = {
     "into": {"prefix": lambda s: f"<<<<<<< {s}\n", "suffix": lambda _: ""},
     "from": {"prefix": lambda _: "", "suffix": lambda s: f">>>>>>> {s}\n"},
     "separator": "=======\n",
+    "header": {"prefix": "<<<", "suffix": ">>>\n"},
 }
 
 PLAIN_LEVEL1 = {
-- 
2.43.0


From 4d09556628d4af44355bca1ef0fa4a0e886b7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:59 +0000
Subject: [PATCH 18/27] fix: don't strip spaces or expand tabs in text written
 to the console

---
 src/gaspra/markup.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 3155207..0a647e7 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -2,6 +2,7 @@ from contextlib import contextmanager
 import io
 
 from rich.console import Console
+from rich.segment import Segment, Segments
 from rich.text import Text
 
 from gaspra.types import Change
@@ -80,9 +81,16 @@ def console_writer():
     console = Console(force_terminal=None, highlight=False)
 
     def print(s):
-        text = Text.from_markup(s, emoji=False)
-        text.plain = text.plain.translate(RICH_UNHIDE)
-        console.print(text, end="", soft_wrap=True)
+        # Printing a Text object would strip spaces at the end of long
+        # lines and expand tabs, so print its segments instead.
+        segments = Text.from_markup(s, emoji=False).render(console)
+        console.print(
+            Segments(
+                Segment(segment.text.translate(RICH_UNHIDE), segment.style)
+                for segment in segments
+            ),
+            soft_wrap=True,
+        )
 
     yield print, rich_escape
     return
-- 
2.43.0


From 3c23fe3f00e185e5d9829d62197a3ac1611afdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 19/27] fix: show control characters and noncharacters on the
 console

---
 src/gaspra/markup.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 0a647e7..1129709 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -1,5 +1,6 @@
 from contextlib import contextmanager
 import io
+import re
 
 from rich.console import Console
 from rich.segment import Segment, Segments
@@ -10,16 +11,25 @@ from gaspra.types import Change
 
 # Brackets and backslashes are special to rich's markup, and whether they
 # need an escape depends on what's next to them, which isn't known when a
-# fragment gets escaped.  Hide them behind Unicode noncharacters until
-# the markup has been parsed.
-RICH_HIDE = str.maketrans("[\\", "\ufdd0\ufdd1")
-RICH_UNHIDE = str.maketrans("\ufdd0\ufdd1", "[\\")
+# fragment gets escaped.  Also, rich drops some control characters.  Hide
+# them behind a Unicode noncharacter and a letter until the markup has
+# been parsed.
+RICH_HIDE = str.maketrans(
+    {c: f"\ufdd0{chr(ord('A') + i)}" for i, c in enumerate("[\\\a\b\v\f\r\ufdd0")}
+)
+RICH_UNHIDE = {hidden: chr(c) for c, hidden in RICH_HIDE.items()}
 
 
 def rich_escape(s):
     return s.translate(RICH_HIDE)
 
 
+def rich_unescape(s):
+    return re.sub(
+        "\ufdd0.", lambda match: RICH_UNHIDE.get(match[0], match[0]), s
+    )
+
+
 COLORED_LEVEL0 = {
     "into": {"prefix": lambda _: "[green4]", "suffix": lambda _: "[/]"},
     "from": {"prefix": lambda _: "[dark_red]", "suffix": lambda _: "[/]"},
@@ -86,7 +96,7 @@ def console_writer():
         segments = Text.from_markup(s, emoji=False).render(console)
         console.print(
             Segments(
-                Segment(segment.text.translate(RICH_UNHIDE), segment.style)
+                Segment(rich_unescape(segment.text), segment.style)
                 for segment in segments
             ),
             soft_wrap=True,
-- 
2.43.0


From 11b2031cb3d07c9ce6b56241c5fc2d8c555bd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 20/27] fix: escape the file names that gaspra-merge prints on
 the console

---
 src/gaspra/merge_tool.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index d187bc8..4ae0a94 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -213,9 +213,9 @@ def _merge(parent_name, current_name, other_name, arguments):
                 diff_markup(
                     writer,
                     changes,
-                    branch_name,
-                    parent_name,
-                    header=branch_name,
+                    escape(branch_name),
+                    escape(parent_name),
+                    header=escape(branch_name),
                 )
 
             if arguments.show_lines or arguments.git_compatible:
@@ -235,8 +235,8 @@ def _merge(parent_name, current_name, other_name, arguments):
         merge_markup(
             writer,
             merged,
-            current_name,
-            other_name,
+            escape(current_name),
+            escape(other_name),
             header="Merged" if arguments.diff else None,
         )
 
-- 
2.43.0


From 06ed148c75e37de44fc56feb5561047f41ae245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 21/27] fix: change a version's parent and update the metrics
 in one transaction

---
 src/gaspra/db_tree.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/gaspra/db_tree.py b/src/gaspra/db_tree.py
index ac4963d..20a65d7 100644
--- a/src/gaspra/db_tree.py
+++ b/src/gaspra/db_tree.py
@@ -108,8 +108,9 @@ class DBTree:
                 ADD_CHILDx.format(x=child), (tag_rid, new_parent_rid)
             )
 
-        self._update_metrics(original_parent, original_parent_rid)
-        self._update_metrics(new_parent, new_parent_rid)
+            # The metrics must be updated in the same transaction.
+            self._update_metrics(connection, original_parent_rid)
+            self._update_metrics(connection, new_parent_rid)
 
     def get_split(self, tag: Hashable):
         return self.new_get_split(tag)
@@ -126,17 +127,13 @@ class DBTree:
                 depth += 1
         return tag, path
 
-    def _update_metrics(self, tag: str, tag_rid: int):
-        self._new_update_metrics(tag, tag_rid)
-
-    def _new_update_metrics(self, tag: str, tag_rid: int):
-        with self.connection_factory() as connection:
-            while tag_rid is not None:
-                _, parent_rid, height, size = connection.execute(
-                    GET_NODE_METRICS, (tag_rid,)
-                ).fetchone()
-                connection.execute(UPDATE_METRICS, (height, size, tag_rid))
-                tag_rid = parent_rid
+    def _update_metrics(self, connection: Connection, tag_rid: int | None):
+        while tag_rid is not None:
+            _, parent_rid, height, size = connection.execute(
+                GET_NODE_METRICS, (tag_rid,)
+            ).fetchone()
+            connection.execute(UPDATE_METRICS, (height, size, tag_rid))
+            tag_rid = parent_rid
 
     def old_get_split(self, tag: Hashable):
         with self.connection_factory() as connection:
-- 
2.43.0


From 06bbf0f7c976aece5b2054b379311af3f870aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 22/27] fix: keep a version's patch if moving it to another
 parent fails

---
 src/gaspra/versions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index c6cabd0..430c4de 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -86,12 +86,19 @@ class Versions:
         return changeset
 
     def _add_edge(self, parent_tag, child_tag, changeset):
-        self.diffs[child_tag] = serialize_changeset(changeset)
-
-        # It's a spanning tree so a node can have only one
-        # parent.  When adding an edge, the new parent
-        # steals the child from any pre-existing parent.
-        self.tree.change_parent(child_tag, parent_tag)
+        old_patch = self.diffs.get(child_tag)
+        try:
+            self.diffs[child_tag] = serialize_changeset(changeset)
+
+            # It's a spanning tree so a node can have only one
+            # parent.  When adding an edge, the new parent
+            # steals the child from any pre-existing parent.
+            self.tree.change_parent(child_tag, parent_tag)
+        except BaseException:
+            # If the child didn't move, its old patch is still needed.
+            if old_patch is not None and parent_tag not in self.tree.path_to(child_tag):
+                self.diffs[child_tag] = old_patch
+            raise
 
         # Older tag is no longer at the head of a branch
         # so remove it from versions.
-- 
2.43.0


From deb0ee0717c4eb3ea66ec9ca72d3cf8d9129d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 23/27] fix: adding a tag again replaced or corrupted stored
 versions

Versions.add() overwrote the copy of a version whose tag was added again
(and lost its place in the tree) or, with the database tree, did so before
it failed.  Refuse it before anything is stored, and make the patches first
so that a version with invalid content can be added again.
---
 src/gaspra/versions.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/gaspra/versions.py b/src/gaspra/versions.py
index 430c4de..108908e 100644
--- a/src/gaspra/versions.py
+++ b/src/gaspra/versions.py
@@ -35,8 +35,11 @@ class Versions:
         if existing_head is not None and existing_head not in self.tree:
             raise KeyError(existing_head)
 
-        self.head_version[tag] = version
-        self.tree.add(tag, existing_head)
+        # Replacing a version would corrupt those that are patches of it.
+        if tag in self.tree:
+            raise ValueError(f"There is a version {tag!r} already")
+
+        base_version = existing_head
 
         # If existing_head isn't a head any more, `tag` begins a new branch.
         if existing_head not in self.head_version:
@@ -48,24 +51,27 @@ class Versions:
         else:
             split = existing_head = path_to_split = None
 
-        # If there is an appropriate split, move it up to be a child of `tag`
+        # Make the patches before storing anything, so that `tag` can be
+        # added again if it fails.
+        split_changeset = head_changeset = None
         if split is not None and path_to_split is not None and split != existing_head:
             split_version = self._retrieve_using_path(path_to_split)
-            self._add_edge(
-                tag,
-                split,
-                self._make_changeset(version, split_version),
-            )
+            split_changeset = self._make_changeset(version, split_version)
+        if existing_head is not None:
+            existing_head_version = self.head_version[existing_head]
+            head_changeset = self._make_changeset(version, existing_head_version)
+
+        self.head_version[tag] = version
+        self.tree.add(tag, base_version)
+
+        # If there is an appropriate split, move it up to be a child of `tag`
+        if split_changeset is not None:
+            self._add_edge(tag, split, split_changeset)
             self.tree.change_parent(split, tag)
 
         # If there was a pre-existing head, make it a child of `tag`
-        if existing_head is not None:
-            existing_head_version = self.head_version[existing_head]
-            self._add_edge(
-                tag,
-                existing_head,
-                self._make_changeset(version, existing_head_version),
-            )
+        if head_changeset is not None:
+            self._add_edge(tag, existing_head, head_changeset)
 
         return
 
-- 
2.43.0


From 46832adc9efc4104d906518f0c18a71e5283a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 24/27] fix: file names that aren't valid UTF-8 made -o fail

The labels of conflicts and the headers contain the names, whose surrogate
escapes can't be encoded strictly.
---
 src/gaspra/markup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gaspra/markup.py b/src/gaspra/markup.py
index 1129709..b6cb158 100644
--- a/src/gaspra/markup.py
+++ b/src/gaspra/markup.py
@@ -80,7 +80,10 @@ def show_header(print, header, markup={}):
 
 @contextmanager
 def file_writer(filename):
-    file = open(filename, "wt", encoding="utf-8", newline="")
+    # Names of files that aren't valid UTF-8 have surrogate escapes.
+    file = open(
+        filename, "wt", encoding="utf-8", errors="surrogateescape", newline=""
+    )
 
     yield file.write, lambda _: _
     file.close()
-- 
2.43.0


From 5297cb3eb8c021512a36af90dc69b1aa28772187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:47 +0000
Subject: [PATCH 25/27] fix: read each input of the tools only once

An input that isn't UTF-8 was opened again, so that the text of one
that's a pipe, as in 'gaspra-diff <(one) <(other)', was lost.
---
 src/gaspra/merge_tool.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gaspra/merge_tool.py b/src/gaspra/merge_tool.py
index 4ae0a94..a456616 100644
--- a/src/gaspra/merge_tool.py
+++ b/src/gaspra/merge_tool.py
@@ -279,14 +279,13 @@ def diff_cli():
 
 def get_text(*filenames: str) -> tuple[str, ...]:
     data = []
-    for filename in filenames:
+    # Read each file once because pipes can't be read again.
+    for contents in get_bytes(*filenames):
         try:
-            with open(filename, "rt", encoding="utf-8", newline="") as f:
-                data.append(f.read())
+            data.append(contents.decode("utf-8"))
 
         except UnicodeDecodeError:
-            with open(filename, "rt", encoding="iso-8859-1", newline="") as f:
-                data.append(f.read())
+            data.append(contents.decode("iso-8859-1"))
 
     return tuple(data)
 
-- 
2.43.0


From 33a197dcbd8771fd34d751318e5861ea32baa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 26/27] fix: retrieving versions took time quadratic in the
 number of changes

---
 src/gaspra/tokenizers.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/gaspra/tokenizers.py b/src/gaspra/tokenizers.py
index 0dd3420..51a89c0 100644
--- a/src/gaspra/tokenizers.py
+++ b/src/gaspra/tokenizers.py
@@ -38,13 +38,16 @@ def generic_decode(
 
 
 def generic_encode(
-    unencoded_tokens: Iterable[BytesOrStr], encoding: dict[BytesOrStr, int]
+    unencoded_tokens: Iterable[BytesOrStr],
+    encoding: dict[BytesOrStr, int],
+    decoding: list[BytesOrStr],
 ):
+    # Only add to `decoding`.  Patches are encoded piece by piece, so
+    # don't go through all of the known tokens for each of the pieces.
     for token in unencoded_tokens:
         if token not in encoding:
             encoding[token] = len(encoding)
-
-    decoding = tuple(k for k, _ in encoding.items())
+            decoding.append(token)
 
     return tuple(encoding[token] for token in unencoded_tokens), decoding
 
@@ -130,10 +133,11 @@ class LineTokenizer(Generic[BytesOrStr]):
     source_type: type | None = None
 
     bytes_encoding: dict[BytesOrStr, int]
-    bytes_decoding: Sequence[BytesOrStr]
+    bytes_decoding: list[BytesOrStr]
 
     def __init__(self):
         self.bytes_encoding = {}
+        self.bytes_decoding = []
 
     def encode(self, contents: BytesOrStr) -> Sequence[int]:
         if self.source_type and self.source_type != type(contents):
@@ -152,7 +156,9 @@ class LineTokenizer(Generic[BytesOrStr]):
         # What follows the last newline is a line only if it's not empty.
         if split[-1]:
             lines.append(split[-1])
-        encoded, self.bytes_decoding = generic_encode(lines, self.bytes_encoding)
+        encoded, self.bytes_decoding = generic_encode(
+            lines, self.bytes_encoding, self.bytes_decoding
+        )
         return encoded
 
     def decode(self, contents: Iterable[Token]) -> BytesOrStr:
@@ -168,10 +174,11 @@ class SymbolTokenizer(Generic[BytesOrStr]):
     source_type: type | None = None
 
     encoding: dict[BytesOrStr, int]
-    decoding: Sequence[BytesOrStr]
+    decoding: list[BytesOrStr]
 
     def __init__(self):
         self.encoding = {}
+        self.decoding = []
 
     def encode(self, contents: BytesOrStr) -> Sequence[int]:
         if self.source_type and self.source_type != type(contents):
@@ -189,7 +196,9 @@ class SymbolTokenizer(Generic[BytesOrStr]):
             raise RuntimeError(f"Unexpected type of contents: {type(contents)}")
 
         unencoded_tokens = cast(list[BytesOrStr], unencoded_tokens)
-        encoded, self.decoding = generic_encode(unencoded_tokens, self.encoding)
+        encoded, self.decoding = generic_encode(
+            unencoded_tokens, self.encoding, self.decoding
+        )
         return encoded
 
     def decode(self, contents: TokenIterable) -> bytes:
-- 
2.43.0


From 8f78453273d7d5bffdf1fa5d2b12d4f84a01a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:26 +0000
Subject: [PATCH 27/27] fix: serializing patches took time quadratic in their
 size

---
 src/gaspra/serialize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gaspra/serialize.py b/src/gaspra/serialize.py
index 8fa180f..426e844 100644
--- a/src/gaspra/serialize.py
+++ b/src/gaspra/serialize.py
@@ -73,7 +73,7 @@ def deserialize_int(stream: bytes):
 
 
 def serialize_changeset(changeset: PatchIterable):
-    serialized = b""
+    serialized = bytearray()
 
     # First fragment in serialization must come from bytes object.
     # If first object is slice, insert an empty bytes object.
@@ -100,10 +100,12 @@ def serialize_changeset(changeset: PatchIterable):
         else:
             raise RuntimeError(f"Unexpected type: {type(change)}")
 
-    return serialized
+    return bytes(serialized)
 
 
 def deserialize_changeset(stream: bytes) -> PatchIterable:
+    # Taking the rest of a memoryview doesn't copy it.
+    stream = memoryview(stream)
     next_is_bytes = True
 
     while len(stream):
@@ -112,7 +114,7 @@ def deserialize_changeset(stream: bytes) -> PatchIterable:
             if length:
                 if len(stream) < length:
                     raise RuntimeError("Stream ended prematurely")
-                yield stream[:length]
+                yield bytes(stream[:length])
             stream = stream[length:]
             next_is_bytes = False
         else:
-- 
2.43.0

