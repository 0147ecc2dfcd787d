From 5b342a310cafea8ab76fe60d0914295f7acdb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:49 +0000
Subject: [PATCH 01/44] fix: keep conditional expansions around unrecognised
 lines of %prep

---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..e8f4112 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for raw_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(raw_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From c51ec64da31d3978df2c1aba73f84d97996bb7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:55 +0000
Subject: [PATCH 02/44] fix: do not repeat trailing whitespace of multi-line
 tag values

---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..d78108e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -521,6 +521,7 @@ class Tags(UserList[Tag]):
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
                         line, _ = pop(lines)
+                        ws = ""
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
                             line, ws, _ = tokens
-- 
2.43.0


From 98590609678e38de24b842e07497f86138465803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:00 +0000
Subject: [PATCH 03/44] fix: preserve whitespace in enclosed macro
 substitutions and accept empty ones

---
 specfile/value_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..c0c43da 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -104,16 +104,21 @@ class EnclosedMacroSubstitution(Node):
             _, self.prefix, rest = tokens
         self.name: str
         self.args: List[str]
-        self.name, *self.args = rest.split()
+        self.name, *self.args = rest.split() or [""]
+        self._rest = rest
+
+    def _get_rest(self) -> str:
+        # preserve original whitespace unless name or arguments have been modified
+        if (self._rest.split() or [""]) == [self.name, *self.args]:
+            return self._rest
+        return " ".join([self.name, *self.args])
 
     @formatted
     def __repr__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
+        return f"EnclosedMacroSubstitution({(self.prefix + self._get_rest())!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        return f"%{{{self.prefix}{self._get_rest()}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From acb1283da81c412f519631d602acff36e78b7463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:04 +0000
Subject: [PATCH 04/44] fix: do not skip macros following an escaped percent
 sign

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index c0c43da..940a73d 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -255,7 +255,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From 8be918dca98989ccb2192dd7807f3df78adc5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 05/44] fix: recognise %** as a single macro

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 940a73d..0b3e90c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -241,7 +241,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
-- 
2.43.0


From 33ee338834b18ddfa7661ea1aef96ce55c356ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:38 +0000
Subject: [PATCH 06/44] fix: preserve the literal form of option tokens

---
 specfile/options.py | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..e9a34ef 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,20 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(self, type: TokenType, value: str, raw: Optional[str] = None) -> None:
         self.type = type
         self.value = value
+        # literal form of the token, valid only as long as the token isn't modified
+        self._raw = (type, value, raw)
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        type, value, raw = self._raw
+        if raw is not None and self._key() == (type, value):
+            return raw
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -474,7 +479,7 @@ class Options(collections.abc.MutableMapping):
             OptionsException: If the option string is untokenizable.
         """
         result: List[Token] = []
-        token = ""
+        token = raw = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -485,33 +490,35 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                if token:
-                    result.append(
-                        Token(
-                            (
-                                TokenType.QUOTED
-                                if quote == "'"
-                                else TokenType.DOUBLE_QUOTED
-                            ),
-                            token,
-                        )
+                result.append(
+                    Token(
+                        (
+                            TokenType.QUOTED
+                            if quote == "'"
+                            else TokenType.DOUBLE_QUOTED
+                        ),
+                        token,
+                        quote + raw + quote,
                     )
-                    token = ""
+                )
+                token = raw = ""
                 quote = None
                 continue
             if quote:
+                raw += c
                 if c == "\\":
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
+                    raw += c
                     if c != quote:
                         token += "\\"
                 token += c
                 continue
             if c.isspace():
-                if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                if raw:
+                    result.append(Token(TokenType.DEFAULT, token, raw))
+                    token = raw = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -525,18 +532,20 @@ class Options(collections.abc.MutableMapping):
                 result.append(Token(TokenType.WHITESPACE, whitespace))
                 continue
             if c in ('"', "'"):
-                if token:
-                    result.append(Token(TokenType.DEFAULT, token))
-                    token = ""
+                if raw:
+                    result.append(Token(TokenType.DEFAULT, token, raw))
+                    token = raw = ""
                 quote = c
                 continue
+            raw += c
             if c == "\\":
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
+                raw += c
             token += c
         if quote:
             raise OptionsException("No closing quotation")
-        if token:
-            result.append(Token(TokenType.DEFAULT, token))
+        if raw:
+            result.append(Token(TokenType.DEFAULT, token, raw))
         return result
-- 
2.43.0


From 2d7247d9ddf4fc74368d4017d9c258537b764f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 07/44] fix: process chains of %elif/%else and unbalanced
 branches correctly

---
 specfile/conditions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..7f80b07 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # whether a branch of the respective condition has already been taken
+    taken = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -129,13 +131,17 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if len(branches) < 2 and keyword.startswith("%e"):
+            # the condition doesn't start in the given lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            taken.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
-            if branches[-2]:
-                branches[-1] = not branches[-1]
+            branches[-1] = branches[-2] and not taken[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -154,6 +160,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                taken[-1] = taken[-1] or branch
             else:
                 branches.append(branch)
+                taken.append(branch)
     return result
-- 
2.43.0


From ef04d3063c043ba6d469d68ba47d13ec8a26150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 08/44] fix: reproduce %dnl and whitespace of continued macro
 definitions

---
 specfile/macro_definitions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..bf3759f 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -337,7 +337,8 @@ class MacroDefinitions(UserList[MacroDefinition]):
                     bc, pc = count_brackets(body)
                     while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
                         line, _ = pop(lines)
-                        body += "\n" + line
+                        body += ws3 + "\n" + line
+                        ws3 = ""
                         bc, pc = count_brackets(body)
                 tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
                 if len(tokens) == 1:
@@ -356,7 +357,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if escaped and "#" in sc and not dnl
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From 67c608c4642339d35bcc825d6412ac809f88ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:20 +0000
Subject: [PATCH 09/44] fix: delete items by negative index and by slice with
 negative step

---
 specfile/changelog.py         | 4 ++--
 specfile/macro_definitions.py | 4 ++--
 specfile/options.py           | 2 +-
 specfile/prep.py              | 4 ++--
 specfile/sources.py           | 3 ++-
 specfile/tags.py              | 4 ++--
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..83266ca 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,10 +254,10 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index bf3759f..523775a 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -239,10 +239,10 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
diff --git a/specfile/options.py b/specfile/options.py
index e9a34ef..08d0acd 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -141,7 +141,7 @@ class Positionals(collections.abc.MutableSequence):
 
         items = self._get_items()
         if isinstance(i, slice):
-            for index in reversed(items[i]):
+            for index in sorted(items[i], reverse=True):
                 delete(index)
         else:
             delete(items[i])
diff --git a/specfile/prep.py b/specfile/prep.py
index e8f4112..5fae3e7 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,10 +216,10 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..614e3ae 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -341,7 +341,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for i0 in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[i0]
                 del container[index]
         else:
             _, container, index = items[i]
diff --git a/specfile/tags.py b/specfile/tags.py
index d78108e..f85e97d 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -383,10 +383,10 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 3ba8a0b0927a72affa2ead93db04f379d991a021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:24 +0000
Subject: [PATCH 10/44] fix: keep surrounding lines when deleting by attribute

---
 specfile/macro_definitions.py | 4 ++--
 specfile/tags.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 523775a..30299ea 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
diff --git a/specfile/tags.py b/specfile/tags.py
index f85e97d..0ecc9bf 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From 1d7be8cb789c113443611ff8e4e07ff5780f8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:29 +0000
Subject: [PATCH 11/44] fix: allow removing a %patch macro that is the first
 macro

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 5fae3e7..6e5190a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 81310307a6000bcf65bfdf1ba3fe84e83ef5c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:34 +0000
Subject: [PATCH 12/44] fix: calculate position of multi-line and duplicate
 items correctly

---
 specfile/macro_definitions.py | 10 +++++++---
 specfile/tags.py              |  8 ++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 30299ea..a688242 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -126,9 +126,13 @@ class MacroDefinition:
         Returns:
             Position expressed as line number (starting from 0).
         """
-        return sum(
-            len(md.get_raw_data()) for md in container[: container.index(self)]
-        ) + len(self._preceding_lines)
+        # there can be multiple equal macro definitions, so prefer identity
+        index = next((i for i, md in enumerate(container) if md is self), None)
+        if index is None:
+            index = container.index(self)
+        return sum(len(md.get_raw_data()) for md in container[:index]) + len(
+            self._preceding_lines
+        )
 
     def get_raw_data(self) -> List[str]:
         result = self._preceding_lines.copy()
diff --git a/specfile/tags.py b/specfile/tags.py
index 0ecc9bf..6235dfa 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -297,9 +297,13 @@ class Tag:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        # there can be multiple equal tags, so prefer identity
+        index = next((i for i, t in enumerate(container) if t is self), None)
+        if index is None:
+            index = container.index(self)
         return sum(
-            len(t.comments.get_raw_data()) + 1
-            for t in container[: container.index(self)]
+            len(t.comments.get_raw_data()) + t.value.count("\n") + 1
+            for t in container[:index]
         ) + len(self.comments.get_raw_data())
 
 
-- 
2.43.0


From 3eae762869db1cf21dca8e4339078ad82139a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 13/44] fix: return a list when slicing sources, even if the
 slice is empty

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 614e3ae..556c3ef 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From 3ddb7ba835511d002e7b027fa8ba67fe835693a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:12 +0000
Subject: [PATCH 14/44] fix: continue numbering of sources across multiple
 lists

---
 specfile/sources.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 556c3ef..829deb8 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -387,11 +387,10 @@ class Sources(collections.abc.MutableSequence):
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
         last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        for sl in self._sourcelists:
+            for i in range(len(sl)):
+                last_number += 1
+                result.append((self.list_class(sl[i], last_number), sl, i))
         return result
 
     def _detect_implicit_numbering(self) -> bool:
-- 
2.43.0


From 68f0a03774ab8f79c0ad8204438ba4aae8b1348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 15/44] fix: avoid duplicate source numbers when inserting at a
 negative index

---
 specfile/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index 829deb8..c4c1553 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -517,6 +517,8 @@ class Sources(collections.abc.MutableSequence):
         items = self._get_items()
         if i > len(items):
             i = len(items)
+        elif i < 0:
+            i = max(i + len(items), 0)
         if items:
             if i == len(items):
                 source, container, index = items[-1]
-- 
2.43.0


From 9fa0fb2797c7480a53da7ad25b21ffc078541641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:22 +0000
Subject: [PATCH 16/44] fix: never lose the colon when adjusting separator of a
 new source

---
 specfile/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index c4c1553..80acc38 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -442,7 +442,8 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        separator = reference._tag._separator[:diff]
+        return name, separator if ":" in separator else ":"
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From 84e5f20f2754ea9db65909440e92a7e52b24c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 17/44] fix: make equal EVRs hash equally

---
 specfile/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..d8f1e1e 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -25,7 +25,13 @@ class EVR(collections.abc.Hashable):
         self.release = release
 
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        # versions that RPM considers equal, e.g. 1.01 and 1.1, have to hash equally
+        def segments(s):
+            return tuple(
+                t.lstrip("0") for t in re.findall(r"[0-9]+|[a-zA-Z]+|[~^]", s)
+            )
+
+        return self.epoch, segments(self.version or "0"), segments(self.release)
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +102,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return (self.name, *super()._key())
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +179,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return (*super()._key(), self.arch)
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From 3a9158ef77654006554954e41b1a7b283f59d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 18/44] fix: split spec file content only on newlines

---
 specfile/sections.py | 4 +++-
 specfile/specfile.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..6e73324 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,9 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        # do not use splitlines() here, it splits also on other characters than newline
+        lines = str(self).split("\n")
+        return lines if lines[-1] else lines[:-1]
 
 
 class Sections(UserList[Section]):
diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..65071bb 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,10 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        # do not use splitlines() here, it splits also on other characters than newline
+        lines = content.split("\n")
+        trailing_newline = len(lines) > 1 and not lines[-1]
+        return lines[:-1] if trailing_newline else lines, trailing_newline
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 48253abdafe4a9fd50537b2bcda25d969cf259fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:37 +0000
Subject: [PATCH 19/44] fix: allow parsing spec files that are not valid UTF-8

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..f83845b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -225,7 +225,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode(errors="surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From 75513252f80496f377d8ed98694c0ddbb3459228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 20/44] fix: handle entries without EVR when filtering
 changelog

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 83266ca..6e402f0 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -280,7 +280,7 @@ class Changelog(UserList[ChangelogEntry]):
 
         def parse_evr(s):
             try:
-                return EVR.from_string(s)
+                return EVR.from_string(s or "")
             except SpecfileException:
                 return EVR(version="0")
 
-- 
2.43.0


From b5f2b22fec2bf1a90b518072522445d181ed1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:50 +0000
Subject: [PATCH 21/44] fix: keep trailing empty line of an unterminated macro
 definition

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index a688242..2d96ce0 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -344,7 +344,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                         body += ws3 + "\n" + line
                         ws3 = ""
                         bc, pc = count_brackets(body)
-                tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
+                tokens = re.split(r"([^\S\n]+)\Z", body, maxsplit=1)
                 if len(tokens) == 1:
                     body = tokens[0]
                 else:
-- 
2.43.0


From b4d593a14b80d1cec234c9934fe88b76f39b543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:36 +0000
Subject: [PATCH 22/44] fix: fail with RPMException when expanding strings that
 are not valid UTF-8

---
 specfile/macros.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..9d51366 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -147,7 +147,8 @@ class Macros:
         try:
             with capture_stderr() as stderr:
                 return rpm.expandMacro(expression)
-        except rpm.error as e:
+        except (rpm.error, UnicodeEncodeError) as e:
+            # RPM bindings can't handle strings that are not valid UTF-8
             raise RPMException(stderr=stderr) from e
 
     @classmethod
-- 
2.43.0


From 4a4222bb1c57f3e5d6d2dc89ff7e3677c97f87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:51 +0000
Subject: [PATCH 23/44] fix: separate a positional argument inserted before all
 other tokens

---
 specfile/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 08d0acd..ec4b6cd 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -208,6 +208,11 @@ class Positionals(collections.abc.MutableSequence):
                 str(value),
             ),
         )
+        if (
+            index + 1 < len(self._options._tokens)
+            and self._options._tokens[index + 1].type != TokenType.WHITESPACE
+        ):
+            self._options._tokens.insert(index + 1, Token(TokenType.WHITESPACE, " "))
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
 
-- 
2.43.0


From 28903b14a69fde3e8e606b8893d6fcf936b6e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:52 +0000
Subject: [PATCH 24/44] fix: do nothing when setting an option flag that is
 already set

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index ec4b6cd..59c73a0 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -382,6 +382,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already set
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 6f07397988b6e5a95b678c6a333347b37a07ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:06 +0000
Subject: [PATCH 25/44] fix: delete option flags that are not the first token

---
 specfile/options.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 59c73a0..80bacd6 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -409,19 +409,18 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            # there is no argument
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From 033393645608b9083d02a6360f9f194629c3199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:19 +0000
Subject: [PATCH 26/44] fix: NEVRA parsed from a string without release has an
 empty release

---
 specfile/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index d8f1e1e..c033b40 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -245,7 +245,9 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(
+            name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a
+        )
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From a121f94efff9e2f3f16123b7100279c5f6fa0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:34 +0000
Subject: [PATCH 27/44] fix: do not repeat e-mail in entries added to further
 changelog sections

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 65071bb..5349ddd 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -534,6 +534,8 @@ class Specfile:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
                         author += f" <{email}>"
+                        # there could be more sections, do not add the e-mail again
+                        email = None
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
-- 
2.43.0


From c3cc4ed62b56805d4a3bd3dd364ab3eb0cfbaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:27 +0000
Subject: [PATCH 28/44] fix: recognize extended timestamps with zero-padded day
 of month

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 6e402f0..0f53078 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -114,7 +114,7 @@ class ChangelogEntry:
             [ ]
             ({months})       # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([012]?\d|3[01]) # day of month
             [ ]
             ([01]\d|2[0-3])  # hour
             :
-- 
2.43.0


From 2564f3338535d6477af2e1fea5b298ef2bc42c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:31 +0000
Subject: [PATCH 29/44] fix: trailing whitespace is not part of section id

---
 specfile/sections.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 6e73324..d4ff115 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -243,7 +243,9 @@ class Sections(UserList[Section]):
 
         def split_id(line):
             content = []
-            separator = "\n"
+            # trailing whitespace is not part of the section id
+            line, trailing = re.split(r"(\s*)$", line, maxsplit=1)[:2]
+            separator = trailing + "\n"
             tokens = re.split(r"(\s+)", line)
             if len(tokens) > 2 and tokens[-1].startswith("%"):
                 # if the last token after macro expansion starts with a newline,
@@ -254,7 +256,7 @@ class Sections(UserList[Section]):
                     pass
                 else:
                     if expanded.startswith("\n"):
-                        content = [tokens.pop()]
+                        content = [tokens.pop() + trailing]
                         separator = tokens.pop()
             if len(tokens) > 2:
                 name = tokens[0]
-- 
2.43.0


From e1e2ad502e1ed454491a1a68df341bc9148d20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 30/44] fix: do not add e-mail to auto-detected author in
 further changelog sections

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 5349ddd..b17c63b 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -534,8 +534,8 @@ class Specfile:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
                         author += f" <{email}>"
-                        # there could be more sections, do not add the e-mail again
-                        email = None
+                    # there could be more sections, do not add the e-mail again
+                    email = None
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
-- 
2.43.0


From 86835378aa282e23352859dc1661f431a708ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:59 +0000
Subject: [PATCH 31/44] fix: ignore sources in nonexistent directories when
 forcing parsing

---
 specfile/spec_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f83845b..36b6fa9 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -234,6 +234,13 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(source):
+            try:
+                return source.parent.samefile(self.sourcedir)
+            except OSError:
+                # the parent doesn't exist or isn't accessible
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -256,7 +263,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -278,7 +285,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -291,7 +298,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From 1b965ad2b02c3cb6e428e3700ee90287741db2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:05 +0000
Subject: [PATCH 32/44] fix: handle unterminated %include when forcing parsing

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 36b6fa9..1c6af11 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -278,7 +278,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From ad84e144f234399e290e4d604cb4eafba0b0d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:11 +0000
Subject: [PATCH 33/44] fix: parse again after a parser is destroyed together
 with lua tables

---
 specfile/spec_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 1c6af11..eb8ce23 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -62,6 +62,11 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
+    def __del__(self) -> None:
+        # destroying the `rpm.spec` instance destroys also lua tables of the last parsed spec file
+        # (see below for details), make sure it is parsed again
+        SpecParser._last_parse_hash = None
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
-- 
2.43.0


From 890d9aee6bf7f95e27c6eba1e2c0bc47007ba03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:17 +0000
Subject: [PATCH 34/44] fix: keep spec attribute when parsing fails
 unexpectedly

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index eb8ce23..dc860b7 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -393,7 +393,7 @@ class SpecParser:
             return
         if self.spec:
             # workaround RPM lua tables feature/bug, see above for details
-            del self.spec
+            self.spec = None
         try:
             try:
                 self.spec, self.tainted = self._do_parse(content, extra_macros)
-- 
2.43.0


From b3396191c31fb950c004940107b678248dc35190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:58 +0000
Subject: [PATCH 35/44] fix: do not leave dummy sources behind

---
 specfile/spec_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index dc860b7..f9ba2bf 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -145,7 +145,7 @@ class SpecParser:
             if not filename:
                 continue
             path = self.sourcedir / filename
-            if path.exists():
+            if os.path.exists(path):
                 continue
             for ext, magic in SIGNATURES:
                 if filename.endswith(ext):
@@ -160,7 +160,7 @@ class SpecParser:
             if not filename:
                 continue
             path = self.sourcedir / filename
-            if path.exists():
+            if os.path.exists(path):
                 continue
             try:
                 path.write_text("DUMMY")
@@ -172,7 +172,11 @@ class SpecParser:
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                path.unlink()
+                try:
+                    path.unlink()
+                except FileNotFoundError:
+                    # already removed, e.g. by a shell expansion
+                    pass
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From 6407e9a3417c1a6e8a6eb76c33c19c7670f79a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:52 +0000
Subject: [PATCH 36/44] fix: consider expansion of preserved conditional macro
 expansions when updating values

---
 specfile/value_parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 0b3e90c..a9ce8dc 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -378,7 +378,7 @@ class ValueParser:
                         result.extend(flatten(node.body))
                         result.append("}")
                     else:
-                        result.append(str(node))
+                        result.append(node)
                 else:
                     result.append(node)
             return result
@@ -392,7 +392,16 @@ class ValueParser:
                 tokens.append(("c", "", node))
             elif isinstance(node, StringLiteral):
                 tokens.append(("v", node.value, ""))
-            elif isinstance(node, (ShellExpansion, ExpressionExpansion, BuiltinMacro)):
+            elif isinstance(
+                node,
+                (
+                    ShellExpansion,
+                    ExpressionExpansion,
+                    BuiltinMacro,
+                    # only those that are left untouched by flatten()
+                    ConditionalMacroExpansion,
+                ),
+            ):
                 const = expand(str(node))
                 tokens.append(("c", const, str(node)))
             elif isinstance(node, MacroSubstitution):
-- 
2.43.0


From 4436070449a315ba9982f7cba51bc6cb9f210363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:13 +0000
Subject: [PATCH 37/44] fix: number sources without a number as RPM does

---
 specfile/sources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 80acc38..145b0cb 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -367,7 +367,8 @@ class Sources(collections.abc.MutableSequence):
                 ts = self.tag_class(tag, last_number)
             elif numbered_pattern.match(tag.normalized_name):
                 ts = self.tag_class(tag)
-                last_number = ts.number
+                # RPM continues from the highest number so far
+                last_number = max(last_number, ts.number)
             else:
                 continue
             result.append((ts, self._tags, i))
@@ -386,7 +387,7 @@ class Sources(collections.abc.MutableSequence):
         result = cast(
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
-        last_number = result[-1][0].number if result else -1
+        last_number = max((s.number for s, _, _ in result), default=-1)
         for sl in self._sourcelists:
             for i in range(len(sl)):
                 last_number += 1
-- 
2.43.0


From cf957e82a70d22666ee7a8ac6316e6b5caecaa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:36 +0000
Subject: [PATCH 38/44] fix: honor the timestamp format of each changelog
 section

---
 specfile/specfile.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index b17c63b..4ea414b 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -520,12 +520,14 @@ class Specfile:
                     evr = self.expand(evr, extra_macros=[("dist", "")])
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    # there could be more sections with different timestamp formats
+                    entry_timestamp = timestamp
+                    if entry_timestamp is None:
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = datetime.datetime.now().astimezone()
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = datetime.datetime.now(
                                 datetime.timezone.utc
                             ).date()
                     if author is None:
@@ -546,7 +548,7 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
+                            entry_timestamp,
                             author,
                             entry,
                             evr,
-- 
2.43.0


From eba3d9003b6bed4d34cdbc4be180ab22dba4f975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:57 +0000
Subject: [PATCH 39/44] fix: flip only macro definitions that are in effect
 when updating values

---
 specfile/specfile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 4ea414b..0d4627a 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -881,8 +881,13 @@ class Specfile:
                     finally:
                         entity.locked = False
                         entity.updated = True
-                for entity in entities:
-                    if entity.position < position and entity.name in entities_to_flip:
+                for name in entities_to_flip:
+                    matches = [
+                        e for e in entities if e.position < position and e.name == name
+                    ]
+                    # if the macro is defined multiple times, do not enable definitions
+                    # that have no effect while disabling those that do
+                    for entity in [e for e in matches if not e.disabled] or matches:
                         entity.flip_pending = True
                 return template.substitute(d)
             # no match, simply return the requested value
-- 
2.43.0


From 331fb5f2005a3b456b1e7d71bdc4bc58cab239f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:25 +0000
Subject: [PATCH 40/44] fix: do not consider a shell expansion equal to an
 expression expansion

---
 specfile/value_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index a9ce8dc..a4d0f7b 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -58,7 +58,8 @@ class ShellExpansion(Node):
         return f"%({self.body})"
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(other, self.__class__):
+        # a shell expansion never equals an expression expansion
+        if type(other) is not self.__class__:
             return NotImplemented
         return self.body == other.body
 
-- 
2.43.0


From 36f7b37cf4910a9d109cbcbee7b797df5d860002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:30 +0000
Subject: [PATCH 41/44] fix: consider the final newline when comparing spec
 files

---
 specfile/specfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 0d4627a..663a631 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -87,6 +87,7 @@ class Specfile:
             self.autosave == other.autosave
             and self._path == other._path
             and self._lines == other._lines
+            and self._trailing_newline == other._trailing_newline
             and self._parser == other._parser
         )
 
-- 
2.43.0


From 11442c0ca5e37049e425d523a0c6fea52e8ce2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 42/44] fix: consider positional arguments when comparing
 options

---
 specfile/options.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 80bacd6..fbc2d36 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -257,6 +257,11 @@ class Options(collections.abc.MutableMapping):
     def __str__(self) -> str:
         return "".join(str(t) for t in self._tokens)
 
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Options) and self.positional != other.positional:
+            return False
+        return super().__eq__(other)
+
     def _valid_option(self, name: str) -> bool:
         """
         Determines if a name represents a recognized option.
-- 
2.43.0


From 8647d7ac2e7da67303e5f86c528b52f6884d7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:41 +0000
Subject: [PATCH 43/44] fix: do not swallow KeyError raised in a nested context

---
 specfile/context_management.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 0f8a3a4..0f44a74 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -120,11 +120,12 @@ class ContextManager:
             # generator is suspended, use existing value
             def existing_value():
                 try:
-                    yield self.values[key]
+                    value = self.values[key]
                 except KeyError:
                     # if the generator is being consumed in GeneratorContextManager destructor,
                     # self.values[key] could have already been deleted
-                    pass
+                    return
+                yield value
 
             return GeneratorContextManager(existing_value)
         # create the generator
-- 
2.43.0


From b5907f09df74b6c3845c759e1440281064d1b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 44/44] fix: section lookup by ID lowercases options

---
 specfile/sections.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index d4ff115..95bed75 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -27,6 +27,13 @@ if TYPE_CHECKING:
 PREAMBLE = "package"
 
 
+def _normalize_id(id: str) -> str:
+    """Lowercases section name in a section ID. Options are case sensitive."""
+    tokens = re.split(r"(\s+)", id, maxsplit=1)
+    tokens[0] = tokens[0].lower()
+    return "".join(tokens)
+
+
 class Section(collections.UserList):
     """
     Class that represents a spec file section.
@@ -175,7 +182,8 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        normalized_id = _normalize_id(cast(str, id))
+        return any(s.normalized_id == normalized_id for s in data)
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -211,8 +219,9 @@ class Sections(UserList[Section]):
         return self.data[self.find(id)]
 
     def find(self, id: str) -> int:
+        normalized_id = _normalize_id(id)
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalized_id:
                 return i
         raise ValueError
 
-- 
2.43.0

