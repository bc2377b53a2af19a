From 94e94e6b4a90e3fa23d4ed4abfc79f541eecb836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 01/68] fix: do not crash on a file ending inside a
 continuation or function header

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From f92cf9efde6d8b1acfe7b7a2345f58628b205dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 02/68] fix: do not recurse endlessly on include cycles

---
 oelint_parser/cls_stash.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..89136e4 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__parsing = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -173,16 +174,25 @@ class Stash():
             return []
         if _file in self.__seen_classes:
             return []
+        if _file in self.__parsing:
+            # the file (indirectly) includes itself
+            if forcedLink:
+                self.__map.setdefault(forcedLink, []).append(_file)
+            return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__parsing.append(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__parsing.remove(_file)
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From 22358f7950b86c39abb61fc4c09451a7cabf214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:13 +0000
Subject: [PATCH 03/68] fix: link every file that uses an already parsed class

---
 oelint_parser/cls_stash.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 89136e4..db45214 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -170,12 +170,10 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
-            return []
-        if _file in self.__seen_classes:
-            return []
-        if _file in self.__parsing:
-            # the file (indirectly) includes itself
+        if (_file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]) \
+                or _file in self.__seen_classes \
+                or _file in self.__parsing:
+            # no need to parse it (again), but it's still used by another file
             if forcedLink:
                 self.__map.setdefault(forcedLink, []).append(_file)
             return []
-- 
2.43.0


From 2024485d66d9f9b6707800f77b457689f7c46d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 04/68] fix: match names of bbappends literally and entirely

---
 oelint_parser/cls_stash.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index db45214..40147ae 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -200,11 +200,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -212,14 +210,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self.__is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -236,6 +231,20 @@ class Stash():
 
         return res
 
+    def __is_append_for(self, append: str, recipe: str) -> bool:
+        """Check if a bbappend applies to a recipe
+
+        Args:
+            append (str): Path to bbappend
+            recipe (str): Path to recipe
+
+        Returns:
+            bool: True if the bbappend applies to the recipe
+        """
+        _name, _ = os.path.splitext(os.path.basename(append))
+        _pattern = regex.escape(f'{_name}.bb').replace("%", ".*")
+        return RegexRpl.match(rf'{_pattern}\Z', os.path.basename(recipe)) is not None
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
-- 
2.43.0


From 70a9fe4e7e9ba4b4ac4d4e9bc43d2a38340d3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 05/68] fix: keep line order across nested includes

---
 oelint_parser/cls_stash.py | 15 +++++++++++++++
 oelint_parser/parser.py    | 18 ++++++------------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 40147ae..4d5eaf1 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -231,6 +231,21 @@ class Stash():
 
         return res
 
+    def _AddLinkedFile(self, _file: str, lineOffset: int, origin: str) -> int:
+        """Adds a file that is used by another file
+
+        Args:
+            _file (str): Full path to file
+            lineOffset (int): Overall line number of the statement using the file
+            origin (str): Full path to the file using it
+
+        Returns:
+            int: Number of lines occupied by the file and everything it uses
+        """
+        _known = len(self.__list)
+        self.AddFile(_file, lineOffset=lineOffset, forcedLink=origin)
+        return max((x.Line for x in self.__list[_known:]), default=lineOffset) - lineOffset
+
     def __is_append_for(self, append: str, recipe: str) -> bool:
         """Check if a bbappend applies to a recipe
 
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..98aed98 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -344,10 +344,8 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddLinkedFile(
+                                _path, line["line"] + includeOffset, _file)
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -371,10 +369,8 @@ def get_items(stash: object,
                             if inhname in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
-                            tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
-                            if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset += stash._AddLinkedFile(
+                                _path, line["line"] + includeOffset, _file)
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -435,10 +431,8 @@ def get_items(stash: object,
                     if _path:
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
-                        tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
-                        if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                        includeOffset += stash._AddLinkedFile(
+                            _path, line["line"] + includeOffset, _file)
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From 6d36f4921cb42e26b97fb42bdce6cced265d64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 06/68] fix: sort bbappends after everything used by the recipe

---
 oelint_parser/cls_stash.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4d5eaf1..c63b5fa 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -131,6 +131,8 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__parsing = []
+        self.__blocks = {}
+        self.__append_offsets = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -182,6 +184,7 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        _known = len(self.__list)
         self.__parsing.append(_file)
         try:
             res = get_items(self,
@@ -199,29 +202,28 @@ class Stash():
             self.__map[forcedLink].append(_file)
 
         # Match bbappends to bbs
+        _linked = False
         if _file.endswith(".bbappend"):
-            _maxline = 0
             for x in self.__map:
                 if self.__is_append_for(_file, x):
                     self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
+                    _linked = True
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
                 if self.__is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
-                    # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                    _linked = True
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
 
+        if _ext in [".bb", ".bbappend"]:
+            self.__blocks.setdefault(_file, []).extend(self.__list[_known:])
+            if _linked:
+                self.__arrange_appends()
+
         # Reset caches
         self._clear_cached()
 
@@ -231,6 +233,20 @@ class Stash():
 
         return res
 
+    def __arrange_appends(self) -> None:
+        """Pretend that bbappends are added to the end of all the recipes they apply to, in the order they were added"""
+        _end = {k: max((x.Line for x in v), default=0) for k, v in self.__blocks.items() if k.endswith(".bb")}
+        for append, items in self.__blocks.items():
+            if not append.endswith(".bbappend"):
+                continue
+            _recipes = [x for x in _end if append in self.__map[x]]
+            _offset = max((_end[x] for x in _recipes), default=0)
+            for item in items:
+                item.Line += _offset - self.__append_offsets.get(append, 0)
+            self.__append_offsets[append] = _offset
+            for x in _recipes:
+                _end[x] = max((i.Line for i in items), default=_end[x])
+
     def _AddLinkedFile(self, _file: str, lineOffset: int, origin: str) -> int:
         """Adds a file that is used by another file
 
-- 
2.43.0


From aea47bc80468ec2533458e3616024961fc12072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 07/68] fix: clear the caches of GetBBClasses,
 GetPackagesDynamic and IsDynamicPackage

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c63b5fa..13015e2 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -143,13 +143,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 3977a06a70fe2669438fa1289963b131456af0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:21 +0000
Subject: [PATCH 08/68] fix: drop cached results whenever links change

---
 oelint_parser/cls_stash.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 13015e2..e96930a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -181,6 +181,7 @@ class Stash():
             # no need to parse it (again), but it's still used by another file
             if forcedLink:
                 self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
@@ -343,6 +344,9 @@ class Stash():
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
 
+        # links have changed
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0


From a0902db1d5de93915c132853c256ab710bb296ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 09/68] fix: list only files that include an item in
 IncludedFrom

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e96930a..87a0bc5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -347,9 +347,9 @@ class Stash():
         # links have changed
         self._clear_cached()
 
-        for k, v in self.__map.items():
+        for k in self.__map.keys():
             for item in self.GetItemsFor(k):
-                item.IncludedFrom = v
+                item.IncludedFrom = [k]
 
         # Reset caches
         self._clear_cached()
-- 
2.43.0


From 857ca41fdaf0402724c687e8bf15400681ac5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 10/68] fix: ignore empty patterns in PACKAGES_DYNAMIC

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 87a0bc5..eac62ad 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -966,8 +966,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From 41ce508496842e52746a8e980cbbc3d7186863dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:15 +0000
Subject: [PATCH 11/68] fix: honor operators regardless of the whitespace
 around them in ExpandVar

---
 oelint_parser/cls_stash.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index eac62ad..7bf5758 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -550,31 +550,31 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = item.VarOp.strip()
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if INLINE_BLOCK in item.VarValueStripped:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
+            elif varop in ["=", ":="]:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ?= " and _exp[name] is None:
+            elif varop == "?=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " ??= " and _exp[name] is None:
+            elif varop == "??=" and _exp[name] is None:
                 _exp[name] = item.VarValueStripped
-            elif varop == " += ":
+            elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += " " + item.VarValueStripped
-            elif varop == " =+ ":
+            elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + " " + _exp[name]
-            elif varop in [" .= "]:
+            elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += item.VarValueStripped
-            elif varop in [" =. "]:
+            elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = item.VarValueStripped + _exp[name]
@@ -584,7 +584,6 @@ class Stash():
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
@@ -605,7 +604,6 @@ class Stash():
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-- 
2.43.0


From 67cf55135b8ff92976b9a3c878668befdc7836b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:26 +0000
Subject: [PATCH 12/68] fix: restore unknown inline blocks only

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7bf5758..053bcb9 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -778,8 +778,9 @@ class Stash():
 
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
-        for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+        for block, replacement in varref.InlineBlocks:
+            if replacement == INLINE_BLOCK:
+                res = res.replace(replacement, block, 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
-- 
2.43.0


From ad1a9812b7dacfa71c6672ee830cb54ee83b8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 13/68] fix: keep track of repeated inline blocks

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 98aed98..4c4aec0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From 6751fb11d89ef64a97212da6fafb3adde138249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:47 +0000
Subject: [PATCH 14/68] fix: apply operators to values with inline blocks in
 ExpandVar

---
 oelint_parser/cls_stash.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 053bcb9..7ae4cab 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -554,30 +554,28 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
+            if varop in ["=", ":="]:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in ["=", ":="]:
-                _exp[name] = item.VarValueStripped
             elif varop == "?=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = self._ReverseInlineBlock(item)
             elif varop == "??=" and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = self._ReverseInlineBlock(item)
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + self._ReverseInlineBlock(item)
             elif varop == "=+":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = self._ReverseInlineBlock(item) + " " + _exp[name]
             elif varop in [".="]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif varop in ["=."]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -589,15 +587,15 @@ class Stash():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += self._ReverseInlineBlock(item)
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
@@ -610,7 +608,7 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 4d13d81bf387aa9b2272416fb9e72ed8ecb62fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:17 +0000
Subject: [PATCH 15/68] fix: let remove operate on items of a value in
 ExpandVar

---
 oelint_parser/cls_stash.py | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7ae4cab..d7a2906 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -577,46 +577,32 @@ class Stash():
                     _exp[name] = ""
                 _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
         # and now for a second run with special append
+        _remove = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
             name = item.VarNameCompleteNoModifiers
-            if name not in _exp.keys():
-                _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += self._ReverseInlineBlock(item)
-            elif "append" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
+            if _exp.get(name) is None:
+                _exp[name] = ""
+            if "append" in item.SubItems:
                 _exp[name] += self._ReverseInlineBlock(item)
             elif "prepend" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
                 _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
-        # and now for the run with remove
-        for item in sorted(_res, key=lambda x: x.Line):
-            if isinstance(item, Unset):
-                continue
-            if item.IsImmediateModify():
-                continue
-            name = item.VarNameCompleteNoModifiers
-            if name not in _exp.keys():
-                _exp[name] = None
-            if "remove" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] = _exp[name].replace(self._ReverseInlineBlock(item), "")
+            # remove is applied on the items of the final value
+            elif "remove" in item.SubItems:
+                _remove.setdefault(name, []).append(self._ReverseInlineBlock(item))
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
             _newkey = self.ExpandTerm(filename, k)
             if _newkey not in _finalexp:
                 _finalexp[_newkey] = []
-            _finalexp[_newkey] += Item.safe_linesplit(
-                self.ExpandTerm(filename, v or ""))
+            _removed = [y for x in _remove.get(k, []) for y in Item.safe_linesplit(
+                self.ExpandTerm(filename, x))]
+            _finalexp[_newkey] += [x for x in Item.safe_linesplit(
+                self.ExpandTerm(filename, v or "")) if x not in _removed]
         return _finalexp
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From 43a199b530d73a017770c94537048ba55aa43391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 16/68] fix: evaluate weak defaults last in ExpandVar

---
 oelint_parser/cls_stash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d7a2906..432f615 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -541,12 +541,14 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
                 if item.VarName in _exp:
                     del _exp[item.VarName]
+                _weak.pop(item.VarName, None)
                 continue
             if not item.IsImmediateModify():
                 continue
@@ -558,8 +560,8 @@ class Stash():
                 _exp[name] = self._ReverseInlineBlock(item)
             elif varop == "?=" and _exp[name] is None:
                 _exp[name] = self._ReverseInlineBlock(item)
-            elif varop == "??=" and _exp[name] is None:
-                _exp[name] = self._ReverseInlineBlock(item)
+            elif varop == "??=":
+                _weak[name] = self._ReverseInlineBlock(item)
             elif varop == "+=":
                 if _exp[name] is None:
                     _exp[name] = ""
@@ -576,6 +578,10 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = self._ReverseInlineBlock(item) + _exp[name]
+        # weak defaults are considered only if there is no other value
+        for name, value in _weak.items():
+            if _exp[name] is None:
+                _exp[name] = value
         # and now for a second run with special append
         _remove = {}
         for item in sorted(_res, key=lambda x: x.Line):
-- 
2.43.0


From 143fe9238dd484da6fc5377013bde2b24351ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:53 +0000
Subject: [PATCH 17/68] fix: keep values of SRC_URI options containing an equal
 sign

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 432f615..0a1c626 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -707,7 +707,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
+        _parsed_opt = {x.split("=")[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-- 
2.43.0


From 5b8afbd6a23525014f7a519391f0611c237abd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 18/68] fix: let StashList append, extend and remove the items
 of other lists

---
 oelint_parser/cls_stash.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 0a1c626..d1afdef 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -62,20 +62,19 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
+            if isinstance(item, (list, tuple, UserList)):
                 for _item in item:
                     self.data.append(_item)
             else:
                 self.data.append(item)
 
-        def extend(self, other: 'Stash.StashList') -> None:
+        def extend(self, other: Iterable[Item]) -> None:
             """Extend list
 
             Args:
-                other (Stash.StashList): Other stash other
+                other (Iterable[Item]): Items to add
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
@@ -83,7 +82,7 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
+            if isinstance(item, (list, tuple, UserList)):
                 for _item in item:
                     self.data.remove(_item)
             else:
-- 
2.43.0


From cd349513755f0c9a6a53958982a76789bc02e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:41 +0000
Subject: [PATCH 19/68] fix: support slicing, copying and adding of StashList

---
 oelint_parser/cls_stash.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d1afdef..167f2f3 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -39,13 +39,33 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
+
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
-        def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+        def __add__(self, __value: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, [*self.data, *__value])
+
+        def __radd__(self, __value: Iterable) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, [*__value, *self.data])
+
+        def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
+            self.data += __value
+            return self
+
+        def copy(self) -> 'Stash.StashList':
+            """Copy list
+
+            Returns:
+                Stash.StashList: shallow copy of the list
+            """
+            return Stash.StashList(self._stash, self.data)
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
-- 
2.43.0


From 08baf87c2fd3fbd40624312f199cb54128fcfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 20/68] fix: allow to add a StashList to itself

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 167f2f3..3bef033 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -56,7 +56,7 @@ class Stash():
             return Stash.StashList(self._stash, [*__value, *self.data])
 
         def __iadd__(self, __value: Iterable) -> 'Stash.StashList':
-            self.data += __value
+            self.data += list(__value)
             return self
 
         def copy(self) -> 'Stash.StashList':
@@ -94,7 +94,7 @@ class Stash():
             Args:
                 other (Iterable[Item]): Items to add
             """
-            self.data.extend(other)
+            self.data.extend(list(other))
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From 369523ee8e656ea58714cca07a15707120807b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:31 +0000
Subject: [PATCH 21/68] fix: use a stable representation of sets for the
 fingerprint

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..31da7f8 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -258,7 +258,9 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        # sets have no reliable order
+        attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=attr)
 
 
 class Variable(Item):
-- 
2.43.0


From 289ba4f63d5617626a4aa570e15c948876758460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 22/68] fix: ignore classes individually

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 4c4aec0..5228a20 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -341,7 +341,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_item[:-len(".bbclass")] in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             includeOffset += stash._AddLinkedFile(
@@ -366,7 +366,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if inh_item[:-len(".bbclass")] in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             includeOffset += stash._AddLinkedFile(
-- 
2.43.0


From ec3200efc7f0db46a23fdda25b8ca494ec9eaf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 23/68] fix: return filtered items and configuration files in a
 stable order

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3bef033..4ed1438 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -405,7 +405,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -496,7 +496,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 2da02f4a7c7cf59948325dab20501d4b830fd63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:02 +0000
Subject: [PATCH 24/68] fix: return an empty result for paths below a leaf in
 GetByPath

---
 oelint_parser/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..6c7d244 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -38,7 +38,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     def AddConstants(self, _dict: dict) -> None:
-- 
2.43.0


From fe82ea37e6abb073307c52db7921f68d13ab1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:14 +0000
Subject: [PATCH 25/68] fix: do not modify constants passed by the caller

---
 oelint_parser/constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 6c7d244..ba6bda9 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -56,7 +57,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -90,7 +91,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From 53e7db266114a00ed9c66db822c1640f42a9dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 26/68] fix: keep the type of constants in RemoveConstants

---
 oelint_parser/constants.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index ba6bda9..965200f 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -71,8 +71,12 @@ class Constants():
                     pass
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
-                else:
+                elif isinstance(a[k], dict):
+                    a[k] = {x: y for x, y in a[k].items() if x not in v}
+                elif isinstance(a[k], list):
                     a[k] = [x for x in a[k] if x not in v]
+                else:
+                    del a[k]
             return a
         self.__db = dict_merge(self.__db, _dict)
 
-- 
2.43.0


From 36fa9c2a31945bb11dd4e2eacf2eadcc529eefc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 27/68] fix: consider files located directly in the root of a
 layer

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4ed1438..8c3ed6f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -665,11 +665,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     @functools.cache  # noqa: B019
@@ -687,14 +687,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.exists(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == "/":
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From c4286ce4013f30ae77761be4e236af77393fcead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 28/68] fix: do not take directories for files to include

---
 oelint_parser/cls_stash.py | 4 ++--
 oelint_parser/parser.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8c3ed6f..8de5435 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -683,12 +683,12 @@ class Stash():
         Returns:
             str -- path to found file or None
         """
-        if os.path.exists(os.path.join(localdir, name)):
+        if os.path.isfile(os.path.join(localdir, name)):
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                if os.path.exists(os.path.join(_curdir, name)):
+                if os.path.isfile(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5228a20..32e60c4 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -227,7 +227,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
                         _iter, lineOffset, num, nextbuf, negative=negative)
                     num += length
                     prep_lines.append(item)
-    except FileNotFoundError:
+    except (FileNotFoundError, IsADirectoryError):
         pass
     return prep_lines
 
-- 
2.43.0


From cf0587aecc9271e83e9c4c78df63b0e9b9dcfa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:17 +0000
Subject: [PATCH 29/68] fix: get the entire name of an unset variable

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 32e60c4..a46bcd0 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^\s*unset\s+(?P<varname>[^\s\[]+)(\[(?P<flag>[^\]]+)\])?")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From bf38834e9a0f5e83b0a89c5aa818f569f74d8f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 30/68] fix: detect python functions with uppercase names and
 annotations

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a46bcd0..5e3a81c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->[^:]+)?\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From 1a8ef815f136a8ada6d02f12ef9dd7292632e8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:43 +0000
Subject: [PATCH 31/68] fix: keep function names starting with a keyword

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5e3a81c..e8c9ac5 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python)(?=\s|\()\s*|(?P<fr>fakeroot\s+))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 9ec2324b351b86e4ded18d3dfdc019761a91b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:54 +0000
Subject: [PATCH 32/68] fix: accept all characters allowed in names of
 variables

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index e8c9ac5..0e74ea2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python)(?=\s|\()\s*|(?P<fr>fakeroot\s+))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|\+|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From 2688207ea00be5c0402e6971658e4c8088490a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:06 +0000
Subject: [PATCH 33/68] fix: do not truncate names of include files

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0e74ea2..35f9345 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->[^:]+)?\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From a8e290f116500f92c9f89005b8ff4b22bf92e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 34/68] fix: resolve inherited classes separated by any
 whitespace

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 35f9345..6eabbe2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,7 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -355,7 +355,7 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
-- 
2.43.0


From 1839117db20b51ae5239fa1713235d5d03b837a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 35/68] fix: get body of functions with a variable in their
 name

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 31da7f8..79c2ecd 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -632,7 +632,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", self.Raw.find(")")) + 1:].rstrip().rstrip("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From c3acb7937a1606bc360ff18bcddf1b2c8c56a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 36/68] fix: ignore whitespace behind quoted values

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 79c2ecd..b8c4a40 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -414,7 +414,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValue.strip().strip('"')
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -865,7 +865,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip('"')
+        return self.__value.strip().strip('"')
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From 856085ae1a359811cd6970fc8533afa551c2a4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 37/68] fix: know class-nativesdk as an override of functions

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index b8c4a40..aa71062 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -218,7 +218,7 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
@@ -736,7 +736,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From 06d904a521670ae8e1a7b6895a00b0cdf1ba4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 38/68] fix: do not take the operator for a part of an exported
 name

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 6eabbe2..459daed 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*(\?\?|[?:+.])?=[+.]?\s*\"(?P<value>.*)\"")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 1fb8f42385f18179cbb699c3ef40c5d962e33018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 39/68] fix: allow before and after within names of tasks

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 459daed..df84d70 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=\bafter\s))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=\bbefore\s))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 1c337595401b849193b5afd68573f0d6a0c4570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 40/68] fix: ignore additional arguments of d.getVar

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..da8c666 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -24,7 +24,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,[^)]*)?\)')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From 75ed41fb8ee60e5ccd576f659dd4a3de62efad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 41/68] fix: replace inline blocks only if d.getVar is all they
 contain

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index da8c666..6a87944 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -24,7 +24,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*(,[^)]*)?\)')
+__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>[^,()]+?)\s*(,[^()]*)?\)\s*$')
 
 
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
-- 
2.43.0


From 6f8f8ab46e9b26759b7faf0b7306267fc2e61609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 42/68] fix: recognise python functions with a tab behind def

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index df84d70..851a0a7 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -147,7 +147,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 except StopIteration:
                     stopiter = True
                     next_ = ''
-        elif res.strip().startswith("def "):
+        elif res.strip().startswith(("def ", "def\t")):
             stopiter = False
             while not stopiter:
                 try:
-- 
2.43.0


From 9c8d818475b1004f0feb1de8525f7d582b3b2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 43/68] fix: do not split arguments of inline helpers at quoted
 or nested commas

---
 oelint_parser/inlinerep.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 6a87944..229deaa 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -2,28 +2,31 @@ import regex
 
 from oelint_parser.rpl_regex import RegexRpl
 
+# a function argument: commas within quotes or brackets do not end it
+__arg__ = r"""(?:"[^"]*"|'[^']*'|\[[^\[\]]*\]|\((?:[^()]|\([^()]*\))*\)|[^,"'()\[\]])*?"""
+
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    rf'(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__})\s*,{__arg__},.*?\)')
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    rf"(.*)oe\.utils\.conditional\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.*?\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    rf"(.*)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})\s*(,\s*(?P<falseval>{__arg__})\s*)*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,.*?\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,.*?\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,.*?\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.both_contain\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,.*?\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>[^,()]+?)\s*(,[^()]*)?\)\s*$')
 
 
-- 
2.43.0


From 2bb4a9202c22dc9843c4cafbde003fa8c5aa6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 44/68] fix: keep spared references in nested values

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8de5435..b223dfc 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -826,7 +826,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -835,7 +835,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 17a01145932c0822a1a2b2dc286d32d9d32f7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:22 +0000
Subject: [PATCH 45/68] fix: let StashList append and remove its own items

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b223dfc..325f1a7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -83,7 +83,7 @@ class Stash():
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
             if isinstance(item, (list, tuple, UserList)):
-                for _item in item:
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
@@ -103,7 +103,7 @@ class Stash():
                 item (Item): Item(s) to remove
             """
             if isinstance(item, (list, tuple, UserList)):
-                for _item in item:
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From 78279249e2f83df978d71e7fca42a77769da8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 46/68] fix: keep query and fragment of the location in
 GetScrComponents

---
 oelint_parser/cls_stash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 325f1a7..f8ff121 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -717,13 +717,17 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
+        if _url.query:
+            _tmp += "?" + _url.query
+        if _url.fragment:
+            _tmp += "#" + _url.fragment
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = {x.split("=")[0]: x.split("=", 1)[1]
-- 
2.43.0


From 34840f90cd21c5db6ba317a94a33ba87546dcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:43 +0000
Subject: [PATCH 47/68] fix: take directories literally in GetFiles

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f8ff121..244dedb 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -645,9 +645,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From 8c54dd827fde3c0c37f193d9214d91378973d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 48/68] fix: take the path of a layer literally when looking
 for machines and distros

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 244dedb..c300325 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -346,10 +346,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
-- 
2.43.0


From d01b5d0e65699ddaba671d8623d09857cb729094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 49/68] fix: do not take directories for files in GetFiles

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index c300325..4357156 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -650,7 +650,7 @@ class Stash():
             files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
-            res.update(glob.glob(item))
+            res.update(x for x in glob.glob(item) if os.path.isfile(x))
         return sorted(res)
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From b583d20db26a01255bfb9025d3862fa7b54df786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:36 +0000
Subject: [PATCH 50/68] fix: do not crash on invalid patterns in
 IsDynamicPackage

---
 oelint_parser/cls_stash.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4357156..ea4be76 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -996,7 +996,10 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                continue  # not a valid expression, matches nothing
 
         return False
-- 
2.43.0


From 4469186a8711d45fd0f56c3a3a80f4476af61283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:24 +0000
Subject: [PATCH 51/68] fix: honor flags in RegexRpl.match

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 851a0a7..10e8e71 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..0308457 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From a56f4ddbc51a7600303d9059268b765e2233f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:10 +0000
Subject: [PATCH 52/68] fix: handle timeouts in RegexRpl.finditer

---
 oelint_parser/cls_stash.py |  6 +++---
 oelint_parser/rpl_regex.py | 11 ++++++-----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index ea4be76..8617b80 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -857,11 +857,11 @@ class Stash():
                 res = res.replace(
                     m.group(0), f'{quote}{os.path.dirname(_file)}{quote}')
             return res
-        for m in list(RegexRpl.finditer(__variable_pattern_regex__, value)):
+        for m in list(RegexRpl.finditer(__variable_pattern_regex__, value, default=[])):
             res = _expand(res, _file, m)
-        for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value)):
+        for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value)):
+        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[])):
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index 0308457..36ed343 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -1,6 +1,6 @@
-from typing import List, Union
+from typing import Iterator, List, Union
 
-from regex import Match, Scanner, regex
+from regex import Match, regex
 
 
 class RegexRpl():
@@ -87,7 +87,7 @@ class RegexRpl():
             return default
 
     @staticmethod
-    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = None, **kwargs) -> Scanner:
+    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = None, **kwargs) -> Iterator[Match]:
         """replacement for re.finditer
 
         Args:
@@ -98,9 +98,10 @@ class RegexRpl():
             default (_type_, optional): Default to return on timeout. Defaults to None.
 
         Returns:
-            Scanner: Scanner object or None
+            Iterator: Iterator of match objects or None
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # matching happens while iterating, so iterate where timeouts are handled
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
             return default
-- 
2.43.0


From 419b69401a215c04285b5b1d5e0951deef6bc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:49 +0000
Subject: [PATCH 53/68] fix: do not crash on unreadable files in
 oe.utils.read_file

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 8617b80..9044e8e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -867,7 +867,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From fc763ca96020a0a30837814e4b0393eba340f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:28 +0000
Subject: [PATCH 54/68] fix: split lists of tasks and exported functions at
 tabs and line continuations, too

---
 oelint_parser/cls_item.py | 6 +++---
 oelint_parser/parser.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index aa71062..34963cc 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -908,7 +908,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self._safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -947,8 +947,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self._safe_linesplit(before or "")
+        self.__After = self._safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 10e8e71..7b1ebae 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=\bafter\s))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=\bbefore\s))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before[\s\x1b]*(?P<before>(([^#\n]*(?=\bafter[\s\x1b]))|([^#\n]*))))|(after[\s\x1b]*(?P<after>(([^#\n]*(?=\bbefore[\s\x1b]))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From b7da1b0028f049e0690b316f276fbc62aa962e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:47 +0000
Subject: [PATCH 55/68] fix: export of a value in single quotes

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 7b1ebae..92f18f5 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*(\?\?|[?:+.])?=[+.]?\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>.+?)\s*(\?\?|[?:+.])?=[+.]?\s*(?P<quote>[\"'])(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 68049481b15973b614814f1bc23f40af199ffe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:06 +0000
Subject: [PATCH 56/68] fix: keep leading and double underscores of names

---
 oelint_parser/cls_item.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 34963cc..ec74a34 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -200,7 +200,6 @@ class Item():
                 _suffix.append(i + tmp)
             else:
                 _var.append(i + tmp)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
@@ -228,7 +227,6 @@ class Item():
                 break
             else:
                 _var.append(i)
-        _var = [x for x in _var if x]
         _suffix = [x for x in _suffix if x]
         return (self.__OverrideDelimiter.join(_var), self.__OverrideDelimiter.join(_suffix))
 
-- 
2.43.0


From b65ddef40ce8fe251cbeb8df8f931d1561f81cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:26 +0000
Subject: [PATCH 57/68] fix: function names starting with the text of their
 override

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index ec74a34..6d5c976 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -221,9 +221,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for n, i in enumerate(chunks[1:], 1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[n:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 78635a9a3a271fe895d4c3ac5d15f9a074740d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 58/68] fix: FunctionExports.ATTR_FUNCNAME names an attribute
 the class does not have

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 6d5c976..f71ad08 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -877,7 +877,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0


From 3001e8a1fe2168c6d7f1139a1115511cf125b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:54 +0000
Subject: [PATCH 59/68] fix: ExpandVar(nolink=True) applies unset statements of
 linked files

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9044e8e..451a276 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -547,7 +547,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
-- 
2.43.0


From 4099283838658b220f0d36b9bb61199e435e74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:15 +0000
Subject: [PATCH 60/68] fix: endless loop for paths that start with two slashes

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 451a276..bbf905d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -668,7 +668,7 @@ class Stash():
         while os.path.isdir(_curdir):
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 return _curdir
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
@@ -693,7 +693,7 @@ class Stash():
                     return os.path.join(_curdir, name)
                 else:
                     break
-            if _curdir == "/":
+            if _curdir == os.path.dirname(_curdir):
                 break
             _curdir = os.path.dirname(_curdir)
         return ""
-- 
2.43.0


From 359b210c1bd089b7534b4fb71615fa67c6d06e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:33 +0000
Subject: [PATCH 61/68] fix: text such as f() { in a value or comment swallows
 the following lines

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 92f18f5..c830026 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"^\s*((?P<py>python)\s+|(?P<fr>fakeroot)\s+)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0


From aa9485cfd42fe6a99135303ac6bc272d623a682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:52 +0000
Subject: [PATCH 62/68] fix: statements starting with _ or $ behind a python
 function are swallowed

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c830026..c8c555c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*((?P<py>python)\s+|(?P<fr>fakeroot)\s+)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From 064ab19147aed8a8706ab711e543ae9e1d6f4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:14 +0000
Subject: [PATCH 63/68] fix: backslashes within a line are taken for line
 continuations

---
 oelint_parser/cls_item.py | 4 ++--
 oelint_parser/parser.py   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index f71ad08..b84ba50 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -7,7 +7,7 @@ import regex
 from oelint_parser.constants import CONSTANTS
 from oelint_parser.rpl_regex import RegexRpl
 
-__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)")
+__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 
@@ -423,7 +423,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\\x1b" in self.Raw or "\\\n" in self.Raw
+        return "\\\n" in self.Raw
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index c8c555c..678a392 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,6 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"^\s*((?P<py>python)\s+|(?P<fr>fakeroot)\s+)*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
+__continuation_regex__ = regex.compile(r"\\(?=[^\S\n]*(\n|$))")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
@@ -183,7 +184,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           "cnt": RegexRpl.sub(__continuation_regex__, chr(0x1b), raw_line).replace("\n", "")}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 9d9500f230f54e869740f4180deb2751d549d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:34 +0000
Subject: [PATCH 64/68] fix: arguments of inline helpers that end in the other
 kind of quote lose it

---
 oelint_parser/inlinerep.py | 56 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 229deaa..cc20cf5 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -30,6 +30,20 @@ __oe_utils_both_contain_regex__ = regex.compile(
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>[^,()]+?)\s*(,[^()]*)?\)\s*$')
 
 
+def unquote(value: str) -> str:
+    """Text of a python string
+
+    Args:
+        value (str): python expression
+
+    Returns:
+        str: Text between the quotes, or the expression itself if it is not quoted
+    """
+    if len(value) > 1 and value[0] in "\"'" and value[-1] == value[0]:
+        return value[1:-1]
+    return value
+
+
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     """bb.utils.filter emulation
 
@@ -46,7 +60,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -65,8 +79,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -85,8 +99,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -105,8 +119,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -125,8 +139,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -147,8 +161,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return unquote(falseval)
+        return unquote(trueval)
     return None
 
 
@@ -169,8 +183,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return unquote(falseval)
+        return unquote(trueval)
     return None
 
 
@@ -189,8 +203,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -209,8 +223,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -229,8 +243,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return unquote(m.group('falseval'))
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -250,7 +264,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return unquote(m.group('trueval'))
     return None
 
 
@@ -267,7 +281,7 @@ def d_getvar(_in: str) -> str:
         return None
     m = RegexRpl.match(__d_getvar_regex__, _in)
     if m:
-        return '${' + m.group("val").strip("\"'") + '}'
+        return '${' + unquote(m.group("val")) + '}'
     return None
 
 
-- 
2.43.0


From 4206f790f3b87c6cacad9e26310be5df40a4206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:53 +0000
Subject: [PATCH 65/68] fix: calls of inline helpers that are continued or have
 blanks in front of the closing parenthesis

---
 oelint_parser/inlinerep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index cc20cf5..9f611f9 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -8,9 +8,9 @@ __arg__ = r"""(?:"[^"]*"|'[^']*'|\[[^\[\]]*\]|\((?:[^()]|\([^()]*\))*\)|[^,"'()\
 __bb_utils_filter_regex__ = regex.compile(
     rf'(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__})\s*,{__arg__},.*?\)')
 __bb_utils_contains_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\)")
+    rf"(.*)bb\.utils\.contains\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\s*\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\)")
+    rf"(.*)bb\.utils\.contains_any\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.\s*\)")
 __oe_utils_conditional_regex__ = regex.compile(
     rf"(.*)oe\.utils\.conditional\({__arg__},{__arg__},\s*(?P<trueval>{__arg__})\s*,\s*(?P<falseval>{__arg__})\s*,\s*.*?\)")
 __oe_utils_ifelse_regex__ = regex.compile(
@@ -295,7 +295,8 @@ def inlinerep(_in: str, negative_clause: bool = False) -> str:
     Returns:
         str: Expanded string or None, if not applicable
     """
-    _clean_in = _in.lstrip("${@").rstrip("}")
+    # continued lines are joined before the code is evaluated
+    _clean_in = RegexRpl.sub(r"\\\s*\n", "", _in).lstrip("${@").rstrip("}")
     for x in [
         bb_utils_contains(_clean_in, negative_clause),
         bb_utils_contains_any(_clean_in, negative_clause),
-- 
2.43.0


From e5ab47aebeadc701f7ed88cb0fc7f9987ba1fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:14 +0000
Subject: [PATCH 66/68] fix: oe.utils.read_file replaces the text around it

---
 oelint_parser/cls_stash.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index bbf905d..6d25133 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -21,7 +21,7 @@ __variable_pattern_regex__ = regex.compile(r"\$\{(.+?)\}")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
-    r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
+    r"\$\{@\s*oe\.utils\.read_file\(\s*(?P<file>\"[^\"]*\"|'[^']*'|[^()\"']*)\s*\)\s*\}")
 
 
 class Stash():
@@ -858,18 +858,24 @@ class Stash():
                 res = res.replace(
                     m.group(0), f'{quote}{os.path.dirname(_file)}{quote}')
             return res
+        _files = list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[]))
+        if _files:
+            res, _pos = '', 0
+            for m in _files:
+                res += self.ExpandTerm(_file, value[_pos:m.start()], spare=spare, seen=seen)
+                try:
+                    _fullpath = self.ExpandTerm(_file, m.group(
+                        "file"), spare=spare, seen=seen).strip("'\"")
+                    with open(_fullpath) as i:
+                        res += i.read()
+                except (OSError, ValueError):
+                    pass
+                _pos = m.end()
+            return res + self.ExpandTerm(_file, value[_pos:], spare=spare, seen=seen)
         for m in list(RegexRpl.finditer(__variable_pattern_regex__, value, default=[])):
             res = _expand(res, _file, m)
         for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value, default=[])):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value, default=[])):
-            try:
-                _fullpath = self.ExpandTerm(_file, m.group(
-                    "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath) as i:
-                    res = i.read()
-            except (OSError, ValueError):
-                res = ''
         return res
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From 8600c0618848196cd87efd966f004776be5b55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:24 +0000
Subject: [PATCH 67/68] fix: task names such as x-after are taken for the
 keyword after

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 678a392..370a5f8 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}+@~]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before[\s\x1b]*(?P<before>(([^#\n]*(?=\bafter[\s\x1b]))|([^#\n]*))))|(after[\s\x1b]*(?P<after>(([^#\n]*(?=\bbefore[\s\x1b]))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)[\s\x1b]*((before[\s\x1b]*(?P<before>(([^#\n]*(?=(?<=[\s\x1b])after[\s\x1b]))|([^#\n]*))))|(after[\s\x1b]*(?P<after>(([^#\n]*(?=(?<=[\s\x1b])before[\s\x1b]))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From 529dfab061011f345681f265b9c0b54647a01c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:04 +0000
Subject: [PATCH 68/68] fix: exponential growth of links in Finalize for files
 that include each other

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6d25133..5bc1c19 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -358,7 +358,7 @@ class Stash():
         """
         # cross link all the files
         for k in self.__map.keys():
-            for item in self.__map[k][:]:
+            for item in set(self.__map[k]):
                 self.__map[k] += self.__map[item]
             self.__map[k].append(k)
             self.__map[k] = list(set(self.__map[k]))
-- 
2.43.0

