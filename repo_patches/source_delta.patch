From 8d43568c16a53cf9848270bc074136c598c15bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 01/77] fix: _exact_space_ no longer implies _exact_ for digits
 in template line

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..52fea07 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2178,7 +2178,8 @@ class _variable_class:
                     )
                     # prior to 0.8.0 variant that only accounts for spaces
                     # string_before_var = re.sub(r"(\\ )+", r"\\ +", string_before_var)
-                if not "_exact_" in self.LINE:
+                # "_exact_space_" contains "_exact_" but says nothing about digits
+                if not "_exact_" in self.LINE.replace("_exact_space_", ""):
                     string_before_var = re.sub(r"\d+", r"\\d+", string_before_var)
                 line_chunks.append(string_before_var)
             # append current match variable to chunks
-- 
2.43.0


From f97ea75d14b3c4f339b8b7398cf9ec084186e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 02/77] fix: lines of any depth below an ended or rejected
 group are not saved

---
 ttp/ttp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 52fea07..7671718 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1646,6 +1646,7 @@ class _group_class:
         pathchar=".",
         vars=None,
         parent_group_id=None,
+        ancestors_ids=None,
     ):
         """Init method
         Attributes:
@@ -1667,6 +1668,7 @@ class _group_class:
             grp_index (int): unique index of the group
             name (str): dot separate path string representing group result location within results tree
             group_id (tuple): unique ID of the group, tuple of (self.name, self.grp_index,)
+            ancestors_ids (list): group_id tuples of all parent groups, top group first
         """
         self._ttp_ = _ttp_
         self.pathchar = pathchar
@@ -1686,6 +1688,7 @@ class _group_class:
         self.name = ""
         self.group_id = ""
         self.parent_group_id = parent_group_id
+        self.ancestors_ids = list(ancestors_ids or [])
         self.vars = vars or {}
         self.grp_index = grp_index
         self.inputs = []
@@ -1901,6 +1904,7 @@ class _group_class:
                     vars=self.vars,
                     grp_index=g_index,
                     parent_group_id=self.group_id,
+                    ancestors_ids=self.ancestors_ids + [self.group_id],
                     _ttp_=self._ttp_,
                 )
             )
@@ -2817,8 +2821,11 @@ class _results_class:
                 if result_data == False:
                     self.ended_groups.add(re_["GROUP"].group_id)
                     continue
-                # if parent is ended skip this child group results
-                elif re_["GROUP"].parent_group_id in self.ended_groups:
+                # if any of the parents is ended skip this child group results
+                elif any(
+                    group_id in self.ended_groups
+                    for group_id in re_["GROUP"].ancestors_ids
+                ):
                     continue
                 # evaluate results to check if need to un-end ended group
                 elif re_["GROUP"].group_id in self.ended_groups:
-- 
2.43.0


From e039222fe581df443de77ff4b65c57b455251d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 03/77] fix: child results of a valueless list record start a
 new list item

---
 ttp/ttp.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 7671718..39487e0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2694,6 +2694,7 @@ class _results_class:
             "GRP_ID": None,
         }
         self.dyn_path_cache = {}
+        self.empty_path = None  # path of started but empty list item not saved yet
         self._ttp_["results_object"] = self
 
     def make_results(self, variables, raw_results, main_results):
@@ -3016,6 +3017,15 @@ class _results_class:
 
     def save_curelements(self, result_data, result_path):
         """Method to save current group results in self.results"""
+        # check if previous group started but had nothing to save in its list and
+        # this is a result of its child, need new list item for it in such a case
+        empty_path, self.empty_path = self.empty_path, None
+        if (
+            empty_path
+            and len(result_path) > len(empty_path)
+            and result_path[: len(empty_path)] == empty_path
+        ):
+            self.dict_by_path(PATH=list(empty_path), ELEMENT=self.results).append({})
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         if isinstance(E, list) and result_data:
@@ -3023,6 +3033,8 @@ class _results_class:
                 self._merge_recursively(E[-1], result_data)
             else:
                 E.append(result_data)
+        elif isinstance(E, list) and E:
+            self.empty_path = list(result_path)
         elif isinstance(E, dict):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E, result_data)
-- 
2.43.0


From 20384dfff30a033ab539cc0fd44326f578e61c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 04/77] fix: use start match that passed checks when other
 start matches of the line did not

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 39487e0..2ae83bb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2815,6 +2815,13 @@ class _results_class:
                             # prefer result with same path as current record
                             if re_["GROUP"].group_id == self.record["GRP_ID"]:
                                 break
+                    # never prefer start result that did not pass validation
+                    # check over the one that did
+                    if result_data == False:
+                        for index in startempty_re or start_re:
+                            if result[index][1] != False:
+                                re_ = result[index][0]
+                                result_data = result[index][1]
 
                 group = re_["GROUP"]
 
-- 
2.43.0


From 693df0330da62c1297acc777a78b79964c9b9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 05/77] fix: null path item never appears as a key of an empty
 parent's list

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2ae83bb..9716088 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2944,7 +2944,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
+            if KEYS[0][0] == "_":
                 if len(KEYS) == 1:
                     return {}
                 else:
-- 
2.43.0


From abaef6b36a4b02be616d5b01421b6d53bd1ae805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 06/77] fix: dynamic path keys are the matched text whatever
 characters it has

---
 ttp/ttp.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9716088..b234875 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3237,24 +3237,22 @@ class _results_class:
             path_item = path_item.rstrip("*")
             match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
             if match:
+                repl = {}
                 for m in match:
-                    pattern = r"{{\s*" + m + r"\s*}}"
                     if m in self.record["result"]:
                         self.dyn_path_cache[m] = self.record["result"][m]
-                        repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
+                        repl[m] = str(self.record["result"].pop(m))
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        repl[m] = str(self.dyn_path_cache[m])
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        repl[m] = str(self.variables[m])
                     else:
                         return False
+                # use function, values can contain backslashes or anything else
+                # that has special meaning in replacement string
+                path_item = re.sub(
+                    r"{{\s*(\S+)\s*}}", lambda x: repl[x.group(1)], path_item
+                )
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From 575fcc4b12257976d1a01bcb082463bbf18d2c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 07/77] fix: dynamic_path_key_to_int loses no records with
 repeated integer keys

---
 ttp/ttp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b234875..6ea2273 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2915,6 +2915,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer same as dict_by_path does
+                name = int(name) if name.isdecimal() else name
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2953,7 +2956,7 @@ class _results_class:
             asterisk_count = KEYS[0][1]
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+                name = int(name) if name.isdecimal() else name
             if asterisk_count == "*":  # if one * at the end - make a list
                 if len(KEYS) == 1:  # if KEYS=[1,2,3,4*], returns {1:{2:{3:{4:[{}]}}}}
                     return {name: []}  # if last item in PATH - return emplty list
@@ -2977,9 +2980,6 @@ class _results_class:
             return ELEMENT  # check if PATH is empty, if so - stop and return ELEMENT
         elif isinstance(ELEMENT, dict):
             name = PATH[0][0]
-            if self._ttp_["dynamic_path_key_to_int"]:
-                # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
             # add support for null path
             if name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
@@ -2987,6 +2987,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdecimal() else name
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From 6179d4526aa208445583201fbf877e1c1ddfb42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 08/77] fix: group closed right after its child group, with no
 text in between, is loaded

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6ea2273..3f7dccd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1909,7 +1909,7 @@ class _group_class:
                 )
             )
             # get regexes from tail
-            if group.tail.strip():
+            if group.tail and group.tail.strip():
                 self.get_regexes(data=group.tail, tail=True)
 
     def set_runs(self):
-- 
2.43.0


From ea44a7edb7e927d455b7daf3a6b6d08db711a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 09/77] fix: matched text equal to _ is a dynamic path key and
 not a null path

---
 ttp/ttp.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3f7dccd..f8b7eac 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2905,7 +2905,7 @@ class _results_class:
         if PATH:
             name = PATH[0][0]
             # add support for null path
-            if name == "_":
+            if PATH[0][2]:
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
                     if isinstance(DATA, dict):
                         DATA.update(result)
@@ -2947,7 +2947,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0][0] == "_":
+            if KEYS[0][2]:
                 if len(KEYS) == 1:
                     return {}
                 else:
@@ -2981,7 +2981,7 @@ class _results_class:
         elif isinstance(ELEMENT, dict):
             name = PATH[0][0]
             # add support for null path
-            if name == "_":
+            if PATH[0][2]:
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
@@ -3230,14 +3230,17 @@ class _results_class:
     def form_path(self, path):
         """
         Method to form dynamic path transforming it into a list of tuples,
-        where each tuple first element is a path item value and second
-        element is a number of asterisks, need to keep asterisks count
+        where each tuple first element is a path item value, second
+        element is a number of asterisks and third element is True for
+        null path item, need to keep asterisks count
         separatefrom path item value becasue match result value can end
         with asterisk - issue #97
         """
         for index, path_item in enumerate(path):
             asterisk_count = len(path_item) - len(path_item.rstrip("*"))
             path_item = path_item.rstrip("*")
+            # match result value can be equal to "_", that is not a null path
+            is_null_path = path_item == "_"
             match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
             if match:
                 repl = {}
@@ -3259,6 +3262,7 @@ class _results_class:
             path[index] = (
                 path_item,
                 asterisk_count * "*",
+                is_null_path,
             )
         return path
 
-- 
2.43.0


From 565da38e1a04fe0053ff6b56dcbafb3f46f5afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 10/77] fix: match function item keeps empty string or list
 instead of raising IndexError

---
 ttp/match/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/match/item.py b/ttp/match/item.py
index 83c86a1..5fc85ed 100644
--- a/ttp/match/item.py
+++ b/ttp/match/item.py
@@ -1,6 +1,9 @@
 def item(data, item_index):
     """Method to return item of iterable at given index"""
     item_index = int(item_index)
+    # nothing to return item of
+    if len(data) == 0:
+        return data, None
     # item_index not out of range
     if 0 <= item_index and item_index <= len(data) - 1:
         return data[item_index], None
-- 
2.43.0


From ae7e7728fde94c1d6c62c721c7087f5ba478b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 11/77] fix: _re checks anchor the whole pattern, alternatives
 included

---
 ttp/match/re_.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/re_.py b/ttp/match/re_.py
index a25b03a..ffbbaf9 100644
--- a/ttp/match/re_.py
+++ b/ttp/match/re_.py
@@ -2,13 +2,13 @@ import re
 
 
 def startswith_re(data, pattern):
-    if re.search("^{}".format(pattern), data):
+    if re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def endswith_re(data, pattern):
-    if re.search("{}$".format(pattern), data):
+    if re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
@@ -20,13 +20,13 @@ def contains_re(data, pattern):
 
 
 def notstartswith_re(data, pattern):
-    if not re.search("^{}".format(pattern), data):
+    if not re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def notendswith_re(data, pattern):
-    if not re.search("{}$".format(pattern), data):
+    if not re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
-- 
2.43.0


From 0de3a025f8b062835932933b99e24838e47007e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 12/77] fix: greaterthan and lessthan accept integer arguments
 and do not raise for non-decimal digits

---
 ttp/match/string.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..c95843e 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -38,15 +38,17 @@ def notdigit(data):
 
 
 def greaterthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) > int(value.strip()):
+    data_, value_ = str(data).strip(), str(value).strip()
+    if data_.isdecimal() and value_.isdecimal():
+        if int(data_) > int(value_):
             return data, True
     return data, False
 
 
 def lessthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) < int(value.strip()):
+    data_, value_ = str(data).strip(), str(value).strip()
+    if data_.isdecimal() and value_.isdecimal():
+        if int(data_) < int(value_):
             return data, True
     return data, False
 
-- 
2.43.0


From 66d325896ce4c91b4e17c1d999b76ac088c883c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 13/77] fix: to_float and to_int keep a value they cannot
 convert instead of raising

---
 ttp/match/to.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..c9b31ba 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -14,9 +14,9 @@ def to_list(data):
 def to_int(data):
     try:
         return int(data), None
-    except ValueError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: ValueError, failed to convert value '{}' to integer".format(
+            "ttp.to_int: failed to convert value '{}' to integer".format(
                 data
             )
         )
@@ -26,9 +26,9 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
+            "ttp.to_float: failed to convert value '{}' to float".format(data)
         )
         return data, None
 
-- 
2.43.0


From 302391926c5f37405b1e9d98be55960884bc380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 14/77] fix: to_list leaves a value that is not a string as it
 is

---
 ttp/match/to.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index c9b31ba..a93ff36 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -8,6 +8,8 @@ def to_str(data):
 
 
 def to_list(data):
+    if not isinstance(data, str):
+        return data, None
     return [data], None
 
 
-- 
2.43.0


From cee5df0cbbf649873e1df3c7c7e62c5558bdde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 15/77] fix: append and prepend use global variables

---
 ttp/match/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index c95843e..28cbf4f 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -64,7 +64,7 @@ def append(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
@@ -78,7 +78,7 @@ def prepend(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-- 
2.43.0


From 7fe3c00cd95e96cd5c8e3e934ddd1df46440c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 16/77] fix: unrange keeps a value with incomplete range
 instead of raising

---
 ttp/match/unrange.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 3a5d452..b473f5f 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -18,9 +18,12 @@ def unrange(data, rangechar, joinchar):
     for item in data.split(rangechar):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
+        # range has no start or no end, e.g. '-5' or '1-'
+        if not item_split:
+            return data, None
         if result:
-            start_int = int(result[-1])
             try:
+                start_int = int(result[-1])
                 end_int = int(item_split[0])
             except ValueError as e:
                 log.error(
-- 
2.43.0


From ce2b5d629a3c05d02808f414b7b449d9d0668172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 17/77] fix: join inserts characters between characters of a
 string as documented

---
 ttp/match/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 28cbf4f..0b2b1ef 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -54,7 +54,7 @@ def lessthan(data, value):
 
 
 def join(data, char):
-    if isinstance(data, list):
+    if isinstance(data, (list, str)):
         return char.join(data), None
     else:
         return data, None
-- 
2.43.0


From a99f21cf0d187951f87c9faeb12b1d05e6788265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 18/77] fix: joinmatches combines strings with other values in
 a list instead of raising

---
 ttp/ttp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f8b7eac..a3f02ec 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3184,13 +3184,19 @@ class _results_class:
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
-                    if isinstance(self.record["result"][k], str):
+                    if isinstance(self.record["result"][k], str) and isinstance(
+                        result[k], str
+                    ):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
                         if isinstance(result[k], list):
                             self.record["result"][k] += result[k]  # join lists
                         else:
                             self.record["result"][k].append(result[k])  # append to list
+                    elif isinstance(result[k], list):  # combine in a list
+                        self.record["result"][k] = [self.record["result"][k]] + result[
+                            k
+                        ]
                     else:  # transform result to list and append new result to it
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
-- 
2.43.0


From 500080a62f202cfa059ecb3c8ef1b852078c2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 19/77] fix: mac_eui keeps a text that is not a MAC address

---
 ttp/match/mac_eui.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttp/match/mac_eui.py b/ttp/match/mac_eui.py
index 83f7243..d5706ff 100644
--- a/ttp/match/mac_eui.py
+++ b/ttp/match/mac_eui.py
@@ -6,17 +6,17 @@ and NAPALM base helpers module
 """
 
 
-from re import sub
+from re import match, sub
 
 
 def mac_eui(data):
     mac = str(data)
     # remove delimiters and convert to lower case
     mac = sub("[.:-]", "", mac).lower()
-    # mac should only contain letters and numbers, also
-    # if length now not 12 (eg. 008041aefd7e), staff up to
-    # 12 with "0" - can happen with some vendors
-    if mac.isalnum():
+    # mac should only contain hexadecimal digits, not more than 12
+    # of them, also if length now not 12 (eg. 008041aefd7e), staff
+    # up to 12 with "0" - can happen with some vendors
+    if match("[0-9a-f]{1,12}$", mac):
         if not len(mac) == 12:
             mac += "0" * (12 - len(mac))
     else:
-- 
2.43.0


From 20efaeb23a9400e77d332cb4f5723e3b65d75161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 20/77] fix: lookup in data that is not a dictionary leaves
 value unchanged, gpvlookup lists a key once

---
 ttp/group/lookup.py | 9 +++++----
 ttp/match/lookup.py | 9 ++++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..d0485a8 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -50,12 +50,13 @@ def lookup(
         return data, None
     # traverse to lookup data
     for i in path:
-        lookup_data = lookup_data.get(i, {})
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
     # perform lookup:
+    if not isinstance(lookup_data, dict):
+        return data, None
     try:
-        if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
-    except KeyError:
+        found_value = lookup_data[data[key]]
+    except (KeyError, TypeError):
         return data, None
     # decide what action to do with found value
     if add_field:
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..e031d8a 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -35,11 +35,13 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         log.info("ttp.lookup no lookup data name provided, doing nothing.")
         return data, None
     for i in path:
-        lookup_data = lookup_data.get(i, {})
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
     # perform lookup:
+    if not isinstance(lookup_data, dict):
+        return data, None
     try:
         found_value = lookup_data[data]
-    except KeyError:
+    except (KeyError, TypeError):
         return data, None
     # decide to replace match result or add new field:
     if add_field is not False:
@@ -106,7 +108,8 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
     # iterate over all patterns and collect all matches
     elif multimatch is True:
         for key, patterns in lookup_data.items():
-            found_value += [key for pattern in patterns if fnmatch(data, pattern)]
+            if any(fnmatch(data, pattern) for pattern in patterns):
+                found_value.append(key)
     # record found_value if told to do so:
     if record is not False:
         _ttp_["vars"].update({record: found_value})
-- 
2.43.0


From c145dc7f1ac41a69d5c41fd9facb448c74cdce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 21/77] fix: append, prepend and joinmatches do not change
 lists of lookup tables and variables

---
 ttp/match/string.py | 6 ++----
 ttp/ttp.py          | 9 +++++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 0b2b1ef..b0ff8bf 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -68,8 +68,7 @@ def append(data, char):
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
-        data.append(char_value)
-        return data, None
+        return data + [char_value], None
     else:
         return data, None
 
@@ -82,8 +81,7 @@ def prepend(data, char):
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-        data.insert(0, char_value)
-        return data, None
+        return [char_value] + data, None
     else:
         return data, None
 
diff --git a/ttp/ttp.py b/ttp/ttp.py
index a3f02ec..fccdf16 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3189,10 +3189,15 @@ class _results_class:
                     ):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
+                        # make new list as this one can be lookup table or variable value
                         if isinstance(result[k], list):
-                            self.record["result"][k] += result[k]  # join lists
+                            self.record["result"][k] = (
+                                self.record["result"][k] + result[k]
+                            )  # join lists
                         else:
-                            self.record["result"][k].append(result[k])  # append to list
+                            self.record["result"][k] = self.record["result"][k] + [
+                                result[k]
+                            ]  # append to list
                     elif isinstance(result[k], list):  # combine in a list
                         self.record["result"][k] = [self.record["result"][k]] + result[
                             k
-- 
2.43.0


From 1f9dd876a11b82190423a497071fe71d6349f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 22/77] fix: rlookup and gpvlookup with path into a text leave
 value unchanged

---
 ttp/match/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index e031d8a..1e15485 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -58,7 +58,7 @@ def rlookup(data, name, add_field=False):
         rlookup = _ttp_["parser_object"].lookups
         for i in path:
             rlookup = rlookup.get(i, {})
-    except KeyError:
+    except (AttributeError, KeyError):
         return data, None
     # perfrom rlookup:
     if isinstance(rlookup, dict) is False:
@@ -84,7 +84,7 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
         lookup_data = _ttp_["parser_object"].lookups
         for i in path:
             lookup_data = lookup_data.get(i, {})
-    except KeyError:
+    except (AttributeError, KeyError):
         log.error("gpvlookup: lookup data not found")
         return data, None
     # perform glob pattern values lookup
-- 
2.43.0


From 006afa4d999f8589d5358d1680ff2902f5bcf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 23/77] fix: contains, exclude and excludeall group functions
 tell matched values from default ones

---
 ttp/group/contains.py   | 2 +-
 ttp/group/exclude.py    | 3 ++-
 ttp/group/excludeall.py | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..b589ae4 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -4,6 +4,6 @@ def contains(data, *args):
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..db4c1ed 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,7 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..03817d7 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,8 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0


From 25b7b6d3cd8032232cb69d0c19876e3d6c344038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 24/77] fix: _exact_space_ line with _start_, _end_ or set
 needs no blank at its end

---
 ttp/ttp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index fccdf16..80cebdf 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2231,6 +2231,8 @@ class _variable_class:
                 index = self.regex.find(esc_var)
                 # slice regex string before esc_var start:
                 result = self.regex[:index]
+                # delete spaces and tabs at the end of line that are kept by _exact_space_
+                result = re.sub(r"(\\ |\\\t)+$", "", result)
                 # delete "[ \\t]+$" from end of line and add "[\t ]*(?=\n|\r\n)"
                 result = re.sub(r"(\[ \\t\]\+)$", "", result) + r"[\t ]*(?=\n|\r\n)"
                 # prior to 0.8.0 variant that only accounts for spaces
-- 
2.43.0


From 5de8d8049c9419744fcc473fe373e45d11fac4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 25/77] fix: itemize with dynamic path does not look for path
 variables in the text of the item

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 80cebdf..c043d9f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3258,7 +3258,11 @@ class _results_class:
             if match:
                 repl = {}
                 for m in match:
-                    if m in self.record["result"]:
+                    # result is a single item and not a dictionary if itemize used
+                    if (
+                        isinstance(self.record["result"], dict)
+                        and m in self.record["result"]
+                    ):
                         self.dyn_path_cache[m] = self.record["result"][m]
                         repl[m] = str(self.record["result"].pop(m))
                     elif m in self.dyn_path_cache:
-- 
2.43.0


From 9040562ad59ccb6b48e9696094e2ccb1c9173c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 26/77] fix: itemize keeps items that are 0 or empty text

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c043d9f..c9d57ad 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3040,7 +3040,7 @@ class _results_class:
             self.dict_by_path(PATH=list(empty_path), ELEMENT=self.results).append({})
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list) and result_data:
+        if isinstance(E, list) and result_data not in (None, {}):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E[-1], result_data)
             else:
-- 
2.43.0


From 0f7e79e6d490fe85d70a05ddc65a8a597068f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 27/77] fix: clear_result works for results of any type

Outputs with returner self replace template results with rendered text,
clear_result then failed calling clear method on it.
---
 ttp/ttp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c9d57ad..f530f61 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -706,13 +706,12 @@ class ttp:
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
         if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
+            templates_objs = [t for t in self._templates if t.name in templates]
         else:
-            [t_obj.results.clear() for t_obj in self._templates]
+            templates_objs = self._templates
+        # results can be of any type after outputs run, can't rely on clear method
+        for template_obj in templates_objs:
+            template_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From 6d8388e8a85e5fe08890baeb615840555a1731e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 28/77] fix: load input files matched by at least one of the
 filters

Documentation of input filters attribute states that files with names
matched by at least one regex are loaded, code required all to match.
---
 ttp/utils/loaders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..88fdce7 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -72,8 +72,10 @@ def load_files(path, extensions=None, filters=None, read=False):
         files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
-        for filter in filters:
-            files = [f for f in files if re_search(filter, f)]
+        if filters:
+            files = [
+                f for f in files if any(re_search(filter, f) for filter in filters)
+            ]
         if read:
             ret = []
             for f in files:
-- 
2.43.0


From bac11ad095c6058ec2a344a73a8fa6115cf2d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 29/77] fix: input macro runs several macro functions

Documentation defines input macro as a comma separated list of names, the
function accepted single name only and failed with TypeError.
---
 ttp/input/macro.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ttp/input/macro.py b/ttp/input/macro.py
index 8bc24e3..fb8386d 100644
--- a/ttp/input/macro.py
+++ b/ttp/input/macro.py
@@ -1,12 +1,17 @@
-def macro(data, macro_name):
-    result = None
-    if macro_name in _ttp_["macro"]:
-        result = _ttp_["macro"][macro_name](data)
-    # process macro result
-    if result is True:
-        return data, True
-    elif result is False:
-        return data, False
-    elif result is None:
-        return data, None
-    return result, None
+def macro(data, *macro_names):
+    result = data
+    flag = None
+    # macro names can be given as separate arguments or as comma separated string
+    macro_names_list = [i.strip() for item in macro_names for i in item.split(",")]
+    for macro_name in macro_names_list:
+        if macro_name not in _ttp_["macro"]:
+            continue
+        res = _ttp_["macro"][macro_name](result)
+        # process macro result
+        if res is False:
+            return result, False
+        elif res is True:
+            flag = True
+        elif res is not None:
+            result = res
+    return result, flag
-- 
2.43.0


From 5231117d49a97079c89ab59fd2b9927b9723a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 30/77] fix: extract_commands treats hostname and commands as
 plain text

Hostname or command string with regular expression special characters
extracted wrong data or failed.
---
 ttp/input/commands.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 3ec0c85..b211985 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -1,4 +1,4 @@
-from re import search
+from re import escape, search
 
 
 def extract_commands(data, *commands):
@@ -6,9 +6,11 @@ def extract_commands(data, *commands):
     ret = ""
     hostname = _ttp_["variable"]["gethostname"](data, "input find_command function")
     if hostname:
+        # hostname and commands are plain text and not regular expressions
+        hostname = escape(hostname)
         for command in commands:
             regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
-                hostname, command, hostname
+                hostname, escape(command), hostname
             )
             match = search(regex, data)
             if match:
-- 
2.43.0


From 52c130a0a37b2f5ab0715666471a3b3401899d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 31/77] fix: groups given in input tag text are not overridden
 by default

Input attributes can be given in the tag or in the tag text, but groups
loaded from text were always replaced with default value of all.
---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f530f61..28c93a8 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1454,10 +1454,12 @@ class _input_class:
             # hashing, groups can be attempted to extract before name attribute
             self.name = element.attrib.get("name", input_name).strip()
             # set default attribute values
-            element.attrib.setdefault("groups", groups)
             element.attrib.setdefault("load", "python")
             # extract attributes
             self.get_attributes(data=element.attrib, element_text=element.text)
+            # use default groups if none given in tag attributes or in tag text
+            if "groups" not in element.attrib and "groups" not in self.parameters:
+                self.get_attributes(data={"groups": groups})
             self.load_data(element_text=element.text)
         # if no input element given, use input_name and groups with data
         # as well as default python loader
-- 
2.43.0


From 9808990ed91704260b77ce5558371a6da28c21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 32/77] fix: results of several processes are formed in the
 order of input data

---
 ttp/ttp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 28c93a8..3962664 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -480,6 +480,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -491,9 +492,10 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
+            # results come in any order, form them in the order of input data
+            results = dict(results_queue.get() for i in range(num_jobs))
             for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+                template.form_results(results[i])
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -877,7 +879,7 @@ class _worker(Process):
             result = self.parserObj.main_results
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From 4f88b94170d9fcf8f4ba412449d108b53897ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 33/77] fix: workers keep built-in functions beside the custom
 functions of the same scope

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3962664..b52b70f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -835,7 +835,9 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        # add custom functions to the functions of each scope
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From 907a558499520ad4f1c464eed69c0667de0305c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 34/77] fix: dict_to_list does not change the results it is
 given

---
 ttp/output/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..cd5dfce 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,8 +57,9 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
-            v.update({key_name: k})
-            result.append(v)
+            item = dict(v)  # copy, source data must not change
+            item[key_name] = k
+            result.append(item)
     elif isinstance(traversed_data, list):
         # run recusrsion
         result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
-- 
2.43.0


From 5c1c8b1c1974f50fec3e8ba6e7cd9321fb4d7e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 35/77] fix: csv formatter doubles quote characters within
 values

---
 ttp/formatters/csv_formatter.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ttp/formatters/csv_formatter.py b/ttp/formatters/csv_formatter.py
index a5ae61b..95d2c68 100644
--- a/ttp/formatters/csv_formatter.py
+++ b/ttp/formatters/csv_formatter.py
@@ -5,7 +5,6 @@ def csv_formatter(data, **kwargs):
     """Method to dump list of dictionaries into table
     using provided separator, default is comma - ','
     """
-    result = ""
     # form table - list of lists
     table = _ttp_["formatters"]["table"](
         data, **kwargs
@@ -13,12 +12,12 @@ def csv_formatter(data, **kwargs):
     sep = kwargs.get("sep", ",")
     quote = kwargs.get("quote", '"')
     sep = "{q}{s}{q}".format(s=sep, q=quote)
-    row_formatter = "\n{q}{{}}{q}".format(q=quote)
+    rows = []
     # form results:
-    result = "{q}{d}{q}".format(d=sep.join(table[0]), q=quote)
-    for row in table[1:]:
-        try:
-            result += row_formatter.format(sep.join(row))
-        except TypeError:  # might happen if not all values in row are strings
-            result += row_formatter.format(sep.join([str(i) for i in row]))
-    return result
+    for row in table:
+        # values might be not strings, quote character within value is doubled
+        cells = [
+            str(i).replace(quote, quote * 2) if quote else str(i) for i in row
+        ]
+        rows.append("{q}{d}{q}".format(d=sep.join(cells), q=quote))
+    return "\n".join(rows)
-- 
2.43.0


From 51316cded5f4809a52ce4203bd14f83a2dac8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 36/77] fix: deepdiff input_after works with template_before
 and var_before

---
 ttp/output/deepdiffer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index f4459b3..28e0af1 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -40,8 +40,8 @@ def deepdiff_func(
     # get template object of this output
     template_obj = _ttp_["output_object"].template_obj
 
-    # get data_before - data to compare with
-    if input_before:
+    # data to compare with or against comes from inputs
+    if input_before or input_after:
         # get inputs names to results index mapping, e.g.:
         # {'input_after': [3, 4], 'input_before': [0, 1], 'one_more': [2]}
         if template_obj.results_method.lower() == "per_input":
@@ -53,14 +53,15 @@ def deepdiff_func(
                     i + counter for i in range(data_len)
                 ]
                 counter += data_len
-            data_before = [
-                data[index] for index in input_to_results_index[input_before]
-            ]
         elif template_obj.results_method.lower() == "per_template":
             log.error(
-                "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before as a reference to source data"
+                "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before or input_after as a reference to source data"
             )
             return data
+
+    # get data_before - data to compare with
+    if input_before:
+        data_before = [data[index] for index in input_to_results_index[input_before]]
     # if template name provided - source data from template results
     elif template_before:
         for template in _ttp_["ttp_object"]._templates:
-- 
2.43.0


From 07936290486402dfccc94036ddf96fd81aef2bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 37/77] fix: excel formatter keeps tab names for the next run

---
 ttp/formatters/excel_formatter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..5e796cf 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -35,11 +35,7 @@ def excel_formatter(data, **kwargs):
     # form table_tabs - list of dictionaries
     table_tabs = []
     for index, tab_det in enumerate(table):
-        tab_name = (
-            tab_det.pop("tab_name")
-            if "tab_name" in tab_det
-            else "Sheet{}".format(index)
-        )
+        tab_name = tab_det.get("tab_name", "Sheet{}".format(index))
         headers = tab_det.get("headers", None)
         if isinstance(headers, str):
             headers = [i.strip() for i in headers.split(",")]
-- 
2.43.0


From f08681dfe883e0cfe6bbc7cd6049d6c6891c920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 38/77] fix: excel formatter tabs without path use whole
 results

---
 ttp/formatters/excel_formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 5e796cf..d45393e 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -41,7 +41,9 @@ def excel_formatter(data, **kwargs):
             headers = [i.strip() for i in headers.split(",")]
         # get attributes out of tab_det
         tab_kwargs = {
-            "path": [i.strip() for i in tab_det.get("path", "").split(".")],
+            "path": [
+                i.strip() for i in tab_det.get("path", "").split(".") if i.strip()
+            ],
             "headers": headers,
             "missing": tab_det.get("missing", ""),
             "key": tab_det.get("key", ""),
-- 
2.43.0


From 5d079d27327277dbe16a0cb31ddaebf6e5ae566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 39/77] fix: validate returns results that are not dictionaries
 as is

---
 ttp/output/validate_cerberus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..a1be255 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -54,6 +54,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     elif isinstance(data, list):
         return [
             _run_validation(i, schema_data, info, errors, result, validator_engine)
-            for i in data
             if isinstance(i, dict)
+            else i
+            for i in data
         ]
-- 
2.43.0


From cc0564068dcd85974d63ea425ee5e39654be4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 40/77] fix: unknown outputs of a group do not break the
 outputs that follow

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b52b70f..1cb2850 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1099,12 +1099,14 @@ class _template_class:
                         group_output_found = True
                 # print error message if no output found:
                 if not group_output_found:
-                    G.outputs.pop(output_index)
+                    G.outputs[output_index] = None
                     log.error(
                         "template.update_groups_with_outputs: group '{}' - output '{}' not found.".format(
                             G.name, grp_output
                         )
                     )
+            # remove outputs that were not found
+            G.outputs = [output for output in G.outputs if output is not None]
 
     def get_template_attributes(self, element):
         def extract_name(O):
-- 
2.43.0


From 0f669e8cdaaedfbe60d50e468b0272618b54f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 41/77] fix: file returner without filename works for outputs
 without name

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..80f4f67 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -26,7 +26,7 @@ def file_returner(D, **kwargs):
     else:
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
-    if not kwargs.get("filename", False):
+    if not kwargs.get("filename", False) and _ttp_["output_object"].name:
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-- 
2.43.0


From deb531515ff2794f97742958ad84cc045ebe009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 42/77] fix: lines and extend tags that follow an extend tag
 are not lost, nested extend tags load all tags

---
 ttp/ttp.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1cb2850..aa1538f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1337,7 +1337,9 @@ class _template_class:
                 if child.tag == "macro":
                     self.parse_macro(child)
         # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        index = 0
+        while index < len(template_ET):
+            child = template_ET[index]
             if child.tag == "extend":
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
@@ -1358,21 +1360,35 @@ class _template_class:
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
-                    template_ET.remove(child)
+                    extended = []
+                    text = extend_ET[0].text or ""
                 # process extended template children to extend parent element
                 else:
                     # run filtering for extended template tags
-                    filtered_ET = self.filter_extend(
-                        extend_template=extend_ET, extend_tag=child, top=top
+                    extended = list(
+                        self.filter_extend(
+                            extend_template=extend_ET, extend_tag=child, top=top
+                        )
                     )
-                    # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
-                    # save extended elements as parent children
-                    template_ET[index : index + 1] = filtered_ET
+                    text = ""
+                # lines that follow extend tag stay in their place
+                if child.tail and child.tail.strip():
+                    text += child.tail
+                if extended:
+                    extended[-1].tail = (extended[-1].tail or "") + text
+                elif index:
+                    previous = template_ET[index - 1]
+                    previous.tail = (previous.tail or "") + text
+                else:
+                    template_ET.text = (template_ET.text or "") + text
+                # save extended elements as parent children, these are visited
+                # next to handle nested extend tags
+                template_ET[index : index + 1] = extended
+                continue
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
+            elif child.tag in ["g", "grp", "group"]:
                 self.handle_extend(template_ET=child, top=False)
+            index += 1
 
         if top:
             return ET.tostring(template_ET).decode()
-- 
2.43.0


From c231aeb383ffa291c008ba179d5a92e0ecb061ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 43/77] fix: template tag with plain text keeps its attributes
 and works nested

---
 ttp/ttp.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index aa1538f..1960113 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1412,11 +1412,8 @@ class _template_class:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
         # check if template has children, if not, make it an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            group_ET = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group_ET.text, template_ET.text = template_ET.text, None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From f330144ada6e0dc41bc1affc0ae99f0b544425c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 44/77] fix: default that names a variable gets this input's
 value and is not looked up twice

---
 ttp/ttp.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1960113..1e26e75 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1945,10 +1945,11 @@ class _group_class:
 
     def update_runs(self, data):
         # func to update runs of the groups using data dictionary
-        for k, v in data.items():
-            for dk, dv in self.runs.items():
-                if dv == k:
-                    self.runs[dk] = v
+        for dk, dv in self.runs.items():
+            # default is a name of a variable, value of the variable is not
+            # looked up again as it can come from the text
+            if isinstance(dv, str) and dv in data:
+                self.runs[dk] = data[dv]
         # run recursion for children:
         for child in self.children:
             child.update_runs(data)
@@ -2636,10 +2637,9 @@ class _parser_class:
             else:
                 # form a tuple of ({results}, [group.outputs],)
                 grps_unsort_rslts.append((run_re(group, results={}), group.outputs))
-        # update groups runs (group default values) with global variables
-        self.update_groups_runs(self._ttp_["global_vars"])
-        # update groups runs (group default values) with group specific/local variables
-        self.update_groups_runs(self.vars)
+        # update groups runs (group default values) with variables, variables of
+        # this input more preferred than global variables
+        self.update_groups_runs({**self._ttp_["global_vars"], **self.vars})
 
         # sort results for groups with global outputs
         for group_result in unsort_rslts:
-- 
2.43.0


From a83d358c74ae0d9f46393ecf699437f74625d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 45/77] fix: dictionaries and lists of variables are not shared
 between results of inputs

---
 ttp/ttp.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1e26e75..5eccabb 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2407,7 +2407,9 @@ class _parser_class:
             self.DATATEXT = "\n" + data[0][1] + "\n\n"
             self.DATANAME = D[1]
         # set vars to original vars copy and run vars functions against DATATEXT
-        self.vars = self.original_vars.copy()
+        # make copies of dictionaries and lists as well, as they can end up in
+        # results and be updated there
+        self.vars = self.copy_vars(self.original_vars)
         self._ttp_["vars"] = self.vars
         self.run_var_functions()
         # create groups' runs dicts to hold copy of defaults to updated them with var values
@@ -2428,6 +2430,14 @@ class _parser_class:
             if flags == False:
                 break
 
+    def copy_vars(self, data):
+        """Recursive method to copy dictionaries and lists of variables"""
+        if isinstance(data, dict):
+            return {k: self.copy_vars(v) for k, v in data.items()}
+        elif isinstance(data, list):
+            return [self.copy_vars(i) for i in data]
+        return data
+
     def update_groups_runs(self, D):
         """Method to update groups runs dictionaries with new values deirved
         during parsing, can be called from 'record' variable functions
-- 
2.43.0


From a34b6828938a6d4aef4e1f063d576c6e173135eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 46/77] fix: _headers_ with one or two headers

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5eccabb..c291ecd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2277,7 +2277,7 @@ class _variable_class:
             # find all headers
             headers = re.findall(r"(\S+\s+|\S+)", self.regex)
             # form columns count
-            columns = len(headers) - 2
+            columns = max(1, len(headers) - 2)
             for attribute in self.attributes:
                 if attribute["name"] == "columns":
                     columns = max(1, int(attribute["args"][0]))
-- 
2.43.0


From 1c0cc269f0827e06c79349f3f424c1b7343a23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 47/77] fix: carriage return of a line end is not a row of a
 table of headers

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c291ecd..e0e4950 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2311,7 +2311,8 @@ class _variable_class:
             else:
                 row_re[-1] = "(?P<{}>.*)".format(headers[-1].strip())
             # form final regex
-            self.regex = r"\n" + "".join(row_re) + r"(?=\n|\r\n)"
+            # row does not include carriage returns of the line end
+            self.regex = r"\n" + "".join(row_re) + r"(?<!\r)(?=\r*\n)"
             # form sub variables dictionary out of headers
             self.sub_variables = {
                 var.strip(): _variable_class(
-- 
2.43.0


From 86d90ef788a07a1ef562e0de0859662531020f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 48/77] fix: table rows with a value that contains its header
 name are not dropped

---
 ttp/ttp.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e0e4950..d7c18a9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2314,15 +2314,18 @@ class _variable_class:
             # row does not include carriage returns of the line end
             self.regex = r"\n" + "".join(row_re) + r"(?<!\r)(?=\r*\n)"
             # form sub variables dictionary out of headers
-            self.sub_variables = {
-                var.strip(): _variable_class(
-                    "{var} | strip | exclude({var})".format(var=var.strip()),
+            for header in headers:
+                name = header.strip()
+                self.sub_variables[name] = _variable_class(
+                    "{} | strip".format(name),
                     line="",
                     _ttp_=self._ttp_,
                     group=self.group,
                 )
-                for var in headers
-            }
+                # skip headers line, other values can contain header name
+                self.sub_variables[name].functions.append(
+                    {"name": "notequal", "args": (name,), "kwargs": {}}
+                )
 
         # for variables like {{ ignore }} or {{ _headers_ }}
         regexFuncsVar = {
-- 
2.43.0


From 8c74db17c70b8c429a1321aaab8176754b0a21c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 49/77] fix: argument words named as modules of the attributes
 parser are text

---
 ttp/utils/get_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/get_attributes.py b/ttp/utils/get_attributes.py
index a2634f6..64d6042 100644
--- a/ttp/utils/get_attributes.py
+++ b/ttp/utils/get_attributes.py
@@ -59,7 +59,8 @@ def get_attributes(line):
         if options:
             try:
                 args_kwargs = eval(
-                    "_get_args_kwargs({})".format(options), _UndefSubst(globals())
+                    "_get_args_kwargs({})".format(options),
+                    _UndefSubst({"_get_args_kwargs": _get_args_kwargs}),
                 )
             except:
                 exc_type, exc_value, exc_traceback = sys.exc_info()
-- 
2.43.0


From 44f60175117a53aed5786b8f1b3af0766df779e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 50/77] fix: csv rows with more cells than headers or without
 key cell do not abort loading

---
 ttp/utils/loaders.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 88fdce7..177c7a4 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -287,6 +287,9 @@ def load_csv(text_data, include=None, **kwargs):
             elif key and key not in headers:
                 return data
             continue
-        temp = {headers[index]: i for index, i in enumerate(row)}
-        data[temp.pop(key)] = temp
+        # cells beyond headers have no name
+        temp = dict(zip(headers, row))
+        # skip rows that have no key cell
+        if key in temp:
+            data[temp.pop(key)] = temp
     return data
-- 
2.43.0


From 23eaf967a68304f73f1e73a1c390d365430538d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 51/77] fix: vars tag with name attribute and nothing loaded

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index d7c18a9..ffc2d92 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1206,7 +1206,7 @@ class _template_class:
         if vars:
             self.vars.update(vars)
         # check if var has name attribute:
-        if "name" in element.attrib:
+        if vars and "name" in element.attrib:
             path = element.attrib["name"]
             for key in vars.keys():
                 self.vars["_vars_to_results_"].setdefault(path, []).append(key)
-- 
2.43.0


From 8803eddcf23806dc43e070444a6e0c6de3a810e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 52/77] fix: functions of several parser objects use their own
 macros, lookups and variables

---
 ttp/ttp.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ffc2d92..34b142f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -13,6 +13,7 @@ from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
 from sys import getsizeof
 from collections import OrderedDict
+from types import FunctionType
 
 
 # Initiate global variables
@@ -49,13 +50,29 @@ class CachedModule:
         module = __import__(path, fromlist=[None])
         # add _ttp_ to module globals space
         setattr(module, "_ttp_", self._ttp_)
+        # module is shared by all TTP objects of the process, make copies of its
+        # functions that have this _ttp_ dictionary in their globals space
+        functions_globals = dict(vars(module))
+        for func_name, func in vars(module).items():
+            if isinstance(func, FunctionType) and func.__globals__ is vars(module):
+                func_copy = FunctionType(
+                    func.__code__,
+                    functions_globals,
+                    func.__name__,
+                    func.__defaults__,
+                    func.__closure__,
+                )
+                func_copy.__doc__ = func.__doc__
+                func_copy.__kwdefaults__ = getattr(func, "__kwdefaults__", None)
+                func_copy.__dict__.update(func.__dict__)
+                functions_globals[func_name] = func_copy
         try:
             _name_map_ = getattr(module, "_name_map_")
         except AttributeError:
             _name_map_ = {}
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
-            self._ttp_[self.parent_dir][name] = getattr(module, func_name)
+            self._ttp_[self.parent_dir][name] = functions_globals[func_name]
 
     def __call__(self, *args, **kwargs):
         # this method invoked on CachedModule class call, triggering function import
-- 
2.43.0


From d32454ad2a2b20b25b280bd8438ef5a4481942cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 53/77] fix: dictionary of variables given to a parser object
 is not changed by it

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 34b142f..23fda00 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -248,7 +248,7 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        self.vars = dict(vars or {})  # dictionary of variables to add to each template vars
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 5546a65ebfaa5f144456f6e5492532f5e3343bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 54/77] fix: lookup tables, variables and defaults placed in
 results are copies

---
 ttp/group/lookup.py | 4 +++-
 ttp/group/set_.py   | 4 +++-
 ttp/match/lookup.py | 6 ++++--
 ttp/match/set_.py   | 6 ++++--
 ttp/ttp.py          | 3 ++-
 5 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index d0485a8..e391c83 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -55,7 +56,8 @@ def lookup(
     if not isinstance(lookup_data, dict):
         return data, None
     try:
-        found_value = lookup_data[data[key]]
+        # make a copy as results can be updated later
+        found_value = deepcopy(lookup_data[data[key]])
     except (KeyError, TypeError):
         return data, None
     # decide what action to do with found value
diff --git a/ttp/group/set_.py b/ttp/group/set_.py
index b1bbea6..c856cee 100644
--- a/ttp/group/set_.py
+++ b/ttp/group/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -15,5 +17,5 @@ def set_func(data, source, target="_use_source_", default="_no_default_value_"):
     # get target var name:
     if target == "_use_source_":
         target = source
-    data.update({target: source_var_value})
+    data.update({target: deepcopy(source_var_value)})
     return data, None
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 1e15485..9673946 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -40,7 +41,8 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
     if not isinstance(lookup_data, dict):
         return data, None
     try:
-        found_value = lookup_data[data]
+        # make a copy as results can be updated later
+        found_value = deepcopy(lookup_data[data])
     except (KeyError, TypeError):
         return data, None
     # decide to replace match result or add new field:
@@ -65,7 +67,7 @@ def rlookup(data, name, add_field=False):
         return data, None
     for key in rlookup.keys():
         if key in data:
-            found_value = rlookup[key]
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
diff --git a/ttp/match/set_.py b/ttp/match/set_.py
index fc53481..a58b112 100644
--- a/ttp/match/set_.py
+++ b/ttp/match/set_.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
@@ -6,9 +8,9 @@ def set_func(data, value, match_line):
     if data.rstrip() == match_line:
         if isinstance(value, str):
             if value in vars:
-                return vars[value], None
+                return deepcopy(vars[value]), None
             elif value in _ttp_["global_vars"]:
-                return _ttp_["global_vars"][value], None
+                return deepcopy(_ttp_["global_vars"][value]), None
         return value, None
     else:
         return data, False
diff --git a/ttp/ttp.py b/ttp/ttp.py
index 23fda00..77d38aa 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3338,7 +3338,8 @@ class _results_class:
         """Method to process group results"""
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
-            self.record["result"].setdefault(k, v)
+            # make a copy as results can be updated later
+            self.record["result"].setdefault(k, copy.deepcopy(v))
         # if merge_with_last - tail match, attempt to reconstruct group result
         # this only will work if self.record["result"] contains enough info to form PATH
         if self.record.get("merge_with_last") is True:
-- 
2.43.0


From 43a7bd011f2ca8725ec1db5e8f9e42e66dac04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:45 +0000
Subject: [PATCH 55/77] fix: outputs of a template do not use macros of another
 template

---
 ttp/ttp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 77d38aa..882319a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3500,9 +3500,8 @@ class _outputter_class:
         :param data: (dict or list) data to run outputter for
         :param macro: (dict) dictionary of macro functions
         """
-        marco = macro or {}
         self._ttp_["output_object"] = self
-        if macro:
+        if macro is not None:
             self._ttp_["macro"] = macro
         format_type = self.attributes["format"]
         results = data
-- 
2.43.0


From b229debbeeeaa6fea76b65b29750c2f28c85b509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 56/77] fix: an end line rejected by its check does not end the
 group

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 882319a..ce54838 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2495,6 +2495,7 @@ class _parser_class:
         grps_raw_results = []  # group specific sorted results
 
         def check_matches(regex, matches, results, start):
+            accepted = []  # matches that passed all checks
             for match in matches:
                 result = {}  # dict to store result
                 temp = {}
@@ -2569,12 +2570,14 @@ class _parser_class:
                 # skip not start regexes that evaluated to False
                 if result is False and not regex["ACTION"].startswith("start"):
                     continue
+                accepted.append(match)
                 # form result dictionary of dictionaries:
                 span_start = start + match.span()[0]
                 if span_start not in results:
                     results[span_start] = [(regex, result)]
                 else:
                     results[span_start].append((regex, result))
+            return accepted
 
         def run_re(group, results, start=0, end=-1):
             """Recursive function to run REs"""
@@ -2624,9 +2627,10 @@ class _parser_class:
             # run end REs:
             for R in group.end_re:
                 end_matches = list(R["REGEX"].finditer(self.DATATEXT[start:end]))
+                # rejected matches do not end the group
+                end_matches = check_matches(R, end_matches, results, start)
                 if not end_matches:
                     continue
-                check_matches(R, end_matches, results, start)
                 # make e bigger if e is smaller than last end match
                 # and last end match is bigger than last start match
                 if e < end_matches[-1].span()[1] and end_matches[-1].span()[1] > se:
-- 
2.43.0


From 14ec4b1e3c91ec3cc4599a76d70292fae0fb4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:59 +0000
Subject: [PATCH 57/77] fix: lines next to the last end line of a group with
 _line_ start are not part of it

---
 ttp/ttp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ce54838..a8a0047 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2641,9 +2641,11 @@ class _parser_class:
                 # can happen if stat re is _line_
                 empty_matches_keys = []
                 for span_start, mathches in results.items():
-                    for item in mathches:
-                        if item[0]["GROUP"] is group and span_start > end:
-                            mathches.remove(item)
+                    # match of the line next to _end_ line starts where _end_ match ends
+                    if span_start >= end:
+                        mathches[:] = [
+                            item for item in mathches if item[0]["GROUP"] is not group
+                        ]
                     # if no matches left
                     if mathches == []:
                         empty_matches_keys.append(span_start)
@@ -3289,7 +3291,7 @@ class _results_class:
             self.record["PATH"] != PATH
             and
             # if below is true, this is child group:
-            REDICT["GROUP"].group_id == self.started_groups[-1]
+            self.started_groups[-1:] == [REDICT["GROUP"].group_id]
         ):
             return
         # action to end current group by adding it to ended groups
-- 
2.43.0


From 5d711960d96ea2009993bc596679c072517243ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 58/77] fix: end of a child group compared with its last start
 by the same offset

---
 ttp/ttp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a8a0047..77bcb1f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2599,7 +2599,7 @@ class _parser_class:
                     s = start_matches[0].span()[0]
                 # if se is smaller make it bigger except for when start re is _line_,
                 # if start re is _line_ end matches have bigger priority
-                if se < start_matches[-1].span()[0] and not R["IS_LINE"]:
+                if se < start_matches[-1].span()[1] + start and not R["IS_LINE"]:
                     se = start_matches[-1].span()[1] + start
             start = start + s
             # if no matches found for any start REs of this group - skip the rest of REs
@@ -2633,7 +2633,10 @@ class _parser_class:
                     continue
                 # make e bigger if e is smaller than last end match
                 # and last end match is bigger than last start match
-                if e < end_matches[-1].span()[1] and end_matches[-1].span()[1] > se:
+                if (
+                    e < end_matches[-1].span()[1]
+                    and end_matches[-1].span()[1] + start > se
+                ):
                     e = end_matches[-1].span()[1]
             if e != -1:
                 end = start + e
-- 
2.43.0


From a3bc4b60b57648fff069f645b77afb77fe4f7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 59/77] fix: line of an ended child group can be a line of its
 parent

---
 ttp/ttp.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 77bcb1f..f4a27f8 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2786,6 +2786,13 @@ class _results_class:
                     startempty_re, start_re, normal_re, line_re = [], [], [], []
                     # sort matches across startempty (_start_), start, normal and line REs
                     for index, item in enumerate(result):
+                        # skip values of ended groups, other groups can have this line
+                        if item[0]["ACTION"] in ("add", "join") and any(
+                            group_id in self.ended_groups
+                            for group_id in item[0]["GROUP"].ancestors_ids
+                            + [item[0]["GROUP"].group_id]
+                        ):
+                            continue
                         if item[0]["IS_LINE"] == True:
                             line_re.append(index)
                         elif item[0]["ACTION"] == "start":
@@ -2794,6 +2801,9 @@ class _results_class:
                             startempty_re.append(index)
                         else:
                             normal_re.append(index)
+                    # all groups that have this line are ended
+                    if not (startempty_re or start_re or normal_re or line_re):
+                        continue
                     # startempty RE always more preferred
                     if startempty_re:
                         # first run - look for results with same path as current record
-- 
2.43.0


From c3526357d493cff8d64cb535e78a4e7d169227dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:41 +0000
Subject: [PATCH 60/77] fix: lines of a record around its child records are
 joined, first match wins otherwise

---
 ttp/ttp.py | 56 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f4a27f8..4118599 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2757,6 +2757,7 @@ class _results_class:
         }
         self.dyn_path_cache = {}
         self.empty_path = None  # path of started but empty list item not saved yet
+        self.matched = {}  # matches of the last record of each group
         self._ttp_["results_object"] = self
 
     def make_results(self, variables, raw_results, main_results):
@@ -3148,6 +3149,18 @@ class _results_class:
         copied.update(result_data)
         return copied
 
+    def save_matched(self):
+        """
+        Method to save matches of current record before defaults and functions
+        processed, further matches can be added to the record after its children.
+        """
+        if self.record.get("merge_with_last"):
+            self.matched.setdefault(self.record["GRP_ID"], {}).update(
+                self.record["result"]
+            )
+        else:
+            self.matched[self.record["GRP_ID"]] = dict(self.record["result"])
+
     def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
@@ -3168,6 +3181,7 @@ class _results_class:
             if REDICT["GROUP"].group_id not in self.started_groups:
                 self.started_groups.append(REDICT["GROUP"].group_id)
 
+        self.save_matched()
         # process recorded group results and save them
         if self.processgrp() != False:
             self.save_curelements(
@@ -3201,6 +3215,7 @@ class _results_class:
             if REDICT["GROUP"].group_id not in self.started_groups:
                 self.started_groups.append(REDICT["GROUP"].group_id)
 
+        self.save_matched()
         # process recorded group results and save them
         if self.processgrp() != False:
             self.save_curelements(
@@ -3225,9 +3240,11 @@ class _results_class:
         # actually belongs to another already started group, hence need to save
         # directly into results
         elif REDICT["GROUP"].group_id in self.started_groups:
+            # do not override already matched values
+            matched = self.matched.get(REDICT["GROUP"].group_id, {})
             # save current results to results structure and start new record
             self.start(
-                result=result,
+                result={k: v for k, v in result.items() if k not in matched},
                 PATH=PATH,
                 DEFAULTS=DEFAULTS,
                 FUNCTIONS=FUNCTIONS,
@@ -3241,6 +3258,27 @@ class _results_class:
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
+        # if different path - that can happen if we have group ended and result
+        # actually belongs to another already started group, hence need to save
+        # directly into results
+        if (
+            self.record["PATH"] != PATH
+            and REDICT["GROUP"].group_id in self.started_groups
+        ):
+            # get already matched values to join with
+            matched = self.matched.get(REDICT["GROUP"].group_id, {})
+            # save current results to results structure and start new record by calling self.start
+            self.start(
+                result={k: matched[k] for k in result if k in matched},
+                PATH=PATH,
+                DEFAULTS=DEFAULTS,
+                FUNCTIONS=FUNCTIONS,
+                REDICT=REDICT,
+            )
+            # mark new record as needed to be merged with last item in results
+            self.record["merge_with_last"] = True
+            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
+            self.record["DEFAULTS"] = {}
         # if same path - save into self.record
         if self.record["PATH"] == PATH:
             # retrieve joinchar to use
@@ -3278,22 +3316,6 @@ class _results_class:
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
                     self.record["result"][k] = result[k]  # if first result
-        # if different path - that can happen if we have group ended and result
-        # actually belongs to another already started group, hence need to save
-        # directly into results
-        elif REDICT["GROUP"].group_id in self.started_groups:
-            # save current results to results structure and start new record by calling self.start
-            self.start(
-                result=result,
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
-            self.record["DEFAULTS"] = {}
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
-- 
2.43.0


From e0b0bb5ed5afe6370d68db1a61f644f19722c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:54 +0000
Subject: [PATCH 61/77] fix: first match of a repeated line kept, ended group
 keeps its line unless other group has it

---
 ttp/ttp.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 4118599..856bc9e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2786,12 +2786,20 @@ class _results_class:
                     re_ = None
                     startempty_re, start_re, normal_re, line_re = [], [], [], []
                     # sort matches across startempty (_start_), start, normal and line REs
+                    not_ended = [
+                        index
+                        for index, item in enumerate(result)
+                        if item[0]["ACTION"] in ("add", "join")
+                        and not self.ended_groups.intersection(
+                            item[0]["GROUP"].ancestors_ids + [item[0]["GROUP"].group_id]
+                        )
+                    ]
                     for index, item in enumerate(result):
-                        # skip values of ended groups, other groups can have this line
-                        if item[0]["ACTION"] in ("add", "join") and any(
-                            group_id in self.ended_groups
-                            for group_id in item[0]["GROUP"].ancestors_ids
-                            + [item[0]["GROUP"].group_id]
+                        # skip values of ended groups if another group has this line
+                        if (
+                            not_ended
+                            and index not in not_ended
+                            and item[0]["ACTION"] in ("add", "join")
                         ):
                             continue
                         if item[0]["IS_LINE"] == True:
@@ -2802,9 +2810,6 @@ class _results_class:
                             startempty_re.append(index)
                         else:
                             normal_re.append(index)
-                    # all groups that have this line are ended
-                    if not (startempty_re or start_re or normal_re or line_re):
-                        continue
                     # startempty RE always more preferred
                     if startempty_re:
                         # first run - look for results with same path as current record
@@ -3244,7 +3249,7 @@ class _results_class:
             matched = self.matched.get(REDICT["GROUP"].group_id, {})
             # save current results to results structure and start new record
             self.start(
-                result={k: v for k, v in result.items() if k not in matched},
+                result={k: matched.get(k, v) for k, v in result.items()},
                 PATH=PATH,
                 DEFAULTS=DEFAULTS,
                 FUNCTIONS=FUNCTIONS,
-- 
2.43.0


From 029b8af7ef3e3b9d6e34ef77a491eb8636bdb452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 62/77] fix: cache file that does not hold a functions
 dictionary made ttp fail

If ttp_dict_cache.pickle could be unpickled but was not the expected
dictionary, loading fell back to parsing files with the unpickled object
in place of the _ttp_ dictionary and failed.
---
 ttp/ttp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 856bc9e..fed5a06 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -106,16 +106,16 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
+                cached_ttp = pickle.load(f)
             # use unpickled _ttp_ dictionary if it of the same python version
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached_ttp["python_major_version"] == version_info.major
+                and cached_ttp.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
+                return cached_ttp
             # rebuilt _ttp_ dictionary as it is of different version
             else:
                 _ttp_ = {
-- 
2.43.0


From c096c79cb51fe5e694fc102d42c471f7185d0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 63/77] fix: filters of add_template dropped child templates
 they name

load_template_xml returned before looking at child templates if the name
of the top template was not in filters.
---
 ttp/ttp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index fed5a06..835879d 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1443,8 +1443,14 @@ class _template_class:
         template_ET = self.construct_etree(template_text)
         self.get_template_attributes(template_ET)
 
-        # filter - do not load template groups if template name not in filter
+        # filter - do not load template groups if template name not in filter,
+        # but check child templates
         if self.filters and self.name not in self.filters:
+            child_templates = [
+                child for child in template_ET if child.tag.lower() == "template"
+            ]
+            for t_index, t in enumerate(child_templates):
+                self.parse_template(t, t_index)
             return
 
         self.parse_hierarch_tmplt(template_ET)
-- 
2.43.0


From 3dd97b0c624447006d056ced8c773bd76d97d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 64/77] fix: command line outputter given in upper case failed
 with KeyError

The name was checked in lower case but used as is.
---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 835879d..426420e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3854,7 +3854,8 @@ def cli_tool():
             OUT_TEMPLATE = []
         else:
             OUT_TEMPLATE = [i.strip() for i in OUT_TEMPLATE.split(",")]
-        if not OUTPUTTER.lower() in supporrted_cli_tool_outputters:
+        OUTPUTTER = OUTPUTTER.lower()
+        if not OUTPUTTER in supporrted_cli_tool_outputters:
             log.error(
                 "ttp.cli: unsupported outputter '{}', supported: {}, will use 'json' outputter".format(
                     OUTPUTTER, ", ".join(supporrted_cli_tool_outputters)
-- 
2.43.0


From ac2a569817bd7a344cbe45909cdf131a30825dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:13 +0000
Subject: [PATCH 65/77] fix: csv loader lost line feeds of quoted cells and
 split rows at other line boundaries

---
 ttp/utils/loaders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 177c7a4..ab0d567 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -277,7 +277,10 @@ def load_csv(text_data, include=None, **kwargs):
     headers = []
     if include:
         text_data = _get_include_data(text_data, include)
-    for row in reader(iter(text_data.splitlines())):
+    # keep line feeds, quoted cells can span several lines, other line
+    # boundaries str.splitlines recognizes are part of the cells
+    lines = text_data.replace("\r\n", "\n").replace("\r", "\n").split("\n")
+    for row in reader(line + "\n" for line in lines):
         if not row:
             continue
         if not headers:
-- 
2.43.0


From 89c8e15d2a80cb2d02e7a315b777d9a40ce58e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 66/77] fix: dns returned records unsorted

---
 ttp/match/dns_lookups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 544b768..3009f74 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -16,7 +16,9 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
         dns_resolver_obj.nameservers = sorted(servers)
     dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
     try:
-        dns_records = [i.to_text() for i in dns_resolver_obj.query(data, record)]
+        dns_records = sorted(
+            [i.to_text() for i in dns_resolver_obj.query(data, record)]
+        )
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
         else:
-- 
2.43.0


From 4ff42d4fc4e6542c6c63eccc99e9423b8a36025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 67/77] fix: dns and rdns raised when lookup failed or value is
 not an address

---
 ttp/match/dns_lookups.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 3009f74..c8b738f 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -1,6 +1,10 @@
+import logging
+
 import dns.resolver as dnspython
 import dns.reversename
 
+log = logging.getLogger(__name__)
+
 _name_map_ = {"dns_forward": "dns", "dns_reverse": "rdns"}
 
 dns_resolver_obj = dnspython.dns.resolver.Resolver()
@@ -31,6 +35,8 @@ def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
         # re-initialize dns_resolver object, as it will fail to resolve names for
         # whatever reason after it timeouts
         globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+    except Exception as e:
+        log.error("ttp.match.dns_lookups: '{}' lookup failed, {}".format(data, e))
     return data, None
 
 
@@ -45,8 +51,8 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
             servers = [i.strip() for i in servers.split(",")]
         dns_resolver_obj.nameservers = servers
     dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
-    rev_name = dns.reversename.from_address(data)
     try:
+        rev_name = dns.reversename.from_address(data)
         reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: reverse_record}}
@@ -58,4 +64,6 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
         pass
     except dnspython.dns.exception.Timeout:
         globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
+    except Exception as e:
+        log.error("ttp.match.dns_lookups: '{}' lookup failed, {}".format(data, e))
     return data, None
-- 
2.43.0


From 259567bfa4d58982793ac3a19270008f52e223c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 68/77] fix: servers of a dns lookup were used by later lookups
 without servers

---
 ttp/match/dns_lookups.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index c8b738f..1167df6 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -13,15 +13,18 @@ dns_resolver_obj = dnspython.dns.resolver.Resolver()
 def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
     """Performs forward dns lookup using dns_resolver_obj global object"""
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
+    resolver = dns_resolver_obj
     if servers:
         if isinstance(servers, str):
             servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = sorted(servers)
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
+        # global resolver object must keep servers configured on the machine
+        resolver = dnspython.dns.resolver.Resolver(configure=False)
+        resolver.nameservers = sorted(servers)
+    resolver.timeout = timeout
+    resolver.lifetime = timeout * len(resolver.nameservers)
     try:
         dns_records = sorted(
-            [i.to_text() for i in dns_resolver_obj.query(data, record)]
+            [i.to_text() for i in resolver.query(data, record)]
         )
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: dns_records}}
@@ -45,15 +48,18 @@ def dns_reverse(data, timeout=1, servers=None, add_field=False):
     data - ip address string, e.g. 192.168.0.1
     """
     servers = servers or []
-    dns_resolver_obj.timeout = timeout
+    resolver = dns_resolver_obj
     if servers:
         if isinstance(servers, str):
             servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = servers
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
+        # global resolver object must keep servers configured on the machine
+        resolver = dnspython.dns.resolver.Resolver(configure=False)
+        resolver.nameservers = servers
+    resolver.timeout = timeout
+    resolver.lifetime = timeout * len(resolver.nameservers)
     try:
         rev_name = dns.reversename.from_address(data)
-        reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
+        reverse_record = str(resolver.query(rev_name, "PTR")[0]).rstrip(".")
         if add_field and isinstance(add_field, str):
             return data, {"new_field": {add_field: reverse_record}}
         else:
-- 
2.43.0


From 5fe9923511e0378e71a9cf181cfc2773c08dbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 69/77] fix: n2g formatter ignored node_dups and link_dups
 arguments

---
 ttp/formatters/n2g_formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/formatters/n2g_formatter.py b/ttp/formatters/n2g_formatter.py
index d22e2fd..97b48b7 100644
--- a/ttp/formatters/n2g_formatter.py
+++ b/ttp/formatters/n2g_formatter.py
@@ -8,8 +8,8 @@ def n2g(data, **kwargs):
     module = kwargs.get("module", "yed")
     method = kwargs.get("method", "from_list")
     path = kwargs.get("path", [])
-    node_dups = kwargs.get("node_duplicates", "skip")
-    link_dups = kwargs.get("link_duplicates", "skip")
+    node_dups = kwargs.get("node_dups", kwargs.get("node_duplicates", "skip"))
+    link_dups = kwargs.get("link_dups", kwargs.get("link_duplicates", "skip"))
     method_kwargs = kwargs.get("method_kwargs", {})
     algo = kwargs.get("algo", None)
     # import N2G library
-- 
2.43.0


From ef6871471851bf5889eca5bd2c9f576b4dfb8871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:51 +0000
Subject: [PATCH 70/77] fix: validate_yangson library listed modules of
 directories used before

---
 ttp/output/validate_yangson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..d3fa402 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,6 +98,9 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
+    # forget modules of directories used by previous calls
+    modmap.clear()
+    submodmap.clear()
     for infile in os.listdir(ydir):
         if not infile.endswith(".yang"):
             continue
-- 
2.43.0


From a8ed34ebdd9a9f2168724d5c4b71ed356518c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:35 +0000
Subject: [PATCH 71/77] fix: line with _end_ and other variables after it did
 not end the group

---
 ttp/ttp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 426420e..549f5a9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1888,6 +1888,9 @@ class _group_class:
                     is_line = variableObj.IS_LINE
                 # modify save action only if it is not start or startempty already
                 # and if it is not an ignore to not override other actions:
+                # line with _end_ is the end of the group whatever other variables it has
+                if action == "end" and variableObj.SAVEACTION in ["add", "join"]:
+                    continue
                 if not "start" in action and not variableObj.var_name in ["ignore"]:
                     action = variableObj.SAVEACTION
             if skip_regex is True:
-- 
2.43.0


From a9eb029c9f67d5d6981b22d1802b915bfa1bb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 72/77] fix: rlookup raised TypeError with tables having keys
 other than strings

---
 ttp/match/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 9673946..c5931ff 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -66,7 +66,8 @@ def rlookup(data, name, add_field=False):
     if isinstance(rlookup, dict) is False:
         return data, None
     for key in rlookup.keys():
-        if key in data:
+        # keys of yaml, json or python tables can be of other types than string
+        if str(key) in data:
             found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
-- 
2.43.0


From 80d2c4b361bf63bd61749b1a8185d629bf40c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:45 +0000
Subject: [PATCH 73/77] fix: macro function added by add_function was not known
 to child templates and was replaced by macros of other templates

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 549f5a9..da2e1de 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -943,7 +943,8 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.ttp_macro = ttp_macro  # need to save it to pass to child templates
+        self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
@@ -1213,6 +1214,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self.ttp_macro,
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From 1f085f72782a6d2e0b42b6f8a24373bfbe326e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:05 +0000
Subject: [PATCH 74/77] fix: per_template results of other inputs were added to
 results of groups that have outputs

---
 ttp/ttp.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index da2e1de..2c4bdbe 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2415,6 +2415,8 @@ class _parser_class:
         self.original_vars = vars
         self.groups = groups
         self.main_results = {}
+        self.global_results = {}  # results of groups without specific outputs
+        self.grps_results = []  # results of groups with specific outputs
         self.DATATEXT = ""
         self.DATANAME = ""
         self._ttp_ = _ttp_
@@ -2426,7 +2428,13 @@ class _parser_class:
         """
         main_results = main_results or {}
         input_functions = input_functions or []
-        self.main_results = main_results
+        # results of previous inputs given, have to add only to the results
+        # of groups that have no specific outputs
+        if isinstance(main_results, list):
+            self.main_results = self.global_results
+        else:
+            self.main_results = main_results
+            self.grps_results = []
         if D[0] == "text_data":
             self.DATATEXT = "\n" + D[1] + "\n\n"
             self.DATANAME = "text_data"
@@ -2705,6 +2713,7 @@ class _parser_class:
         RSLTSOBJ = _results_class(self._ttp_)
         RSLTSOBJ.make_results(self.vars, raw_results, main_results=self.main_results)
         self.main_results = RSLTSOBJ.results
+        self.global_results = RSLTSOBJ.results
 
         # sort results for groups with group specific outputs
         for group_result in grps_unsort_rslts:
@@ -2726,14 +2735,12 @@ class _parser_class:
             grp_result = RSLTSOBJ.results
             for output in grp_raw_result[1]:
                 grp_result = output.run(data=grp_result)
-            # transform results into list:
-            if isinstance(self.main_results, dict):
-                if self.main_results:
-                    self.main_results = [self.main_results]
-                else:
-                    self.main_results = []
-            # save results into global results list:
-            self.main_results.append(grp_result)
+            self.grps_results.append(grp_result)
+        # transform results into list and save groups specific results into it:
+        if self.grps_results:
+            self.main_results = (
+                [self.main_results] if self.main_results else []
+            ) + self.grps_results
 
 
 """
-- 
2.43.0


From ae9513018b5c0357d06f93a67f03f92becb99abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:23 +0000
Subject: [PATCH 75/77] fix: start line was given to a group whose parent is
 not open (descendant of the last group or a name that starts with its name)

---
 ttp/ttp.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 2c4bdbe..7a5e9f1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1692,6 +1692,7 @@ class _group_class:
         vars=None,
         parent_group_id=None,
         ancestors_ids=None,
+        start_ancestor_id=None,
     ):
         """Init method
         Attributes:
@@ -1714,6 +1715,7 @@ class _group_class:
             name (str): dot separate path string representing group result location within results tree
             group_id (tuple): unique ID of the group, tuple of (self.name, self.grp_index,)
             ancestors_ids (list): group_id tuples of all parent groups, top group first
+            start_ancestor_id (tuple): group_id of the closest parent group that has start regexes
         """
         self._ttp_ = _ttp_
         self.pathchar = pathchar
@@ -1734,6 +1736,7 @@ class _group_class:
         self.group_id = ""
         self.parent_group_id = parent_group_id
         self.ancestors_ids = list(ancestors_ids or [])
+        self.start_ancestor_id = start_ancestor_id
         self.vars = vars or {}
         self.grp_index = grp_index
         self.inputs = []
@@ -1953,6 +1956,9 @@ class _group_class:
                     grp_index=g_index,
                     parent_group_id=self.group_id,
                     ancestors_ids=self.ancestors_ids + [self.group_id],
+                    start_ancestor_id=(
+                        self.group_id if self.start_re else self.start_ancestor_id
+                    ),
                     _ttp_=self._ttp_,
                 )
             )
@@ -2848,15 +2854,8 @@ class _results_class:
                                 # skip results that did not pass validation check
                                 if result_data == False:
                                     continue
-                                # prefer children of current record group
-                                elif self.record["GRP_ID"] and re_["GROUP"].group_id[
-                                    0
-                                ].startswith(self.record["GRP_ID"][0]):
-                                    break
                                 # prefer results for group that has parent started
-                                elif (
-                                    re_["GROUP"].parent_group_id in self.started_groups
-                                ):
+                                elif self.parent_started(re_["GROUP"]):
                                     break
                     # start RE preferred next
                     elif start_re:
@@ -2878,15 +2877,8 @@ class _results_class:
                                 # skip results that did not pass validation check
                                 if result_data == False:
                                     continue
-                                # prefer children of current record group
-                                elif self.record["GRP_ID"] and re_["GROUP"].group_id[
-                                    0
-                                ].startswith(self.record["GRP_ID"][0]):
-                                    break
                                 # prefer results for group that has parent started
-                                elif (
-                                    re_["GROUP"].parent_group_id in self.started_groups
-                                ):
+                                elif self.parent_started(re_["GROUP"]):
                                     break
                     # normal and end REs preferred next
                     elif normal_re:
@@ -2952,6 +2944,16 @@ class _results_class:
                 result_data=self.record["result"], result_path=self.record["PATH"]
             )
 
+    def parent_started(self, group):
+        """
+        Method to check if parent of the group started, parents with no
+        regexes never start, the closest parent that has them checked instead
+        """
+        return (
+            group.parent_group_id in self.started_groups
+            or group.start_ancestor_id in self.started_groups
+        )
+
     def save_vars(self, variables):
         # need to sort keys first to introduce deterministic behavior
         sorted_pathes = sorted(list(variables["_vars_to_results_"].keys()))
-- 
2.43.0


From 60f3d03dac1632a73f5e7b6f1fb3815f670b7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:31 +0000
Subject: [PATCH 76/77] fix: path item with two variables written without
 blanks was not resolved and the records were lost

---
 ttp/ttp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 7a5e9f1..320e066 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3371,7 +3371,7 @@ class _results_class:
             path_item = path_item.rstrip("*")
             # match result value can be equal to "_", that is not a null path
             is_null_path = path_item == "_"
-            match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
+            match = re.findall(r"{{\s*(\S+?)\s*}}", path_item)
             if match:
                 repl = {}
                 for m in match:
@@ -3391,7 +3391,7 @@ class _results_class:
                 # use function, values can contain backslashes or anything else
                 # that has special meaning in replacement string
                 path_item = re.sub(
-                    r"{{\s*(\S+)\s*}}", lambda x: repl[x.group(1)], path_item
+                    r"{{\s*(\S+?)\s*}}", lambda x: repl[x.group(1)], path_item
                 )
             path[index] = (
                 path_item,
-- 
2.43.0


From c6fefd3262c54fdb29297db053e09f79d0b4dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:25 +0000
Subject: [PATCH 77/77] fix: char argument of joinmatches given by name was
 ignored

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 320e066..8997c4f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3314,7 +3314,11 @@ class _results_class:
                     continue
                 for item in REDICT["VARIABLES"][varname].functions:
                     if item["name"] == "joinmatches":
-                        joinchar = item["args"][0] if item["args"] else joinchar
+                        joinchar = (
+                            item["args"][0]
+                            if item["args"]
+                            else item["kwargs"].get("char", joinchar)
+                        )
                         break
             # join results:
             for k in result.keys():
-- 
2.43.0

