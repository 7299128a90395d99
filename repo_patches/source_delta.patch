From d0d85e2cfc62fdf4c5cb905b970f5b715f5f4fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:21 +0000
Subject: [PATCH 001/123] fix: a true !ifdef or !ifndef branch makes the
 following !else inactive

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From e7184a9226c75aa31985550d5b0e84ced690ccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 002/123] fix: do not evaluate !if conditions in inactive code

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..cac3e20 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -418,6 +418,10 @@ class BaseParser(object):
         else:
             tokens = text.split()
         if tokens[0].lower() == "!if":
+            if not self.InActiveCode():
+                # nothing in this block can become active, so the condition must not be evaluated
+                self.PushConditional(False, True)
+                return True
             result = self.EvaluateConditional(text)
             self.PushConditional(result, result)
             return True
-- 
2.43.0


From d97a9abea0ca177922f87b64de9d38873a311336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:20 +0000
Subject: [PATCH 003/123] fix: bind NOT and relational operators tighter than
 AND and OR in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index cac3e20..2fe7878 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -678,7 +678,8 @@ class BaseParser(object):
             elif not cls._IsOperator(token):
                 expression.append(token)
             # If the stack is empty or contains a left parenthesis on top, push the incoming operator onto the stack.
-            elif len(stack) == 0 or stack[-1] == "(":
+            # NOT is a prefix operator, so it never completes the operation to its left.
+            elif len(stack) == 0 or stack[-1] == "(" or token == "NOT":
                 stack.append(token)
             # If the incoming symbol has higher precedence than the top of the stack, push it on the stack.
             elif len(stack) == 0 or cls._GetOperatorPrecedence(token) > cls._GetOperatorPrecedence(stack[-1]):
@@ -719,8 +720,12 @@ class BaseParser(object):
             return -1
         if token == "(" or token == ")":
             return 100
-        if token == "NOT":  # not is the lowest
-            return -2
+        if token.startswith("!+"):
+            token = token[2:]
+        if token == "NOT":  # not is the highest
+            return 3
+        if token in [">", "<", "<=", ">="]:
+            return 2
         if token == "IN" or token == "==" or token == "!=":
             return 1
         return 0
-- 
2.43.0


From d9de2f7ce414de80ace6c910b3cc89b4594c90eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:27 +0000
Subject: [PATCH 004/123] fix: refuse malformed conditional expressions instead
 of evaluating them

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 2fe7878..d037fbe 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -644,6 +644,8 @@ class BaseParser(object):
         found_not = False
         for token in tokens:
             if str(token).upper() == "NOT":
+                if found_not:
+                    collapsed_tokens.append("NOT")
                 found_not = True
                 continue
             if not found_not:
@@ -655,6 +657,8 @@ class BaseParser(object):
                 found_not = False
                 collapsed_tokens.append("NOT")
                 collapsed_tokens.append(token)
+        if found_not:
+            raise RuntimeError(f"We have a stray NOT in {text}")
 
         return collapsed_tokens
 
@@ -663,7 +667,13 @@ class BaseParser(object):
         # convert infix into post fix
         stack = []
         expression = []
+        operand_expected = True
         for token in tokens:
+            # operands and operators have to alternate
+            if operand_expected != (token not in cls.operators and not token.startswith("!+") and token != ")"):
+                raise RuntimeError(f"Malformed conditional, unexpected {token} in {tokens}")
+            operand_expected = token in cls.operators or token.startswith("!+") or token in ["(", "NOT"]
+
             # If the incoming symbol is a left parenthesis, push it on the stack.
             if token == "(":
                 stack.append(token)
-- 
2.43.0


From c6ed924940bf8d1841fa3ea133d89b8efbe58c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:35 +0000
Subject: [PATCH 005/123] fix: check the second operand when refusing TRUE and
 FALSE in relational conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index d037fbe..f377288 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -245,7 +245,7 @@ class BaseParser(object):
 
         # check to make sure we only have digits from here on out
         if (isinstance(value, str) and value.upper() in ["TRUE", "FALSE"]) or (
-            isinstance(value, str) and value2.upper() in ["TRUE", "FALSE"]
+            isinstance(value2, str) and value2.upper() in ["TRUE", "FALSE"]
         ):
             self.Logger.error(f"Invalid comparison: {value} {cond} {value2}")
             self.Logger.debug(f"Invalid comparison: {value} {cond} {value2}")
-- 
2.43.0


From a098c4ff6d44ba8642129c49ad28f42fa29bde9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 006/123] fix: treat any whitespace as a separator in
 conditional expressions

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index f377288..9eed864 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -484,10 +484,9 @@ class BaseParser(object):
     def EvaluateConditional(self, text: str) -> bool:
         """Uses a pushdown resolver."""
         text = str(text).strip()
-        if text.lower().startswith("!if "):
-            text = text[3:].strip()
-        elif text.lower().startswith("!elseif "):
-            text = text[7:].strip()
+        directive = text.split(maxsplit=1)[0].lower() if text else ""
+        if directive in ["!if", "!elseif"]:
+            text = text[len(directive) :].strip()
         else:
             raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
 
@@ -591,7 +590,7 @@ class BaseParser(object):
                     tokens.append(token)
                     token = ""
                 tokens.append(character)
-            elif character == " " and (mode == TEXT_MODE or mode == MACRO_MODE):
+            elif character.isspace() and (mode == TEXT_MODE or mode == MACRO_MODE):
                 if len(token) > 0:
                     tokens.append(token)
                     token = ""
@@ -607,7 +606,7 @@ class BaseParser(object):
             elif character not in CONDITION_CHARACTERS and mode == CONDITION_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-                token = character if character != " " else ""
+                token = character if not character.isspace() else ""
                 mode = TEXT_MODE
             elif character in CONDITION_CHARACTERS and mode == TEXT_MODE:
                 if len(token) > 0:
-- 
2.43.0


From 0d32ff96bbd4e5e07d9a7be351a89f0d9d555eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 007/123] fix: do not evaluate !elseif conditions of groups in
 inactive code

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 9eed864..fc18bf0 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -430,7 +430,7 @@ class BaseParser(object):
             if not self.InActiveCode():
                 (_, already_been_true) = self.PopConditional()
 
-                if already_been_true:
+                if already_been_true or not self.InActiveCode():
                     self.PushConditional(False, True)
                 else:
                     result = self.EvaluateConditional(text)
-- 
2.43.0


From 6eecc60052e2ad1a6accaed44563f0a33081bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:33 +0000
Subject: [PATCH 008/123] fix: make FDF definitions visible to the rest of the
 Defines section

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..55a0b31 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -131,6 +131,7 @@ class FdfParser(HashFileParser):
                 if sline.count("=") == 1:
                     tokens = sline.replace("DEFINE", "").split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
+                    self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
-- 
2.43.0


From 51c131698029bd6657c74a9caedbabd7cde55db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 009/123] fix: strip indentation from lines that end in a
 comment

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index fc18bf0..d68c2f8 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -897,7 +897,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From 0420d9b7c110a223d63e04106c9dd4410e321611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 010/123] fix: leave text around an unterminated macro
 reference alone

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index d68c2f8..acfeaa5 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -387,6 +387,8 @@ class BaseParser(object):
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
+            if start == -1 or end == -1:
+                break
 
             token = line[start + 2 : end]
             replacement_token = line[start : end + 1]
-- 
2.43.0


From e5c3730268b995286789ada928ddecaf1a3aaed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 011/123] fix: read any number of consecutive skipped FDF lines

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 55a0b31..681af9b 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -44,27 +44,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From b60b428926e9cccb7f43148032d3ba4791c602eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 012/123] fix: remove only the DEFINE keyword from INF and FDF
 definitions

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 ++++---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 8 ++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 681af9b..a5e53a0 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -129,15 +130,15 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    tokens = re.sub(r"^\s*DEFINE\s+", "", sline).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
-            elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            elif sline.split()[0] == "DEFINE":
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..2a011cc 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,8 +120,8 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+            if sline.split()[0] == "DEFINE":
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -254,8 +254,8 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
-            if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+            if line.split()[0] == "DEFINE":
+                tokens = line.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 0a14b5c8994ff46e9665a5e2915f88b1a67bd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 013/123] fix: record an FD whose name is also used by an FV

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index a5e53a0..d7838ac 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -145,7 +145,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From e5fb4dd1f76f51f7bfcbc6b433cd9bacb216d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 014/123] fix: take only INF section headers for section
 headers in scoped parsing

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 2a011cc..ec68133 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -262,13 +262,14 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
+            is_header = line.strip().startswith("[")
             match = self.SECTION_LIBRARY.findall(line)
-            if match:
+            if is_header and match:
                 current_section = "LibraryClasses"
                 arch_list = match
                 continue
             match = self.SECTION_SOURCE.findall(line)
-            if match:
+            if is_header and match:
                 current_section = "Sources"
                 arch_list = match
                 continue
-- 
2.43.0


From 7088cc23e44bd03bc5d672878b6c525ab9b396e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 015/123] fix: remove feature flags and families from scoped
 INF libraries and sources

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index ec68133..406dada 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -285,15 +285,15 @@ class InfParser(HashFileParser):
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(line.partition("|")[0].strip())
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [line.partition("|")[0].strip()]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From b21d238a6329818d9d231803fae733948cd6c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 016/123] fix: resolve DSC includes relative to the file that
 contains them

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..4faf9c1 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -283,6 +283,7 @@ class DscParser(HashFileParser):
             return
         for index in range(len(lines)):
             # we try here so that we can catch exceptions from individual lines
+            target_file = self.TargetFilePath
             try:
                 raw_line = lines[index]
                 (line, add, new_file) = self.__ParseLine(raw_line, file_name=file_name, lineno=index + 1)
@@ -297,6 +298,9 @@ class DscParser(HashFileParser):
                     # otherwise, let the user know that we failed in the DSC
                     self.Logger.warning(f"DSC Parser (No-Fail Mode): {raw_line}")
                     self.Logger.warning(e)
+            finally:
+                # an include is done, so paths are relative to this file again
+                self.TargetFilePath = target_file
 
     def __ProcessDefines(self, lines: list) -> None:
         """Goes through a file once to look for [Define] sections.
@@ -311,6 +315,7 @@ class DscParser(HashFileParser):
         for raw_line in lines:
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
+            target_file = self.TargetFilePath
             try:
                 (line, add) = self.__ParseDefineLine(raw_line)
                 self.__ProcessDefines(add)
@@ -319,6 +324,9 @@ class DscParser(HashFileParser):
                 # otherwise, raise the exception and act normally
                 if not self._no_fail_mode:
                     raise
+            finally:
+                # an include is done, so paths are relative to this file again
+                self.TargetFilePath = target_file
 
     def _parse_libraries(self) -> None:
         """Builds a lookup table of all possible library instances depending on scope.
-- 
2.43.0


From 0ba7d2cdf9e8f762c1793537523520f7d835071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 017/123] fix: resolve FDF includes relative to the file that
 contains them

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index d7838ac..3e9ebe1 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -37,6 +37,7 @@ class FdfParser(HashFileParser):
         self.FVs = {}
         self.FDs = {}
         self.CurrentSection = []
+        self._IncludeStack = []
         self.Path = ""
 
     def GetNextLine(self) -> str:
@@ -46,6 +47,10 @@ class FdfParser(HashFileParser):
         processing conditionals, etc.
         """
         while len(self.Lines) > 0:
+            # when an include is done, paths are relative to the file that contains it again
+            while self._IncludeStack and len(self.Lines) <= self._IncludeStack[-1][0]:
+                self.TargetFilePath = self._IncludeStack.pop()[1]
+
             line = self.Lines.pop()
             self.CurrentLine += 1
             sline = self.StripComment(line)
@@ -89,6 +94,7 @@ class FdfParser(HashFileParser):
         self.Lines.reverse()
         self._f.close()
         self._BracketCount = 0
+        self._IncludeStack = []
         InDefinesSection = False
         InFdSection = False
         InFvSection = False
@@ -110,6 +116,8 @@ class FdfParser(HashFileParser):
                 if sp is None:
                     raise FileNotFoundError(include_file)
                 self.Logger.debug("Opening Include File %s" % sp)
+                self._IncludeStack.append((len(self.Lines), self.TargetFilePath))
+                self.TargetFilePath = os.path.abspath(sp)
                 self.InsertLinesFromFile(sp)
                 continue
 
-- 
2.43.0


From 42182e73a1c10cbc781f1d16b39b15974d16d377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 018/123] fix: accept DSC define and build option lines without
 a value

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 4faf9c1..84acc19 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -251,9 +251,7 @@ class DscParser(HashFileParser):
                 # iterate through the existed LocalVars and try to resolve the symbols
                 for var in self.LocalVars:
                     self.LocalVars[var] = self.ReplaceVariables(self.LocalVars[var])
-                return (line_resolved, [])
-        else:
-            return (line_resolved, [])
+        return (line_resolved, [])
 
     def ParseInfPathLib(self, line: str) -> str:
         """Parses a line with an INF path Lib."""
-- 
2.43.0


From a732f9cf7aabbecb1cc6ec4b830a7d0fcc52d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:32 +0000
Subject: [PATCH 019/123] fix: report only PCDs of active DSC lines and each of
 them once

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 84acc19..ffe3a1f 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -196,8 +196,6 @@ class DscParser(HashFileParser):
         if len(line_stripped) < 1:
             return ("", [])
 
-        # this line needs to be here to resolve any symbols inside the !include lines, if any
-        self.RegisterPcds(line_stripped)
         line_stripped = self.ReplacePcds(line_stripped)
         line_resolved = self.ReplaceVariables(line_stripped)
         if self.ProcessConditional(line_resolved):
@@ -211,6 +209,9 @@ class DscParser(HashFileParser):
         if not self.InActiveCode():
             return ("", [])
 
+        # this line needs to be here to resolve any symbols inside the !include lines, if any
+        self.RegisterPcds(line_stripped)
+
         # check for include file and import lines from file
         if line_resolved.strip().lower().startswith("!include"):
             # include line.
@@ -489,7 +490,9 @@ class DscParser(HashFileParser):
         f = open(sp, "r")
         # expand all the lines and include other files
         file_lines = f.readlines()
+        pcds = list(self.Pcds)
         self.__ProcessDefines(file_lines)
+        self.Pcds = pcds
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
-- 
2.43.0


From 4e6f91d96d97fa0f75c7532c8aa6e7bf82751200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 020/123] fix: replace only whole PCD names in DSC conditionals

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ffe3a1f..de45dfb 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -64,9 +64,7 @@ class DscParser(HashFileParser):
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
         if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+            line = re.sub(r"[\w\.]+", lambda m: self.PcdValueDict.get(m.group(), m.group()), line)
         return line
 
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
-- 
2.43.0


From 8191ec9c6a88381e47c270431c90fd2f76f90189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 021/123] fix: keep every library instance of a scope when one
 is listed again

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index de45dfb..8d6a333 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -359,10 +359,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 5ffbaf7ad657f8194f04022d9bb8a03d98ef80a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:33 +0000
Subject: [PATCH 022/123] fix: keep the brace of a structured PCD declaration
 out of its token

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..745da65 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,7 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        self.id = op[3].rstrip(" {").strip() if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From 80b8f5dc5016be99fd804aca1ce84d28c8eddf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 023/123] fix: replace each macro reference where it stands in
 the line

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index acfeaa5..a0f33dc 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -384,6 +384,7 @@ class BaseParser(object):
         # use line to avoid change by handling above
         rep = line.count("$")
         index = 0
+        offset = 0  # how much longer the result is than the line, up to index
         while rep > 0:
             start = line.find("$(", index)
             end = line.find(")", start)
@@ -398,7 +399,8 @@ class BaseParser(object):
                 # prevent circular variable replacement
                 if f"$({token})" in v:
                     v = ""
-                result = result.replace(replacement_token, v, 1)
+                result = result[: start + offset] + v + result[end + 1 + offset :]
+                offset += len(v) - len(replacement_token)
 
             index = end + 1
             rep = rep - 1
-- 
2.43.0


From bfc9d949a27c107ca6c9475e6ed86263c205e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 024/123] fix: resolve FDF includes inside FILE statements

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 3e9ebe1..930bb5b 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -65,6 +65,18 @@ class FdfParser(HashFileParser):
             if not self.InActiveCode():
                 continue
 
+            if sline.lower().startswith("!include"):
+                tokens = sline.split()
+                include_file = tokens[1]
+                sp = self.FindPath(include_file)
+                if sp is None:
+                    raise FileNotFoundError(include_file)
+                self.Logger.debug("Opening Include File %s" % sp)
+                self._IncludeStack.append((len(self.Lines), self.TargetFilePath))
+                self.TargetFilePath = os.path.abspath(sp)
+                self.InsertLinesFromFile(sp)
+                continue
+
             self._BracketCount += sline.count("{")
             self._BracketCount -= sline.count("}")
 
@@ -109,18 +121,6 @@ class FdfParser(HashFileParser):
             if sline is None:
                 break
 
-            if sline.lower().startswith("!include"):
-                tokens = sline.split()
-                include_file = tokens[1]
-                sp = self.FindPath(include_file)
-                if sp is None:
-                    raise FileNotFoundError(include_file)
-                self.Logger.debug("Opening Include File %s" % sp)
-                self._IncludeStack.append((len(self.Lines), self.TargetFilePath))
-                self.TargetFilePath = os.path.abspath(sp)
-                self.InsertLinesFromFile(sp)
-                continue
-
             if sline.strip().startswith("[") and sline.strip().endswith("]"):  # if we're starting a new section
                 # this basically gets what's after the . or if it doesn't have a period
                 # the whole thing for every comma separated item in sline
-- 
2.43.0


From 5482d56617e7827279467f347aa7eac4da3310ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 025/123] fix: resolve INF definitions the same way for scoped
 and plain lists

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 406dada..727170a 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -111,6 +111,7 @@ class InfParser(HashFileParser):
         InPcdSection = False
         InSourcesSection = False
         InBinariesSection = False
+        local_vars = dict(self.LocalVars)
 
         for line in self.Lines:
             sline = self.StripComment(line)
@@ -244,6 +245,7 @@ class InfParser(HashFileParser):
         # logic
         current_section = ""
         arch_list = []
+        self.LocalVars = local_vars
 
         for line in self.Lines:
             line = self.StripComment(line)
@@ -254,14 +256,14 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
+            line = self.ReplaceVariables(line)
+
             if line.split()[0] == "DEFINE":
                 tokens = line.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            line = self.ReplaceVariables(line)
-
             is_header = line.strip().startswith("[")
             match = self.SECTION_LIBRARY.findall(line)
             if is_header and match:
-- 
2.43.0


From b7b2b1c6f0adfeb111e0683a2b98412db8ec8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:48 +0000
Subject: [PATCH 026/123] fix: accept only whole GUID texts in GuidParser

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..d96fa75 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,8 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        guidstring = guidstring.strip().rstrip(";").rstrip()
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +68,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From 5d3f5b777c5869cc5ed6e7a28d4ee925848bda27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:17 +0000
Subject: [PATCH 027/123] fix: refuse GUID fields that are not hex numbers in
 BaseParser

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 70 +++++---------------
 1 file changed, 15 insertions(+), 55 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a0f33dc..ca994f1 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -9,10 +9,12 @@
 
 import logging
 import os
+import re
 from typing import Optional, Union
 from warnings import warn
 
 from edk2toollib.uefi.edk2 import path_utilities
+from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser
 
 
 class BaseParser(object):
@@ -770,7 +772,7 @@ class BaseParser(object):
         Will return true if the the line has
         """
         if line.count("{") == 2 and line.count("}") == 2 and line.count(",") == 10 and line.count("=") == 1:
-            return True
+            return GuidParser.GuidCFormatRegEx.search(line.partition("=")[2]) is not None
         return False
 
     def ParseGuid(self, line: str) -> str:
@@ -791,61 +793,19 @@ class BaseParser(object):
             raise RuntimeError(
                 f"Invalid GUID found {line}. We are missing some parts since we only found: {len(entries)}"
             )
-        gu = entries[0].lstrip(" 0").lstrip("x").strip()
-        # pad front until 8 chars
-        while len(gu) < 8:
-            gu = "0" + gu
-
-        gut = entries[1].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 4:
-            gut = "0" + gut
-        gu = gu + "-" + gut
-
-        gut = entries[2].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 4:
-            gut = "0" + gut
-        gu = gu + "-" + gut
-
+        # the last entry ends at its closing brace
+        entries[10] = entries[10].partition("}")[0]
         # strip off extra {
-        gut = entries[3].lstrip(" { 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + "-" + gut
-
-        gut = entries[4].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
-
-        gut = entries[5].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + "-" + gut
-
-        gut = entries[6].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
-
-        gut = entries[7].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
-
-        gut = entries[8].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
-
-        gut = entries[9].lstrip(" 0").lstrip("x").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
-
-        gut = entries[10].split()[0].lstrip(" 0").lstrip("x").rstrip(" } ").strip()
-        while len(gut) < 2:
-            gut = "0" + gut
-        gu = gu + gut
+        entries[3] = entries[3].strip().lstrip("{")
+        gu = ""
+        for index, (entry, width) in enumerate(zip(entries, [8, 4, 4, 2, 2, 2, 2, 2, 2, 2, 2])):
+            value = re.fullmatch(r"(?:0[xX])?([0-9a-fA-F]+)", entry.strip())
+            if value is None:
+                raise RuntimeError(f"Invalid GUID found {line}. This part is not a hex number: {entry}")
+            if index in [1, 2, 3, 5]:
+                gu += "-"
+            # pad front until it is long enough
+            gu += value.group(1).lstrip("0").rjust(width, "0")
 
         proper_guid_length = 36
         if len(gu) > proper_guid_length:
-- 
2.43.0


From 51499569666d9f557c4a4c8379de2cbd865d12a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 028/123] fix: report every target.txt line that assigns a
 value

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..d730c13 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if sline.count("=") >= 1:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From b3dc0b76287a4ec05e82e95da48f543823730ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 029/123] fix: refuse incomplete override records with a parse
 error

---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..0c1dd80 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -138,8 +138,8 @@ class OverrideParser(object):
         # Split the override string into pieces.
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        line_parts = line_contents.partition(":")
+        line_parts = [part.strip() for part in line_parts[2].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
@@ -153,9 +153,13 @@ class OverrideParser(object):
 
         # Step 2: Process the path to overridden module
         # Normalize the path to support different slashes.
+        if not line_parts[1]:
+            raise OpParseError(OpParseError.PE_PATH)
         result["original_path"] = os.path.normpath(line_parts[1])
 
         # Step 3: Grep hash entry
+        if not line_parts[2]:
+            raise OpParseError(OpParseError.PE_HASH)
         result["current_hash"] = line_parts[2]
 
         # Step 4: Parse the time of hash generation
-- 
2.43.0


From 4229b72c2fbec55c042aa5ca0bef9d0c07c38243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 030/123] fix: keep the last line of a build report region

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..4f140c7 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -400,7 +400,7 @@ class BuildReport(object):
                 self._ReportContents[lineNumber]
                 == "<======================================================================================================================>"
             ):  # noqa: E501
-                return lineNumber - 1
+                return lineNumber
             lineNumber += 1
 
         logging.debug("Failed to find a End Region after lineNumber: %d" % number)
-- 
2.43.0


From 48ae2a2991b9dc5c079e5a25d3e6ed15fb3d9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 031/123] fix: report build report PCD values that contain = or
 :

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 4f140c7..42b9c12 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -138,7 +138,7 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 1:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
@@ -154,7 +154,7 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 0:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
-- 
2.43.0


From 463e38d79e6724211c925aeee517c95efacf04f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 032/123] fix: resolve '..' in the workspace and packages paths
 so that conversions match

---
 edk2toollib/uefi/edk2/path_utilities.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..a6ee13e 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -64,6 +64,10 @@ class Edk2Path(object):
         if not workspace_candidate_path.is_absolute():
             workspace_candidate_path = Path.cwd() / ws
 
+        # Paths are compared part by part, so a root that keeps a ".." would never match the paths below it.
+        if ".." in workspace_candidate_path.parts:
+            workspace_candidate_path = workspace_candidate_path.resolve()
+
         if not workspace_candidate_path.is_dir():
             raise NotADirectoryError(errno.ENOENT, os.strerror(errno.ENOENT), workspace_candidate_path.resolve())
 
@@ -81,6 +85,7 @@ class Edk2Path(object):
                 else:
                     # assume current working dir relative.  Will catch invalid dir when checking whole list
                     candidate_package_path_list.append(Path.cwd() / a)
+        candidate_package_path_list = [a.resolve() if ".." in a.parts else a for a in candidate_package_path_list]
         end_time = timeit.default_timer()
         self.logger.log(logging.DEBUG, f"Time to build candidate_package_path_list: {end_time - start_time}")
 
-- 
2.43.0


From 442ea4675ab1aff8a525ceeb1ef3bd9045d8c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 033/123] fix: GetContainingModules with nested roots and with
 a root itself

---
 edk2toollib/uefi/edk2/path_utilities.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index a6ee13e..ec56713 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -349,21 +349,17 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
         for path in maximum_root_paths:
             if input_path.is_relative_to(path):
+                maximum_root_path = path
                 break
         else:
             return []
@@ -395,7 +391,7 @@ class Edk2Path(object):
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
             current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            while current_dir != maximum_root_path and current_dir.is_relative_to(maximum_root_path):
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From de14c6d0975b0eaa692ef3fdd05e6564a7e18903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 034/123] fix: GetContainingPackage only lists directories and
 only counts DEC files

---
 edk2toollib/uefi/edk2/path_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index ec56713..5397938 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -308,9 +308,9 @@ class Edk2Path(object):
             dirpath = InputPath.parent
 
         while path_root != dirpath:
-            if dirpath.exists():
+            if dirpath.is_dir():
                 for f in dirpath.iterdir():
-                    if f.suffix.lower() == ".dec":
+                    if f.is_file() and f.suffix.lower() == ".dec":
                         return dirpath.name
 
             dirpath = dirpath.parent
-- 
2.43.0


From 58d15620f2a31cb3e6573ad6e01e7912dbe6d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 035/123] fix: ignore rules below a base directory reached
 through a symbolic link

---
 edk2toollib/gitignore_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..6e9599d 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -70,7 +70,7 @@ def parse_gitignore_lines(lines: list, full_path: str, base_dir: str) -> Callabl
     for line in lines:
         counter += 1
         line = line.rstrip("\n")
-        rule = rule_from_pattern(line, base_path=Path(base_dir).resolve(), source=(full_path, counter))
+        rule = rule_from_pattern(line, base_path=_normalize_path(base_dir), source=(full_path, counter))
         if rule:
             rules.append(rule)
     if not any(r.negation for r in rules):
@@ -91,7 +91,7 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     Because git allows for nested .gitignore files, a base_path value
     is required for correct behavior. The base path should be absolute.
     """
-    if base_path and base_path != Path(base_path).resolve():
+    if base_path and base_path != _normalize_path(base_path):
         raise ValueError("base_path must be absolute")
     # Store the exact pattern for our repr and string functions
     orig_pattern = pattern
-- 
2.43.0


From dc759f2a458ade688e0a21762bab551c42a445db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 036/123] fix: trailing spaces of an ignore pattern are removed
 before anything else

---
 edk2toollib/gitignore_parser.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 6e9599d..9508e08 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -99,6 +99,8 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     # Discard comments and separators
     if pattern.strip() == "" or pattern[0] == "#":
         return
+    # trailing spaces are ignored unless they are escaped with a backslash
+    pattern = re.sub(r"^((?:\\.|[^\\])*?) +$", r"\1", pattern)
     # Strip leading bang before examining double asterisks
     if pattern[0] == "!":
         negation = True
@@ -127,22 +129,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     if pattern[-1] == "/":
         pattern = pattern[:-1]
-    # patterns with leading hashes or exclamation marks are escaped with a
-    # backslash in front, unescape it
-    if pattern[0] == "\\" and pattern[1] in ("#", "!"):
-        pattern = pattern[1:]
-    # trailing spaces are ignored unless they are escaped with a backslash
-    i = len(pattern) - 1
-    striptrailingspaces = True
-    while i > 1 and pattern[i] == " ":
-        if pattern[i - 1] == "\\":
-            pattern = pattern[: i - 1] + pattern[i:]
-            i = i - 1
-            striptrailingspaces = False
-        else:
-            if striptrailingspaces:
-                pattern = pattern[:i]
-        i = i - 1
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
@@ -242,6 +228,10 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             res.append(nonsep)
         elif c == "/":
             res.append(seps_group)
+        elif c == "\\":
+            # A backslash quotes the next character. At the end of a pattern, the pattern is invalid and never matches.
+            res.append(re.escape(pattern[i]) if i < n else "(?!)")
+            i += 1
         elif c == "[":
             j = i
             if j < n and pattern[j] == "!":
-- 
2.43.0


From 65b986eae72aa3c1bb4eead8545c02b34a92bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 037/123] fix: consecutive asterisks in ignore patterns, and
 patterns made of nothing else

---
 edk2toollib/gitignore_parser.py | 36 ++++++++++++---------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 9508e08..247021c 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -107,24 +107,14 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     else:
         negation = False
-    # Multi-asterisks not surrounded by slashes (or at the start/end) should
-    # be treated like single-asterisks.
-    pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
-    pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
-
-    # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() == "/":
+    # Special-casing '/' and '!', which don't match any files or directories
+    if pattern.strip("/") == "":
         return
 
     directory_only = pattern[-1] == "/"
     # A slash is a sign that we're tied to the base_path of our rule
     # set.
     anchored = "/" in pattern[:-1]
-    if pattern[0] == "/":
-        pattern = pattern[1:]
-    if pattern[0] == "*" and len(pattern) >= 2 and pattern[1] == "*":
-        pattern = pattern[2:]
-        anchored = False
     if pattern[0] == "/":
         pattern = pattern[1:]
     if pattern[-1] == "/":
@@ -212,18 +202,18 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
         c = pattern[i]
         i += 1
         if c == "*":
-            try:
-                if pattern[i] == "*":
-                    i += 1
-                    if i < n and pattern[i] == "/":
-                        i += 1
-                        res.append("".join(["(.*", seps_group, ")?"]))
-                    else:
-                        res.append(".*")
-                else:
-                    res.append("".join([nonsep, "*"]))
-            except IndexError:
+            start = i - 1
+            while i < n and pattern[i] == "*":
+                i += 1
+            # Multi-asterisks not surrounded by slashes (or at the start/end) should
+            # be treated like single-asterisks.
+            if i - start < 2 or pattern[start - 1 : start] not in ("", "/") or pattern[i : i + 1] not in ("", "/"):
                 res.append("".join([nonsep, "*"]))
+            elif i < n:
+                i += 1
+                res.append("".join(["(.*", seps_group, ")?"]))
+            else:
+                res.append(".+")
         elif c == "?":
             res.append(nonsep)
         elif c == "/":
-- 
2.43.0


From 45ef8ba39717a73ef6ca01a214755563646f44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 038/123] fix: bracket expressions in ignore patterns

---
 edk2toollib/gitignore_parser.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 247021c..4c4e042 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -223,23 +223,22 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             res.append(re.escape(pattern[i]) if i < n else "(?!)")
             i += 1
         elif c == "[":
-            j = i
-            if j < n and pattern[j] == "!":
-                j += 1
-            if j < n and pattern[j] == "]":
-                j += 1
-            while j < n and pattern[j] != "]":
-                j += 1
-            if j >= n:
-                res.append("\\[")
+            # A bracket expression is negated by '!' or '^', may quote characters with a backslash, never matches a
+            # separator, and makes the pattern invalid (it never matches) if it is not closed.
+            bracket = re.match(r"([!^]?)((?:\\.|[^\\])(?:\\.|[^\\\]])*)\]", pattern[i:])
+            if bracket is None:
+                res.append("(?!)")
+                break
+            i += bracket.end()
+            stuff = ""
+            for first, last in re.findall(r"(\\.|[^\\])(?:-(\\.|[^\\]))?", bracket.group(2)):
+                first, last = first[-1], (last or first)[-1]
+                if first <= last:
+                    stuff += re.escape(first) + "-" + re.escape(last)
+            if bracket.group(1):
+                res.append("(?!{})[^{}]".format(seps_group, stuff) if stuff else nonsep)
             else:
-                stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
-                i = j + 1
-                if stuff[0] == "!":
-                    stuff = "".join(["^", stuff[1:]])
-                elif stuff[0] == "^":
-                    stuff = "".join("\\" + stuff)
-                res.append("[{}]".format(stuff))
+                res.append("(?!{})[{}]".format(seps_group, stuff) if stuff else "(?!)")
         else:
             res.append(re.escape(c))
     if anchored:
-- 
2.43.0


From 2300c259854e7aade9dd601887b4129bb7bacae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:41 +0000
Subject: [PATCH 039/123] fix: negated ignore rules apply to directories

---
 edk2toollib/gitignore_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 4c4e042..aea107c 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -246,7 +246,8 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
     else:
         res.insert(0, f"(^|{seps_group})")
     if not directory_only:
-        res.append("$")
+        # A directory matched by a negated rule may be given with its trailing slash
+        res.append("/?$" if negation else "$")
     elif directory_only and negation:
         res.append("/$")
     else:
-- 
2.43.0


From 3926551bd95a4e76cd4b7302dd2dd85bb678aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 040/123] fix: an asterisk in an ignore pattern does not match
 an empty path segment

---
 edk2toollib/gitignore_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index aea107c..39c4509 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -207,8 +207,10 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
                 i += 1
             # Multi-asterisks not surrounded by slashes (or at the start/end) should
             # be treated like single-asterisks.
-            if i - start < 2 or pattern[start - 1 : start] not in ("", "/") or pattern[i : i + 1] not in ("", "/"):
+            if pattern[start - 1 : start] not in ("", "/") or pattern[i : i + 1] not in ("", "/"):
                 res.append("".join([nonsep, "*"]))
+            elif i - start < 2:
+                res.append("".join([nonsep, "+"]))
             elif i < n:
                 i += 1
                 res.append("".join(["(.*", seps_group, ")?"]))
-- 
2.43.0


From 696d5ef68a5dd4b1c48c19bb870884ce04b5b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 041/123] fix: directory rules re-include directories in the
 guid list

---
 edk2toollib/uefi/edk2/guid_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..97e8cc4 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -62,7 +62,8 @@ class GuidList:
         for root, dirs, files in os.walk(folder):
             for d in dirs[:]:
                 fullpath = os.path.join(root, d)
-                if ignore(fullpath):
+                # the trailing separator tells that this is a directory
+                if ignore(os.path.join(fullpath, "")):
                     logging.debug(f"Ignore folder: {fullpath}")
                     dirs.remove(d)
 
-- 
2.43.0


From 1fc6add8b437ca5f7b464d75fc37eaf8cecb995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 042/123] fix: RunCmd blocks forever when nobody reads the
 output of the command

---
 edk2toollib/utility_functions.py | 40 ++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..970daa9 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,27 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # close the stream on errors too, otherwise the command blocks as soon as the pipe is full
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
@@ -195,7 +198,8 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        # without a reader, a command that fills the pipe would block forever
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From e1a1096c48b25ac8146c0bea57df7db97956530c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 043/123] fix: RunPythonScript with quotes or spaces around or
 in the script path

---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 970daa9..37f73b5 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -260,10 +260,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -278,6 +276,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From 4962b43f439636cd8908be732251b03af41ff6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 044/123] fix: RemoveTree: remove read-only directories, never
 change what a link points to

---
 edk2toollib/utility_functions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 37f73b5..5b36bd2 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -453,10 +453,18 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
     if sys.platform.startswith("win"):
         dir_path = "\\\\?\\" + os.path.abspath(dir_path)
 
-    def _remove_readonly(func: Callable, path: str, _: any) -> None:
+    def _remove_readonly(func: Callable, path: str, exc_info: tuple) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
-        os.chmod(path, stat.S_IWRITE)
-        func(path)
+        # An entry can only be removed from a directory that is writable.
+        if path != dir_path:
+            os.chmod(os.path.dirname(path), stat.S_IRWXU)
+        # Changing the permissions of a link would change its target, which is not part of the tree.
+        if not os.path.islink(path):
+            os.chmod(path, stat.S_IRWXU)
+        if func in (os.unlink, os.rmdir):
+            func(path)
+        elif func not in (os.lstat, os.open, os.scandir):
+            raise exc_info[1]
 
     for _ in range(3):  # retry up to 3 times
         try:
-- 
2.43.0


From 526c263bba7eb4b03dd0c9e8df28df2d05e50ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 045/123] fix: hexdump: pad partial lines for the separator
 that was printed

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 5b36bd2..f39560c 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -555,7 +555,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From b69d08936207909f257ff567444e962fad3792d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 046/123] fix: locate_class_in_module: result must not depend
 on the names of the classes

---
 edk2toollib/utility_functions.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f39560c..329e22b 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -425,17 +425,19 @@ def locate_class_in_module(Module: Any, DesiredClass: Any) -> Any:  # noqa: ANN4
     # Filter through the Module, we're only looking for classes.
     classList = [getattr(Module, obj) for obj in module_contents if inspect.isclass(getattr(Module, obj))]
 
+    # Classes that the module import show up in this list too so we need
+    # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
+    classList = [c for c in classList if c is not DesiredClass and issubclass(c, DesiredClass)]
+
     for _class in classList:
-        # Classes that the module import show up in this list too so we need
-        # to make sure it's an INSTANCE of DesiredClass, not DesiredClass itself!
         # if multiple instances are found in the same class hierarchy, pick the
         # most specific one. If multiple instances are found belonging to different
         # class hierarchies, raise an error.
-        if _class is not DesiredClass and issubclass(_class, DesiredClass):
-            if (DesiredClassInstance is None) or issubclass(_class, DesiredClassInstance):
-                DesiredClassInstance = _class
-            elif not issubclass(DesiredClassInstance, _class):
-                raise RuntimeError(f"Multiple instances were found:\n\t{DesiredClassInstance}\n\t{_class}")
+        if all(issubclass(_class, other) for other in classList):
+            DesiredClassInstance = _class
+
+    if DesiredClassInstance is None and classList:
+        raise RuntimeError("Multiple instances were found:" + "".join(f"\n\t{c}" for c in classList))
     return DesiredClassInstance
 
 
-- 
2.43.0


From a81e618f7fab8a4942f0e03bef7d183facf450c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 047/123] fix: PrintByteList: an output stream can be given

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 329e22b..351fc08 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -488,7 +488,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From fed646eb911c9c5dd7097b3156bafd6061c2a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 048/123] fix: capsule and payload headers larger than the
 fixed part keep their extension, and must fit the buffer

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 6 +++++-
 edk2toollib/uefi/uefi_capsule_header.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..4a95919 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -48,6 +48,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = self._StructSize
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
+        self.ExtendedHeader = b""
         self.Payload = b""
 
     def Encode(self) -> bytes:
@@ -59,6 +60,8 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
+        # The header may be larger than the fixed part
+        FmpPayloadHeader = (FmpPayloadHeader + self.ExtendedHeader).ljust(self.HeaderSize, b"\x00")
         return FmpPayloadHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
@@ -82,12 +85,13 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..ac6154c 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -61,6 +61,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = False
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
+        self.ExtendedHeader = b""
         self.Payload = b""
         self.FmpCapsuleHeader = None
 
@@ -88,6 +89,9 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
+        # The header may be larger than the EFI_CAPSULE_HEADER
+        UefiCapsuleHeader = (UefiCapsuleHeader + self.ExtendedHeader).ljust(self.HeaderSize, b"\x00")
+
         return UefiCapsuleHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
@@ -109,7 +113,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
@@ -120,6 +124,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
-- 
2.43.0


From d34aacc025601ac8a4506a79857d26d899098415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 049/123] fix: decoding into a used capsule object forgets the
 previous nested header

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 1 +
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index ac6154c..3295895 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -126,6 +126,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = CapsuleImageSize
         self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From 7e2c802eae60cf36564030d7485e09282caec2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 050/123] fix: FMP capsule item offsets must lie in the buffer
 in ascending order

---
 edk2toollib/uefi/fmp_capsule_header.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..2572a85 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -306,10 +306,15 @@ class FmpCapsuleHeaderClass(object):
         # Parse the ItemOffsetList values
         #
         Offset = self._StructSize
+        PreviousOffset = Offset + (EmbeddedDriverCount + PayloadItemCount) * self._ItemOffsetSize
+        if len(Buffer) < PreviousOffset:
+            raise ValueError
         for Index in range(EmbeddedDriverCount + PayloadItemCount):
             ItemOffset = struct.unpack(self._ItemOffsetFormat, Buffer[Offset : Offset + self._ItemOffsetSize])[0]
-            if ItemOffset >= len(Buffer):
+            # the length of an item is known by where the next one begins
+            if ItemOffset < PreviousOffset or ItemOffset > len(Buffer):
                 raise ValueError
+            PreviousOffset = ItemOffset
             offset_list.append(ItemOffset)
             Offset = Offset + self._ItemOffsetSize
         Result = Buffer[Offset:]
-- 
2.43.0


From 45dde7343cee2611448f4397143e5b4cc30e2124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 051/123] fix: a WIN_CERTIFICATE length must lie in the buffer

---
 edk2toollib/uefi/wincert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..0562838 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,6 +161,9 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid certificate length")
+
         if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
             raise ValueError("Invalid file stream size")
 
@@ -408,7 +411,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From 29d228f4213df16a17e0231a7770167d62a29fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 052/123] fix: WinCertPkcs1.print writes the data to the given
 stream

---
 edk2toollib/uefi/wincert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 0562838..5602e3d 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -191,7 +191,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
-- 
2.43.0


From e684b7af8dfaf385315318f3580c655819948270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 053/123] fix: FmpAuthHeaderClass.IsSigned recognises a PKCS7
 certificate

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From 05ca67985f59084985b38670ea325e51f0d99a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:25 +0000
Subject: [PATCH 054/123] fix: a decoded FMP capsule counts each item once

---
 edk2toollib/uefi/fmp_capsule_header.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 2572a85..d9256ee 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -295,8 +295,9 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        # counted as the items are added below
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From c3f907216359c9359948625bbb04717f4fdfc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 055/123] fix: EfiTime.from_binary reads its own bytes of a
 longer buffer

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..5807585 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1221,7 +1221,7 @@ class EfiTime(CommonUefiStructure):
         if len(binary_data) < cls._struct_size:
             raise ValueError("BinaryData didn't contain enough data!")
 
-        timestamp = struct.unpack(EfiTime._struct_format, binary_data)
+        timestamp = struct.unpack(EfiTime._struct_format, binary_data[: cls._struct_size])
         timestamp = datetime.datetime(*(timestamp[:6] + tuple([timestamp[7] // 1000])))
         return cls(time=timestamp)
 
-- 
2.43.0


From f2a58f44519bd3dca8ced96aab02379110d9637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 056/123] fix: EfiVariableAuthentication2 rejects an unknown
 certificate type instead of misreading it

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 5807585..5397d34 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1305,6 +1305,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
             raise Exception("Invalid File Steam")
         self.time = EfiTime(decodefs=fs)
         self.auth_info = WinCert.factory(fs)
+        if self.auth_info is None:
+            raise ValueError("Unsupported certificate type")
         self.payload = None
         self.sig_list_payload = None
 
-- 
2.43.0


From c3b0ccd84b260c95174f1e9fc34bc2cb8d143cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 057/123] fix: setting a payload replaces everything kept of
 the previous one

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 5397d34..357e63d 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1398,6 +1398,9 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Input Stream")
 
+        self.payload = None
+        self.sig_list_payload = None
+
         # Find the payload size
         start = fs.tell()
         fs.seek(0, 2)
-- 
2.43.0


From 90bcc5685af6fdb737a5c0dcdaa97a8aad18c326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 058/123] fix: an emptied payload is taken out of the digest of
 an authenticated variable

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 357e63d..9b5adde 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1497,7 +1497,7 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
-            return
+            payload = b""
 
         # convert the payload to a file stream for SetPayload
         if not hasattr(payload, "seek"):
-- 
2.43.0


From d3231a635f2b188938c8fb0a0898f2f423a0990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:40 +0000
Subject: [PATCH 059/123] fix: an authenticated variable can be signed by
 several signers

---
 .../uefi/authenticated_variables_structure_support.py    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 9b5adde..c7d24dc 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1453,6 +1453,7 @@ class EfiVariableAuthentication2Builder(object):
 
         # Start setting up the builder
         self.signature_builder = pkcs7.PKCS7SignatureBuilder()
+        self.signed_digest = None
 
         efi_attributes = EfiVariableAttributes(attributes)
 
@@ -1540,8 +1541,12 @@ class EfiVariableAuthentication2Builder(object):
         digest = kwargs.get("digest", self.digest)
         indent = kwargs.get("indent", " " * 4)
 
-        # Set up the databuffer that will be signed
-        self.signature_builder = self.signature_builder.set_data(digest)
+        # Set up the databuffer that will be signed, every signer signs the same data
+        if self.signed_digest is None:
+            self.signature_builder = self.signature_builder.set_data(digest)
+            self.signed_digest = digest
+        elif self.signed_digest != digest:
+            raise ValueError("All signers must sign the same data")
 
         logging.info("")
         logging.info("Signing with Certificate: ")
-- 
2.43.0


From 750ea56b01bfffc0df262c832d8c7c3a138c9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:49 +0000
Subject: [PATCH 060/123] fix: signature lists without signatures decode,
 impossible signature sizes are rejected

---
 .../uefi/authenticated_variables_structure_support.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index c7d24dc..6b1c1f8 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -183,7 +183,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
@@ -659,7 +659,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # A list that holds no signatures has no signature size to divide by
+        remaining = self.signature_list_size - (fs.tell() - start)
+        if remaining != 0 and (self.signature_size == 0 or remaining % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From dc7138763a68cbeb47c2ed1318c5cdd63cabbbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 061/123] fix: signature lists refuse signature data of another
 type

---
 .../uefi/authenticated_variables_structure_support.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 6b1c1f8..7cdab82 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -799,7 +799,16 @@ class EfiSignatureList(CommonUefiStructure):
 
         Raises:
             (Exception): Signature size does not match Sig Data Object size
+            (Exception): Signature type does not match Sig Data Object type
         """
+        data_types = {
+            EfiSignatureDataFactory.EFI_CERT_SHA256_GUID: EfiSignatureDataEfiCertSha256,
+            EfiSignatureDataFactory.EFI_CERT_X509_GUID: EfiSignatureDataEfiCertX509,
+        }
+        data_type = data_types.get(self.signature_type)
+        if data_type is not None and not isinstance(SigDataObject, data_type):
+            raise Exception("Can't add Signature Data of different type")
+
         if self.signature_size == 0:
             raise Exception("Before adding Signature Data you must have set the Signature Size")
 
-- 
2.43.0


From 1bebe4ca9b6481cf363f58418833d55af8789f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 062/123] fix: merging signature lists takes over the signature
 size and changes nothing when refused

---
 .../uefi/authenticated_variables_structure_support.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 7cdab82..58970b0 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -834,17 +834,18 @@ class EfiSignatureList(CommonUefiStructure):
 
         if self.signature_header_size > 0 or esl.signature_header_size > 0:
             raise Exception("Merge does not support Signature Headers")
-        self.signature_header_size = 0
 
         if esl.signature_list_size == EfiSignatureList.STATIC_STRUCT_SIZE:
             # supplied EfiSignatureList is empty, return
+            self.signature_header_size = 0
             return
 
         FixedSizeData = esl.signature_data_list[0].FIXED_SIZE
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        self.signature_header_size = 0
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From e134beb3639aef48ace28479dd3c6092b94b710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:11 +0000
Subject: [PATCH 063/123] fix: canonicalising a signature database detects
 duplicate certificates and leaves the database alone

---
 ...thenticated_variables_structure_support.py | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 58970b0..6a73ea2 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1018,21 +1018,17 @@ class EfiSignatureDatabase(CommonUefiStructure):
         # First group EFI_SIGNATURE_LISTS by type, merging them where possible
 
         sha256esl = None
-        x509eslList = None
+        x509_data_list = []
 
         for Esl in self.esl_list:
-            if Esl.signature_data_list is None:  # discard empty EfiSignatureLists
+            if not Esl.signature_data_list:  # discard empty EfiSignatureLists
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
-                else:
-                    sha256esl.MergeSignatureList(Esl)
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)  # initialize it
+                sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
-                if x509eslList is None:
-                    x509eslList = [Esl]  # initialize it
-                else:
-                    x509eslList.append(Esl)
+                x509_data_list += Esl.signature_data_list
             else:
                 raise Exception("Unsupported signature type %s", Esl.signature_type)
 
@@ -1049,15 +1045,16 @@ class EfiSignatureDatabase(CommonUefiStructure):
             canonicalDb.esl_list.append(sha256esl)
             duplicatesDb.esl_list.append(dupes)
 
-        if x509eslList is not None:
-            x509eslList.sort(key=attrgetter("signature_data_list"))
-            for esl in x509eslList:
-                if not canonicalDb.esl_list:
-                    canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
-                    duplicatesDb.esl_list.append(esl)
-                else:
-                    canonicalDb.esl_list.append(esl)
+        last_certificate = None
+        for x509_data in sorted(x509_data_list, key=attrgetter("signature_data")):
+            esl = EfiSignatureList(typeguid=EfiSignatureDataFactory.EFI_CERT_X509_GUID)
+            esl.AddSignatureHeader(None, SigSize=x509_data.get_total_size())
+            esl.AddSignatureData(x509_data)
+            if x509_data.signature_data == last_certificate:
+                duplicatesDb.esl_list.append(esl)
+            else:
+                canonicalDb.esl_list.append(esl)
+            last_certificate = x509_data.signature_data
 
         return (canonicalDb, duplicatesDb)
 
-- 
2.43.0


From 4d2e01f9e21740e7b1c7e88aa0b1c6113b889e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:53 +0000
Subject: [PATCH 064/123] fix: a refused certificate leaves the length of a
 WIN_CERTIFICATE alone

---
 edk2toollib/uefi/wincert.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 5602e3d..215db7a 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -478,20 +478,21 @@ class WinCertUefiGuid(object):
         Args:
             in_data (obj): Data to read.
         """
-        # if the data is already set, let's subtract it from the length before adding the new data
-        if self.cert_data is not None:
-            self.Hdr_dwLength -= len(self.cert_data)
-
         # Account for back compat. Behave differently for file streams.
         if hasattr(in_data, "seek"):
-            self.cert_data = in_data.read()
+            cert_data = in_data.read()
         elif hasattr(in_data, "decode"):
-            self.cert_data = in_data
+            cert_data = in_data
         else:
             raise ValueError(
                 f"Invalid datatype provided: {type(in_data)}, data may only be of type filestream or bytes"
             )
 
+        # if the data is already set, let's subtract it from the length before adding the new data
+        if self.cert_data is not None:
+            self.Hdr_dwLength -= len(self.cert_data)
+
+        self.cert_data = cert_data
         self.Hdr_dwLength = self.Hdr_dwLength + len(self.cert_data)
 
     def PopulateFromFileStream(self, fs: BytesIO) -> bytes:
-- 
2.43.0


From 95e4c82e1eb5f4604f6488559f0932486412f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 065/123] fix: additional certificates of every signer are kept
 in the signature

---
 .../uefi/authenticated_variables_structure_support.py  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 6a73ea2..be02b2a 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1463,6 +1463,7 @@ class EfiVariableAuthentication2Builder(object):
         # Start setting up the builder
         self.signature_builder = pkcs7.PKCS7SignatureBuilder()
         self.signed_digest = None
+        self.additional_certificates = []
 
         efi_attributes = EfiVariableAttributes(attributes)
 
@@ -1574,7 +1575,7 @@ class EfiVariableAuthentication2Builder(object):
             logging.info("%sSubject: %s", indents, cert.certificate.subject)
 
             # Add the certificate for verification
-            self.signature_builder = self.signature_builder.add_certificate(cert.certificate)
+            self.additional_certificates.append(cert.certificate)
 
     def finalize(self, omit_content_info: bool = True) -> EfiVariableAuthentication2:
         """Finalizes the signature and returns a EfiVariableAuthentication2.
@@ -1593,8 +1594,13 @@ class EfiVariableAuthentication2Builder(object):
         #   - Remove the attributes section from the pkcs7 structure
         options = [pkcs7.PKCS7Options.DetachedSignature, pkcs7.PKCS7Options.Binary, pkcs7.PKCS7Options.NoAttributes]
 
+        # Adding a signer to the builder may drop its certificates, so they are added when all signers are known
+        signature_builder = self.signature_builder
+        for certificate in self.additional_certificates:
+            signature_builder = signature_builder.add_certificate(certificate)
+
         # The signature is enclosed in a asn1 content info structure
-        self.signature = self.signature_builder.sign(Encoding.DER, options)
+        self.signature = signature_builder.sign(Encoding.DER, options)
 
         # Up until recently including the content info section (on tianocore edk2 based implementations)
         # will cause UEFI to return `SECURITY_VIOLATION``
-- 
2.43.0


From 45ecbfa0efea84eab520f9d5dd015feb8a95216e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 066/123] fix: the text of an empty attribute set is an empty
 attribute set

---
 edk2toollib/uefi/uefi_multi_phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/uefi_multi_phase.py b/edk2toollib/uefi/uefi_multi_phase.py
index 9d613ff..c25b7fb 100644
--- a/edk2toollib/uefi/uefi_multi_phase.py
+++ b/edk2toollib/uefi/uefi_multi_phase.py
@@ -108,6 +108,10 @@ class EfiVariableAttributes(object):
         # Handle spaces
         attributes_str = attributes_str.replace(" ", "")
 
+        # An empty set of attributes is written as an empty string
+        if not attributes_str:
+            return attributes
+
         # Loop over all the attributes
         for attr in attributes_str.split(","):
             attr = attr.upper()  # convert to upper for consistency
-- 
2.43.0


From b7226580b3093867ad6d4c793eaa0ecd9977268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 067/123] fix: variable names that start with U+FEFF survive,
 on any byte order

---
 edk2toollib/uefi/edk2/variable_format.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..6eb3b54 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -151,7 +151,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -180,7 +180,7 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = file.read(self.NameSize).decode("utf-16-le")[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
 
         file.seek(orig_seek)
@@ -206,11 +206,9 @@ class VariableHeader(object):
         """Get the name attribute."""
         # Make sure to replace the terminating char.
         # name_bytes = b"\x00".join([char for char in (self.Name + b'\x00')])
-        name_bytes = self.Name.encode("utf-16")
-
-        # Python encode will leave an "0xFFFE" on the front
-        # to declare the encoding type. UEFI does not use this.
-        name_bytes = name_bytes[2:]
+        # The explicit byte order keeps Python from adding a "0xFFFE" to
+        # declare the encoding type. UEFI does not use this.
+        name_bytes = self.Name.encode("utf-16-le")
 
         # Python encode skips the terminating character, so let's add that.
         name_bytes += b"\x00\x00"
-- 
2.43.0


From 6c4df5f7ac05eeb148c467c32fe1a2da3455d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 068/123] fix: variable store: variables are read and written
 inside the store only, flush erases the rest

---
 .../edk2/variablestore_manulipulations.py     | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..1db392a 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -61,10 +61,15 @@ class VariableStore(object):
 
         # Now we're finally ready to read some variables.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
+        if store_end > self.store_base + self.fv_header.FvLength:
+            raise Exception("VarStore size %d does not fit in the FV!" % self.var_store_header.Size)
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
         try:
-            while True:
+            while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
+                if self.rom_file.tell() + new_var.get_buffer_data_size() > store_end:
+                    raise Exception("Variable '%s' extends past the end of the VarStore!" % new_var.Name)
 
                 # Seek past the current variable in the store.
                 self.rom_file.seek(new_var.get_buffer_size(), os.SEEK_CUR)
@@ -104,24 +109,17 @@ class VariableStore(object):
     def flush_to_file(self) -> None:
         """Flush the changes to file."""
         # First, we need to make sure that our variables will fit in the VarStore.
-        var_size = sum([var.get_buffer_size() for var in self.variables])
-        # Add the terminating var header.
-        dummy_var = self.get_new_var_class()
-        var_size += dummy_var.StructSize
-        if var_size > self.var_store_header.Size:
+        # The size of the VarStore includes its header.
+        store_space = self.var_store_header.Size - self.var_store_header.StructSize
+        var_bytes = b"".join([var.serialize(True) for var in self.variables])
+        if len(var_bytes) > store_space:
             raise Exception(
-                "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
+                "Total variable size %d is too large to fit in VarStore %d!" % (len(var_bytes), store_space)
             )
 
-        # Now, we just have to serialize each variable in turn and write them to the mmap buffer.
+        # Now, we just have to write the serialized variables to the mmap buffer, followed by erased bytes.
         var_offset = self.store_base + self.fv_header.HeaderLength + self.var_store_header.StructSize
-        for var in self.variables:
-            var_buffer_size = var.get_buffer_size()
-            self.rom_file_map[var_offset : (var_offset + var_buffer_size)] = var.serialize(True)
-            var_offset += var_buffer_size
-
-        # Add a terminating Variable Header.
-        self.rom_file_map[var_offset : (var_offset + dummy_var.StructSize)] = b"\xff" * dummy_var.StructSize
+        self.rom_file_map[var_offset : (var_offset + store_space)] = var_bytes.ljust(store_space, b"\xff")
 
         # Now we have to flush the mmap to the file.
         self.rom_file_map.flush()
-- 
2.43.0


From 683a2a46e64faf5208dedb4595934f5812c0bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 069/123] fix: firmware volume headers keep a block map of any
 length

---
 edk2toollib/uefi/pi_firmware_volume.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/pi_firmware_volume.py b/edk2toollib/uefi/pi_firmware_volume.py
index 7641105..4499dad 100644
--- a/edk2toollib/uefi/pi_firmware_volume.py
+++ b/edk2toollib/uefi/pi_firmware_volume.py
@@ -61,6 +61,7 @@ class EfiFirmwareVolumeHeader(object):
         self.Revision = None
         self.Blockmap0 = None
         self.Blockmap1 = None
+        self.BlockmapRest = b""
 
     def load_from_file(self, file: IO) -> "EfiFirmwareVolumeHeader":
         """Loads data into the object from a filestream.
@@ -78,7 +79,6 @@ class EfiFirmwareVolumeHeader(object):
         # to the correct starting location.
         orig_seek = file.tell()
         struct_bytes = file.read(struct.calcsize(self.StructString))
-        file.seek(orig_seek)
 
         # Load this object with the contents of the data.
         (
@@ -96,9 +96,16 @@ class EfiFirmwareVolumeHeader(object):
             self.Blockmap1,
         ) = struct.unpack(self.StructString, struct_bytes)
 
+        # The rest of a block map that has more than one entry.
+        rest_size = max(0, self.HeaderLength - len(struct_bytes))
+        self.BlockmapRest = file.read(rest_size)
+        file.seek(orig_seek)
+
         # Make sure that this structure is what we think it is.
         if self.Signature != EFI_FVH_SIGNATURE:
             raise Exception("File does not appear to point to a valid EfiFirmwareVolumeHeader!")
+        if len(self.BlockmapRest) < rest_size:
+            raise Exception("File is too small for the EfiFirmwareVolumeHeader!")
 
         # Update the GUID to be a UUID object.
         if sys.byteorder == "big":
@@ -115,7 +122,7 @@ class EfiFirmwareVolumeHeader(object):
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
         file_system_guid_bin = self.FileSystemGuid.bytes if sys.byteorder == "big" else self.FileSystemGuid.bytes_le
-        return struct.pack(
+        header = struct.pack(
             self.StructString,
             self.ZeroVector,
             file_system_guid_bin,
@@ -130,6 +137,7 @@ class EfiFirmwareVolumeHeader(object):
             self.Blockmap0,
             self.Blockmap1,
         )
+        return header + self.BlockmapRest
 
 
 class EfiFirmwareVolumeExtHeader(object):
-- 
2.43.0


From e6d7152122e36df6da6d31fd241d035252b52b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 070/123] fix: extended firmware volume headers can be produced

---
 edk2toollib/uefi/pi_firmware_volume.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/pi_firmware_volume.py b/edk2toollib/uefi/pi_firmware_volume.py
index 4499dad..070a0f6 100644
--- a/edk2toollib/uefi/pi_firmware_volume.py
+++ b/edk2toollib/uefi/pi_firmware_volume.py
@@ -178,3 +178,11 @@ class EfiFirmwareVolumeExtHeader(object):
         (self.FileSystemGuid, self.ExtHeaderSize) = struct.unpack(self.StructString, struct_bytes)
 
         return self
+
+    def serialize(self) -> bytes:
+        r"""Serializes the object.
+
+        Returns:
+            (bytes): bytes representing packed data (i.e. b'\x01\x00\x03')
+        """
+        return struct.pack(self.StructString, self.FileSystemGuid, self.ExtHeaderSize)
-- 
2.43.0


From 6d4369e93f5747007dda2416f3e2a9ad328b8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 071/123] fix: the relative offset of an FTW write record is
 signed

---
 edk2toollib/uefi/edk2/ftw_working_block_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/ftw_working_block_format.py b/edk2toollib/uefi/edk2/ftw_working_block_format.py
index 0c5655d..0113015 100644
--- a/edk2toollib/uefi/edk2/ftw_working_block_format.py
+++ b/edk2toollib/uefi/edk2/ftw_working_block_format.py
@@ -201,7 +201,7 @@ class EfiFtwWriteRecord(object):
 
     def __init__(self) -> "EfiFtwWriteRecord":
         """Initializes an empty object."""
-        self.StructString = "=BBBBLQQQQ"  # spell-checker: disable-line
+        self.StructString = "=BBBBLQQQq"  # spell-checker: disable-line
         self.StatusBits = None
         self.ReservedByte1 = None
         self.ReservedByte2 = None
-- 
2.43.0


From 838d178c28610806af363bf45726edf013f000cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 072/123] fix: variable policy decoding checks sizes and
 offsets and reads names as little-endian

---
 edk2toollib/uefi/edk2/variable_policy.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..0a40793 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -45,6 +45,9 @@ class VariableLockOnVarStatePolicy(object):
         Returns:
             (obj): any remaining buffer
         """
+        if len(buffer) < self._HdrStructSize:
+            raise ValueError("Buffer too short!")
+
         (_namespace, self.Value, _) = struct.unpack(self._HdrStructFormat, buffer[: self._HdrStructSize])
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
@@ -55,7 +58,7 @@ class VariableLockOnVarStatePolicy(object):
             raise ValueError("Buffer too short!")
 
         string_end = None
-        for i in range(0, len(buffer), 2):
+        for i in range(0, len(buffer) - 1, 2):
             if buffer[i] == 0 and buffer[i + 1] == 0:
                 string_end = i + 2
                 break
@@ -63,7 +66,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[: string_end - 2].decode("utf-16-le")
 
         return buffer[string_end:]
 
@@ -207,6 +210,9 @@ class VariablePolicyEntry(object):
         Returns:
             (bytes): Any remaining buffer
         """
+        if len(buffer) < self._HdrStructSize:
+            raise ValueError("Buffer too short!")
+
         (
             self.Version,
             self.Size,
@@ -225,11 +231,21 @@ class VariablePolicyEntry(object):
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
 
+        if self.Size > len(buffer):
+            raise ValueError("Buffer too short!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size:
+            raise ValueError("Invalid offset to name!")
+
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            name = buffer[self.OffsetToName : self.Size].decode("utf-16-le")
+            if not name.endswith("\x00"):
+                raise ValueError("String end not detected!")
+            self.Name = name.rstrip("\x00")
 
+        self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
             self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
-- 
2.43.0


From 119cf8c2347adf7804a7acac8e65c4eb15999d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:23 +0000
Subject: [PATCH 073/123] fix: bitmaps: write padding, create empty objects,
 check header sizes and offsets

---
 edk2toollib/uefi/bmp_object.py | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..367a683 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
@@ -117,14 +117,15 @@ class BmpObject(object):
     def __init__(self, filestream: Optional[IO] = None) -> "BmpObject":
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
+        self._HeaderRest = b""
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = self.Size
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
@@ -142,7 +143,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -208,17 +209,23 @@ class BmpObject(object):
         self.NumberOfColors = struct.unpack("=I", fs.read(4))[0]
         self.ImportantColors = struct.unpack("=I", fs.read(4))[0]
 
-        if self.Size < self.HeaderSize:
-            raise Exception("Size can't be smaller than HeaderSize")
+        if self.HeaderSize < BmpObject.STATIC_IMAGE_HEADER_SIZE:
+            raise Exception("HeaderSize can't be smaller than 0x%X" % BmpObject.STATIC_IMAGE_HEADER_SIZE)
+
+        if not BmpObject.STATIC_FILE_HEADER_SIZE + self.HeaderSize <= self.ImageOffset <= self.Size:
+            raise Exception("ImageOffset 0x%X must lie between the headers and Size 0x%X" % (self.ImageOffset, self.Size))
 
-        if (end - fs.tell()) < (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE):
-            raise Exception(
-                "Invalid file stream size (Size) 0x%X Less Than 0x%X"
-                % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
-            )
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
 
+        # later header versions are longer
+        self._HeaderRest = fs.read(self.HeaderSize - BmpObject.STATIC_IMAGE_HEADER_SIZE)
+
+        self.ColorMapList = []
+        self._Padding = None
+        self._PaddingLength = 0
         StartOfImageData = offset + self.ImageOffset
-        if fs.tell() < StartOfImageData:
+        if fs.tell() <= StartOfImageData:
             # Handle any color maps
             if self.ExpectedColorMapEntires() > 0:
                 ColorMapCount = self.ExpectedColorMapEntires()
@@ -325,13 +332,15 @@ class BmpObject(object):
         fs.write(struct.pack("=I", self.NumberOfColors))
         fs.write(struct.pack("=I", self.ImportantColors))
 
+        fs.write(self._HeaderRest)
+
         # Bmp Color Map
         for cm in self.ColorMapList:
             cm.Write(fs)
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From e6af650a60baca349f51bba3aee94bac9904e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:39 +0000
Subject: [PATCH 074/123] fix: DMAR structures must tile the table; XML element
 names are well-formed

---
 edk2toollib/acpi/dmar_parser.py | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..2eaae99 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -10,7 +10,6 @@
 
 import os
 import struct
-import sys
 import xml.etree.ElementTree as ET
 from typing import Optional
 
@@ -31,28 +30,33 @@ class DMARTable(object):
     def __init__(self, data: bytes) -> "DMARTable":
         """Inits the object."""
         self.dmar_table = self.AcpiTableHeader(data)
-        self.data = data[DMARTable.DMARHeaderLength :]
+        if not DMARTable.DMARHeaderLength <= self.dmar_table.Length <= len(data):
+            raise ValueError("Invalid length of DMAR table")
+        self.data = data[DMARTable.DMARHeaderLength : self.dmar_table.Length]
         while len(self.data) > 0:
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
 
+            if not 0 < remapping_header.Length <= len(self.data):
+                raise ValueError("Invalid length of remapping struct found in DMAR table")
+
             # Parse remapping struct
+            struct_data = self.data[: remapping_header.Length]
             if remapping_header.Type == 0:
-                remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
+                remapping_header = self.DRHDStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 1:
-                remapping_header = self.RMRRStruct(self.data, remapping_header.Length)
+                remapping_header = self.RMRRStruct(struct_data, remapping_header.Length)
                 self.dmar_table.RMRRlist.append(remapping_header)
             elif remapping_header.Type == 2:
-                remapping_header = self.ATSRStruct(self.data, remapping_header.Length)
+                remapping_header = self.ATSRStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 3:
-                remapping_header = self.RHSAStruct(self.data, remapping_header.Length)
+                remapping_header = self.RHSAStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 4:
-                remapping_header = self.ANDDStruct(self.data, remapping_header.Length)
+                remapping_header = self.ANDDStruct(struct_data, remapping_header.Length)
                 self.dmar_table.ANDDCount += 1
             else:
-                print("Reserved remapping struct found in DMAR table")
-                sys.exit(-1)
+                raise ValueError("Reserved remapping struct found in DMAR table")
 
             self.dmar_table.SubStructs.append(remapping_header)
             # Add to XML
@@ -62,7 +66,7 @@ class DMARTable(object):
 
     def toXml(self) -> ET.Element:
         """Converts the object to an xml representation."""
-        root = ET.Element("DMAR Table")
+        root = ET.Element("DMARTable")
         root.append(self.dmar_table.toXml())
         for sub in self.dmar_table.SubStructs:
             root.append(sub.toXml())
@@ -228,7 +232,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", "_"))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -301,7 +305,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", "_"))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -365,7 +369,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", "_"))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -490,8 +494,13 @@ class DMARTable(object):
             elif self.Type == 5:
                 self.TypeString = "ACPI_NAMESPACE_DEVICE"
             else:
-                print("Reserved Device Scope Type Found")
-                sys.exit(-1)
+                raise ValueError("Reserved Device Scope Type Found")
+
+            if (
+                not DMARTable.DeviceScopeHeaderLength <= self.Length <= len(header_byte_array)
+                or (self.Length - DMARTable.DeviceScopeHeaderLength) % 2
+            ):
+                raise ValueError("Invalid length of Device Scope Found")
 
             number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) / 2
             offset = 6
-- 
2.43.0


From a920676536e0cb891cf69e5002a9acd5b1809d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 075/123] fix: IVRS: opt-in bit may be clear, errors are
 exceptions, memory length printed, XML names

---
 edk2toollib/acpi/ivrs_parser.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..bd107e2 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -8,7 +8,6 @@
 """Module for converting a raw IVRS table into a struct."""
 
 import struct
-import sys
 import xml.etree.ElementTree as ET
 from enum import IntEnum
 from typing import Optional
@@ -68,8 +67,7 @@ class IVRS_TABLE(object):
                 if remapping_header.Type == IVRS_TABLE.IVMD_STRUCT.IVMD_TYPE.TYPE_20H:
                     self.IVRSBit = 0
             else:
-                print("Reserved remapping struct found in IVRS table %d" % remapping_header.Type)
-                sys.exit(-1)
+                raise Exception("Reserved remapping struct found in IVRS table %d" % remapping_header.Type)
 
             # Update data position
             t_data = t_data[remapping_header.Length :]
@@ -185,8 +183,6 @@ class IVRS_TABLE(object):
             ) = struct.unpack(IVRS_TABLE.ACPI_TABLE_HEADER.struct_format, header_byte_array)
 
             self.IVRSBit = self.IVinfo & 0x02
-            if (self.IVinfo & 0x1E) == 0:
-                sys.exit(-1)
 
         def Encode(self) -> bytes:
             r"""Serializes the object.
@@ -508,7 +504,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
@@ -565,7 +561,7 @@ class IVRS_TABLE(object):
             elif Type == IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.ACPI:
                 return IVRS_TABLE.DEVICE_TABLE_ENTRY_ACPI(data)
             else:
-                return None
+                raise Exception("Unsupported device table entry type %d" % Type)
 
     class DEVICE_TABLE_ENTRY_RESERVED(object):
         """Object representing a Device Table Entry RESERVED."""
@@ -699,7 +695,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
@@ -759,8 +755,7 @@ class IVRS_TABLE(object):
                 header_byte_array[self.Length : (self.Length + IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size)],
             )
             if Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_END:
-                print("Start of range does not follow end of range")
-                sys.exit(-1)
+                raise Exception("Start of range does not follow end of range")
             self.Length += IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
@@ -907,8 +902,7 @@ class IVRS_TABLE(object):
                 header_byte_array[self.Length : (self.Length + IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size)],
             )
             if Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_END:
-                print("Start of range does not follow end of range")
-                sys.exit(-1)
+                raise Exception("Start of range does not follow end of range")
             self.Length += IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
@@ -1062,8 +1056,7 @@ class IVRS_TABLE(object):
                 header_byte_array[self.Length : (self.Length + IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size)],
             )
             if Type != IVRS_TABLE.DEVICE_TABLE_ENTRY.DTE_TYPE.RANGE_END:
-                print("Start of range does not follow end of range")
-                sys.exit(-1)
+                raise Exception("Start of range does not follow end of range")
             self.Length += IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
@@ -1239,6 +1232,8 @@ class IVRS_TABLE(object):
                 (self.UID,) = struct.unpack(
                     "=%ss" % self.UIDLength, header_byte_array[IVRS_TABLE.DEVICE_TABLE_ENTRY.dte_var_len : self.Length]
                 )
+            else:
+                raise Exception("Unrecognized UID format detected %d" % self.UIDFormat)
 
         def Encode(self) -> bytes:
             r"""Serializes the object.
@@ -1267,7 +1262,7 @@ class IVRS_TABLE(object):
             xml_item.set("DTESetting", "0x%X" % (self.DTESetting))
 
             xml_item.set("HardwareID", "%s" % (self.HID))
-            xml_item.set("ExtendedDTE Setting", "%s" % (self.CID))
+            xml_item.set("ExtendedDTESetting", "%s" % (self.CID))
             xml_item.set("UniqueIDFormat", "%d" % (self.UIDFormat))
             xml_item.set("UniqueIDLength", "%d" % (self.UIDLength))
             if self.UIDFormat == 0:
@@ -1277,8 +1272,7 @@ class IVRS_TABLE(object):
             elif self.UIDFormat == 2:
                 xml_item.set("UniqueID", "%s" % (self.UID))
             else:
-                print("Unrecognized UID format detected")
-                sys.exit(-1)
+                raise Exception("Unrecognized UID format detected %d" % self.UIDFormat)
             return xml_item
 
         def DumpInfo(self) -> None:
-- 
2.43.0


From 3f3fb097958fea6702505780b29962fc71faf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:11 +0000
Subject: [PATCH 076/123] fix: device paths: unknown types keep their data,
 truncated nodes are refused, PC Card nodes decode

---
 edk2toollib/uefi/device_path.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..b3e4a15 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -192,6 +192,9 @@ class EfiDevicePathProtocol(object):
         )
         length_tuple = (length & 0xFF, (length >> 8) & 0xFF)
         data_length = int.from_bytes(length_tuple, "little")
+        if not EfiDevicePathProtocol._dp_struct_size <= data_length <= len(binary):
+            # the length is user controlled after all..
+            raise ValueError(f"Invalid Header Length: {data_length}")
         data = binary[EfiDevicePathProtocol._dp_struct_size : data_length]
 
         return DevicePathHeader(type, subtype, data_length, data)
@@ -312,7 +315,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
@@ -611,9 +614,7 @@ class SataDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: EfiDevicePathProtocol) -> "SataDevicePath":
-        hba_port_number = int.from_bytes(header.dev_data[:2], "little")
-        port_multiplier_port_number = int.from_bytes(header.dev_data[2:4], "little")
-        lun = int.from_bytes(header.dev_data[4:6], "little")
+        hba_port_number, port_multiplier_port_number, lun = struct.unpack("<HHH", header.dev_data[:6])
         return cls(header, hba_port_number, port_multiplier_port_number, lun)
 
 
@@ -963,7 +964,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
@@ -1085,11 +1086,6 @@ class DevicePathFactory(object):
             device_path_class = DevicePathFactory._find_implementation(header)
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
-
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From c7438179470b56ebf3d6aeb2fd8ea5a988afe3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:19 +0000
Subject: [PATCH 077/123] fix: device paths: messaging subtypes 0x1B to 0x1F
 are numbered as in the UEFI specification

---
 edk2toollib/uefi/device_path.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index b3e4a15..f2e7d52 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -79,11 +79,11 @@ MSG_NVME_NAMESPACE_DP = 0x17
 MSG_URI_DP = 0x18
 MSG_UFS_DP = 0x19
 MSG_SD_DP = 0x1A
-MSG_EMMC_DP = 0x1B
-MSG_BLUEFIELD_DP = 0x1C
-MSG_BLUETOOTH_DP = 0x1D
-MSG_WIFI_DP = 0x1E
-MSG_EFI_DP = 0x1F
+MSG_BLUETOOTH_DP = 0x1B
+MSG_WIFI_DP = 0x1C
+MSG_EMMC_DP = 0x1D
+MSG_BLUETOOTH_LE_DP = 0x1E
+MSG_DNS_DP = 0x1F
 
 # Media Device Path
 MEDIA_DEVICE_PATH = 0x04
@@ -1011,11 +1011,11 @@ DEVICE_PATH_SUBTYPES = defaultdict(
                 MSG_URI_DP: ("URI", UnimplementedDevicePath),
                 MSG_UFS_DP: ("UFS", UnimplementedDevicePath),
                 MSG_SD_DP: ("SD", UnimplementedDevicePath),
-                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
-                MSG_BLUEFIELD_DP: ("BlueField", UnimplementedDevicePath),
                 MSG_BLUETOOTH_DP: ("Bluetooth", UnimplementedDevicePath),
                 MSG_WIFI_DP: ("WiFi", UnimplementedDevicePath),
-                MSG_EFI_DP: ("EFI", UnimplementedDevicePath),
+                MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
+                MSG_BLUETOOTH_LE_DP: ("Bluetooth LE", UnimplementedDevicePath),
+                MSG_DNS_DP: ("DNS", UnimplementedDevicePath),
             },
         ),
         MEDIA_DEVICE_PATH: defaultdict(
-- 
2.43.0


From 9ab904f32b38df0a29c4fcefd23f38b6128378a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 078/123] fix: compute the size of a TPM command stream from
 its current elements

---
 edk2toollib/tpm/tpm2_stream.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..20c0aaa 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -116,19 +116,17 @@ class Tpm2CommandStream(object):
         """Inits a Tpm2 Command stream object."""
         super(Tpm2CommandStream, self).__init__()
         self.header = TPM2_COMMAND_HEADER(tag, size, code)
-        self.stream_size = self.header.get_size()
-        self.header.update_size(self.stream_size)
         self.stream_elements = []
+        self.header.update_size(self.get_size())
 
     def get_size(self) -> int:
         """Returns the stream size."""
-        return self.stream_size
+        return self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
         """Adds an element to the stream list."""
         self.stream_elements.append(element)
-        self.stream_size += element.get_size()
-        self.header.update_size(self.stream_size)
+        self.header.update_size(self.get_size())
 
     def get_stream(self) -> str:
         r"""Serializes the Header + elements.
@@ -136,4 +134,6 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        # NOTE: Elements may have been updated since they were added.
+        self.header.update_size(self.get_size())
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0


From af700584368e6c9115ea6cb71e5bb5113796265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 079/123] fix: decode all TPM 2.0 response codes to their
 number and name

---
 edk2toollib/tpm/tpm2_defs.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_defs.py b/edk2toollib/tpm/tpm2_defs.py
index 02d7263..98c71df 100644
--- a/edk2toollib/tpm/tpm2_defs.py
+++ b/edk2toollib/tpm/tpm2_defs.py
@@ -578,7 +578,7 @@ class ResponseCode(object):
             0x055: "TPM_RC_SENSITIVE",
         }
 
-        handle_errors = {
+        format_one_errors = {
             0x001: "TPM_RC_ASYMMETRIC",
             0x002: "TPM_RC_ATTRIBUTES",
             0x003: "TPM_RC_HASH",
@@ -664,9 +664,9 @@ class ResponseCode(object):
 
             # Check bit 11.
             if rc_code & (1 << 11):
-                return ("Warning", "None", 0, warnings[code], "NA")  # TODO: Complete this.
+                return ("Warning", "None", 0, code, warnings.get(code, "NA"))
             else:
-                return ("Error", "None", 0, code, generic_errors[code])
+                return ("Error", "None", 0, code, generic_errors.get(code, "NA"))
 
         # At this point the code will always be in [5:0]...
         code = rc_code & 0b111111
@@ -674,16 +674,13 @@ class ResponseCode(object):
         # Check bit 6.
         if rc_code & (1 << 6):
             number = (rc_code >> 8) & 0b1111
-            return ("Error", "Parameter", number, code, "NA")  # TODO: Complete this.
+            return ("Error", "Parameter", number, code, format_one_errors.get(code, "NA"))
 
         # At this point the nubmer will always be in [10:8]...
         number = (rc_code >> 8) & 0b111
 
         # Check bit 11.
         if not (rc_code & (1 << 11)):
-            return ("Error", "Handle", number, code, handle_errors[code])  # TODO: Complete this.
+            return ("Error", "Handle", number, code, format_one_errors.get(code, "NA"))
         else:
-            return ("Error", "Session", number, code, "NA")  # TODO: Complete this.
-
-        raise ValueError("Code '0x%x' could not be parsed!" % rc_code)
-        return None
+            return ("Error", "Session", number, code, format_one_errors.get(code, "NA"))
-- 
2.43.0


From 9561896f8404ab2c881e38958875d68824f3d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 080/123] fix: make the TPM simulator transport send and
 receive whole messages

---
 edk2toollib/tpm/tpm2_simulator.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..b2ec08e 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -57,21 +57,26 @@ class TpmSimulator(object):
         self.tpmSock.connect((host, port))
 
         # Power cycle the TPM.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
 
         # Enable the NV space.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
-        self.tpmSock.send(data)
+        print("RAW -->: " + bytes(data).hex())
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        data = b""
+        while len(data) < count:
+            chunk = self.tpmSock.recv(count - len(data))
+            if not chunk:
+                raise ConnectionError("The TPM simulator closed the connection!")
+            data += chunk
+        print("RAW <--: " + bytes(data).hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From 7a006a4309da58dacacc3b76892d31c61ad89e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:16 +0000
Subject: [PATCH 081/123] fix: compare firmware policy strings and values by
 content and read every UTF-16 string

---
 edk2toollib/windows/policy/firmware_policy.py | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..17c2c14 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,12 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Two types are equal if they are the same POLICY_VALUE_TYPE_*."""
+        if not isinstance(other, PolicyValueType):
+            return NotImplemented
+        return self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -285,7 +291,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -354,6 +360,12 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Two strings are equal if their content is."""
+        if not isinstance(other, PolicyString):
+            return NotImplemented
+        return self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -365,12 +377,13 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        LocalBytes = fs.read(StringLength)
+        if len(LocalBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(LocalBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -386,9 +399,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        LocalBytes = b[bOffset : bOffset + StringLength]
+        if len(LocalBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(LocalBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
@@ -432,6 +446,12 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Two values are equal if both type and value are."""
+        if not isinstance(other, PolicyValue):
+            return NotImplemented
+        return self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
@@ -445,7 +465,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From a9892c5c064a5e1d16c07beed38d4ab625cee7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 082/123] fix: refuse or quote values that would break a
 generated INF (inf_generator2)

---
 edk2toollib/windows/capsule/inf_generator2.py | 54 ++++++++++++-------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..a92b112 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -96,8 +96,7 @@ class InfHeader(object):
         Raises:
             (ValueError): Invalid string format
         """
-        c = value.count(".")
-        if (c < 1) or (c > 3):
+        if not (re.compile(r"\w+(\.\w+){1,3}")).fullmatch(value):
             raise ValueError("VersionString must be in format of xx.xx -> xx.xx.xx.xx")
         self._versionstr = value
 
@@ -204,7 +203,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -216,8 +215,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
@@ -226,8 +224,15 @@ class InfFirmware(object):
 
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
-        """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        """Sets the VersionInt value from a string.
+
+        Raises:
+            (ValueError): Not an integer that fits in a 32-bit unsigned value
+        """
+        version = int(value, base=0)
+        if not 0 <= version <= 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
@@ -298,7 +303,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
@@ -319,7 +324,12 @@ class InfFirmwareSections(object):
         Args:
             InfFirmware (InfFirmware): an InfFirmware object representing a firmware section to be added to
                 this collection of sections.
+
+        Raises:
+            (ValueError): A section with this tag exists already (section names are not case sensitive)
         """
+        if InfFirmware.Tag.lower() in (Tag.lower() for Tag in self.Sections):
+            raise ValueError("Tag is already in use.")
         self.Sections[InfFirmware.Tag] = InfFirmware
         self.InfStrings.AddLocalizableString(f"{InfFirmware.Tag}Desc", InfFirmware.Description)
 
@@ -357,10 +367,11 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]+")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
-        if Filename not in self.Files:
+        # filenames are not case sensitive.
+        if Filename.lower() not in (File.lower() for File in self.Files):
             self.Files.append(Filename)
 
     def __str__(self) -> str:
@@ -402,9 +413,11 @@ class InfStrings(object):
             Value (str): the value of the localizable string as a string (e.g. "Firmware Manufacturer")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+
+        if not (re.compile(r"[\w-]+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
+        if re.search(r"[\x00-\x08\x0a-\x1f\x7f]", Value):
+            raise ValueError("Value has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
     def AddNonLocalizableString(self, Key: str, Value: str) -> None:
@@ -417,20 +430,23 @@ class InfStrings(object):
             Value (str): the value of the non-localizable string as a string (e.g. "0x00010001")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+
+        if not (re.compile(r"[\w-]+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
+        if re.search(r"[\x00-\x08\x0a-\x1f\x7f]", Value):
+            raise ValueError("Value has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
     def __str__(self) -> str:
         """Return the string representation of this InfStrings object."""
         LocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.LocalizableStrings.keys()), default=0)
         for Key, Value in self.LocalizableStrings.items():
-            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
+            # a quote inside of a quoted string is written as two quotes.
+            LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value.replace('"', '""'), width=LongestKey)
 
         NonLocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.NonLocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.NonLocalizableStrings.keys()), default=0)
         for Key, Value in self.NonLocalizableStrings.items():
             NonLocalizedStrings += "{0:{width}} = {1}\n".format(Key, Value, width=LongestKey)
 
-- 
2.43.0


From 291e91de7d2c4cf24b06f8a7fd03a5dc22533869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:15 +0000
Subject: [PATCH 083/123] fix: refuse or quote values that would break a
 generated INF (inf_generator)

---
 edk2toollib/windows/capsule/inf_generator.py | 48 +++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..d0d4bb1 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
@@ -202,9 +202,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        # if this works it is valid...otherwise throws exception
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionString(self) -> str:
@@ -218,8 +217,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (ValueError): Invalid format
         """
-        c = value.count(".")
-        if (c < 1) or (c > 3):
+        if not (re.compile(r"\w+(\.\w+){1,3}")).fullmatch(value):
             logging.critical("Version string in invalid format.")
             raise ValueError("VersionString must be in format of xx.xx -> xx.xx.xx.xx")
         self._versionstring = value
@@ -237,7 +235,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if not 0 <= a <= 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
@@ -292,6 +290,30 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         """Setter for the IntegrityFile name."""
         self._integrityfile = value
 
+    @staticmethod
+    def _quoted(value: str) -> str:
+        """Returns the value as it is written inside of a quoted string.
+
+        Raises:
+            (ValueError): the value contains characters that cannot be part of a string
+        """
+        if re.search(r"[\x00-\x08\x0a-\x1f\x7f]", value):
+            logging.critical("String invalid: '%s'", value)
+            raise ValueError("String has invalid chars.")
+        return value.replace('"', '""')
+
+    @staticmethod
+    def _checked_filename(value: str) -> str:
+        """Returns the file name if it can be used in an INF file.
+
+        Raises:
+            (ValueError): the name is empty or contains characters that have a meaning in an INF file
+        """
+        if value == "" or value != value.strip() or re.search(r'[\x00-\x1f\x7f"%;,=\[\]/\\:*?<>|]', value):
+            logging.critical("Filename invalid: '%s'", value)
+            raise ValueError("Filename has invalid chars.")
+        return value
+
     def MakeInf(self, OutputInfFilePath: os.PathLike, FirmwareBinFileName: str, Rollback: bool = False) -> int:
         """Generates the INF with provided information.
 
@@ -299,12 +321,15 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             OutputInfFilePath (os.PathLike): Path to existing file
             FirmwareBinFileName (str): File Name
             Rollback (`bool`, optional): Generate with Rollback template
+
+        Raises:
+            (ValueError): A name or string that cannot be written to an INF file
         """
         RollbackString = ""
         if Rollback:
             RollbackString = InfGenerator.ROLLBACKTEMPLATE.format(EsrtGuid=self.EsrtGuid)
 
-        binfilename = os.path.basename(FirmwareBinFileName)
+        binfilename = self._checked_filename(os.path.basename(FirmwareBinFileName))
 
         copy_files = InfSection("Firmware_CopyFiles")
         copy_files.Items.append(binfilename)
@@ -318,6 +343,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         disks_files.Items.append("{file_name} = 1".format(file_name=binfilename))
 
         if self.IntegrityFilename != "":
+            self._checked_filename(self.IntegrityFilename)
             copy_files.Items.append(self.IntegrityFilename)
             add_reg.Items.append(
                 "HKR,,FirmwareIntegrityFilename,,%13%\\{file_name}".format(file_name=self.IntegrityFilename)
@@ -330,10 +356,10 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             Arch=self.Arch,
             DriverVersion=self.VersionString,
             EsrtGuid=self.EsrtGuid,
-            Provider=self.Provider,
-            MfgName=self.Manufacturer,
+            Provider=self._quoted(self.Provider),
+            MfgName=self._quoted(self.Manufacturer),
             OsBuildVersion=OS_BUILD_VERSION_DIRID13_SUPPORT,
-            Description=self.Description,
+            Description=self._quoted(self.Description),
             Rollback=RollbackString,
             FirmwareCopyFilesSection=copy_files,
             FirmwareAddRegSection=add_reg,
-- 
2.43.0


From 8a56dfbc5768a1f31925435d7cb5e54e25deb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:36 +0000
Subject: [PATCH 084/123] fix: create a catalog named without a folder in the
 current folder

---
 edk2toollib/windows/capsule/cat_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index 698c364..bfdaa55 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -119,7 +119,7 @@ class CatGenerator(object):
                 "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
             )
 
-        OutputFolder = os.path.dirname(OutputCatFile)
+        OutputFolder = os.path.dirname(os.path.abspath(OutputCatFile))
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From 602e8f529fd9096f0e8f41f0d664c1bd3c75639a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:22 +0000
Subject: [PATCH 085/123] fix: a firmware entry that was refused does not
 become part of the INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index a92b112..318cda5 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -330,8 +330,8 @@ class InfFirmwareSections(object):
         """
         if InfFirmware.Tag.lower() in (Tag.lower() for Tag in self.Sections):
             raise ValueError("Tag is already in use.")
-        self.Sections[InfFirmware.Tag] = InfFirmware
         self.InfStrings.AddLocalizableString(f"{InfFirmware.Tag}Desc", InfFirmware.Description)
+        self.Sections[InfFirmware.Tag] = InfFirmware
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmwareSections object.
-- 
2.43.0


From 3922fadc5506db237676ead46ce06346d4712811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 086/123] fix: a failed download of vswhere leaves no
 unverified file behind

---
 edk2toollib/windows/locate_tools.py | 35 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..3f73a0b 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -70,24 +70,31 @@ def _DownloadVsWhere(unpack_folder: os.PathLike = None) -> None:
         logging.info("Created folder: {}".format(unpack_folder))
 
     # check if we have the vswhere file already downloaded
-    if not os.path.isfile(out_file_name):
-        try:
+    already_downloaded = os.path.isfile(out_file_name)
+    # The file only gets its real name when it is known to be good
+    temp_file_name = out_file_name if already_downloaded else f"{out_file_name}.{os.getpid()}.tmp"
+    try:
+        if not already_downloaded:
             # Download the file and save it locally under `temp_file_name`
-            with urllib.request.urlopen(__URL) as response, open(out_file_name, "wb") as out_file:
+            with urllib.request.urlopen(__URL) as response, open(temp_file_name, "wb") as out_file:
                 out_file.write(response.read())
-        except urllib.error.HTTPError as e:
-            logging.error("We ran into an issue when getting VsWhere")
-            raise e
-
-    # do the hash to make sure the file is good
-    with open(out_file_name, "rb") as file:
-        import hashlib
 
-        temp_file_sha256 = hashlib.sha256(file.read()).hexdigest()
-    if temp_file_sha256 != __SHA256:
+        # do the hash to make sure the file is good
+        with open(temp_file_name, "rb") as file:
+            import hashlib
+
+            temp_file_sha256 = hashlib.sha256(file.read()).hexdigest()
+        if temp_file_sha256 != __SHA256:
+            raise RuntimeError(f"VsWhere - sha256 does not match\n\tdownloaded:\t{temp_file_sha256}\n\t")
+        if not already_downloaded:
+            os.replace(temp_file_name, out_file_name)
+    except BaseException as e:
+        if isinstance(e, urllib.error.HTTPError):
+            logging.error("We ran into an issue when getting VsWhere")
         # delete the file since it's not what we're expecting
-        os.remove(out_file_name)
-        raise RuntimeError(f"VsWhere - sha256 does not match\n\tdownloaded:\t{temp_file_sha256}\n\t")
+        if os.path.isfile(temp_file_name):
+            os.remove(temp_file_name)
+        raise
 
 
 def __VsWherePath() -> str:
-- 
2.43.0


From dc83f3f29dc8cfa30a522e8a19b2e0613822ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 087/123] fix: search the Windows SDK independent of directory
 order and for the right product

---
 edk2toollib/windows/locate_tools.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 3f73a0b..701ca26 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -326,7 +326,7 @@ def _CompareWindowVersions(a: str, b: str) -> int:
         return 0
     a_parts = str(a).split(".")
     b_parts = str(b).split(".")
-    for i in range(3):
+    for i in range(4):
         a_p = int(a_parts[i])
         b_p = int(b_parts[i])
         if a_p > b_p:
@@ -391,13 +391,13 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch=arch, product=product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
-        sdk_ver = results["WindowsSDKVersion"]
+        sdk_ver = results["WindowsSDKVersion"].rstrip("\\/")  # the value usually ends with a separator
     except ValueError:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
-        sdk_ver = "0.0.0.0"
+        sdk_ver = None
     sdk_dir = os.path.realpath(sdk_dir)
     search_pattern = os.path.join(sdk_dir, "**", tool)
 
@@ -405,9 +405,10 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     # look for something like 10.0.12323.0123
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
+    top_is_current_sdk = False
     top_match = None
-    # Look at in match in the tree
-    for match in glob.iglob(search_pattern, recursive=True):
+    # Look at in match in the tree, in an order that does not depend on the file system
+    for match in sorted(glob.iglob(search_pattern, recursive=True)):
         match_file = match[match_offset:]  # strip off the root
         match_front, match_end = os.path.split(match_file)  # split off the filename
         versions = windows_ver_regex.findall(match_front)  # look for windows versions
@@ -417,12 +418,15 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         if len(versions) == 0:
             top_ver_match = "0.0.0.0"  # if we have a bad version, we should fall to a bad version
         for version in versions:  # find the highest version if there are multiple in this?
-            is_current_sdk_version = _CompareWindowVersions(version, sdk_ver) == 0
-            if _CompareWindowVersions(version, top_ver_match) > 0 or is_current_sdk_version:
+            if _CompareWindowVersions(version, top_ver_match) > 0:
                 top_ver_match = version
-        # if we have a highest version or one that matches our current from environment variables?
-        is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
-        if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
+        # one that matches our current from environment variables goes first, then the highest version
+        is_current_sdk_version = any(_CompareWindowVersions(version, sdk_ver) == 0 for version in versions)
+        is_higher_version = _CompareWindowVersions(top_ver_match, top_version_so_far) > 0
+        if is_current_sdk_version > top_is_current_sdk or (
+            is_current_sdk_version == top_is_current_sdk and is_higher_version
+        ):
+            top_is_current_sdk = is_current_sdk_version
             top_version_so_far = top_ver_match
             top_match = match
     if top_match is None:
-- 
2.43.0


From 5d76c90a83c407c7988aaa4439edff583e8fbd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 088/123] fix: write JUnit reports that are well formed and
 complete for any text

---
 edk2toollib/log/junit_report_format.py | 52 +++++++++++++++++---------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..1af9509 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,18 +15,35 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import io
+import re
 import time
 from typing import IO
 from xml.sax.saxutils import escape
 
+# characters that cannot be part of an XML document, not even escaped
+_INVALID_XML_CHARS = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def _escape_text(text: str) -> str:
+    """Escapes text to be written between tags."""
+    return escape(_INVALID_XML_CHARS.sub("\ufffd", text), {"\r": "&#13;"})
+
+
+def _escape_attribute(text: str) -> str:
+    """Escapes text to be written as the value of an attribute."""
+    return escape(
+        _INVALID_XML_CHARS.sub("\ufffd", text), {'"': "&quot;", "\t": "&#9;", "\n": "&#10;", "\r": "&#13;"}
+    )
+
 
 class JunitReportError(object):
     """Object representing a Test Error."""
 
     def __init__(self, type: str, msg: str) -> "JunitReportError":
         """Init the type of error."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = _escape_attribute(msg.strip())
+        self.Type = _escape_attribute(type.strip())
 
 
 class JunitReportFailure(object):
@@ -34,8 +51,8 @@ class JunitReportFailure(object):
 
     def __init__(self, type: str, msg: str) -> "JunitReportFailure":
         """Init the type of Failure."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = _escape_attribute(msg.strip())
+        self.Type = _escape_attribute(type.strip())
 
 
 class JunitReportTestCase(object):
@@ -49,8 +66,8 @@ class JunitReportTestCase(object):
 
     def __init__(self, Name: str, ClassName: str) -> "JunitReportTestCase":
         """Init a Test case with it's name and class name."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.ClassName = escape(ClassName.strip(), {'"': "&quot;"})
+        self.Name = _escape_attribute(Name.strip())
+        self.ClassName = _escape_attribute(ClassName.strip())
         self.Time = 0
         self.Status = JunitReportTestCase.NEW
 
@@ -93,11 +110,11 @@ class JunitReportTestCase(object):
 
     def LogStdOut(self, msg: str) -> None:
         """Log to the standard out."""
-        self.StdOut += escape(msg.strip()) + "\n "
+        self.StdOut += _escape_text(msg.strip()) + "\n "
 
     def LogStdError(self, msg: str) -> None:
         """Log to the standard err."""
-        self.StdErr += escape(msg.strip()) + "\n "
+        self.StdErr += _escape_text(msg.strip()) + "\n "
 
     def Output(self, outstream: IO) -> None:
         """Write the test result to the outstream."""
@@ -130,8 +147,8 @@ class JunitReportTestSuite(object):
 
     def __init__(self, Name: str, Package: str, Id: id) -> "JunitReportTestSuite":
         """Initialize a new test suite."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.Package = escape(Package.strip(), {'"': "&quot;"})
+        self.Name = _escape_attribute(Name.strip())
+        self.Package = _escape_attribute(Package.strip())
         self.TestId = Id
         self.TestCases = []
 
@@ -197,11 +214,12 @@ class JunitTestReport(object):
 
     def Output(self, filepath: str) -> None:
         """Write report to file."""
-        f = open(filepath, "w", encoding="utf-8")
-        f.write("")
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
-        f.write("<testsuites>")
+        # the file is only written when all of the report could be generated.
+        report = io.StringIO()
+        report.write('<?xml version="1.0" encoding="UTF-8"?>')
+        report.write("<testsuites>")
         for a in self.TestSuites:
-            a.Output(f)
-        f.write("</testsuites>")
-        f.close()
+            a.Output(report)
+        report.write("</testsuites>")
+        with open(filepath, "w", encoding="utf-8") as f:
+            f.write(report.getvalue())
-- 
2.43.0


From d025d4b8aaddb706b1073e83beb61f6a3cb3f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:51 +0000
Subject: [PATCH 089/123] fix: handlers write the record their filters return

---
 edk2toollib/log/ansi_handler.py   | 2 ++
 edk2toollib/log/file_handler.py   | 2 ++
 edk2toollib/log/string_handler.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..36b395b 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -297,6 +297,8 @@ class ColoredStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..1a4bdc2 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -26,6 +26,8 @@ class FileHandler(logging.FileHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..7345bd7 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -31,6 +31,8 @@ class StringStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From cb461c575a0daea2b56cd2775f7a36ea6d5d9579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:00 +0000
Subject: [PATCH 090/123] fix: a record written while the string handler is
 being read overwrites nothing

---
 edk2toollib/log/string_handler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index 7345bd7..40530e4 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -41,18 +41,30 @@ class StringStreamHandler(logging.StreamHandler):
                 self.release()
         return rv
 
+    def emit(self, record: LogRecord) -> None:
+        """Adds the record to the end of the stream, wherever the stream is being read."""
+        position = self.stream.tell()
+        end = self.stream.seek(0, io.SEEK_END)
+        super().emit(record)
+        if position != end:
+            self.stream.seek(position)
+
     def readlines(self, hint: int = -1) -> list[str]:
         """Reads lines from stream and returns them."""
-        return self.stream.readlines(hint)
+        with self.lock:
+            return self.stream.readlines(hint)
 
     def seek_start(self) -> None:
         """Seeks to a specific point in the stream."""
-        self.stream.seek(0, 0)
+        with self.lock:
+            self.stream.seek(0, 0)
 
     def seek_end(self) -> None:
         """Seeks to the end of the stream."""
-        self.stream.seek(0, io.SEEK_END)
+        with self.lock:
+            self.stream.seek(0, io.SEEK_END)
 
     def seek(self, offset: int, whence: int) -> int:
         """Seek to a specific point in the stream."""
-        return self.stream.seek(offset, whence)
+        with self.lock:
+            return self.stream.seek(offset, whence)
-- 
2.43.0


From 8c9cd32d2fdcf99117c794c36fd5ba67b6530195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:11 +0000
Subject: [PATCH 091/123] fix: restore a record when formatting it in colour
 fails

---
 edk2toollib/log/ansi_handler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 36b395b..14b2720 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,11 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From dc01ac9d9f63ab19fca8c254c840cfd7dce560df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 092/123] fix: a table that fails while parsing leaves no rows
 in the database

---
 edk2toollib/database/tables/instanced_fv_table.py  | 1 -
 edk2toollib/database/tables/instanced_inf_table.py | 3 ---
 edk2toollib/database/tables/source_table.py        | 1 -
 3 files changed, 5 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index da758ef..a95cab8 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -78,4 +78,3 @@ class InstancedFvTable(TableGenerator):
 
             fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=[all_components.get(inf) for inf in filtered])
             session.add(fv)
-            session.commit()
diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..ef97e50 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -135,7 +135,6 @@ class InstancedInfTable(TableGenerator):
                 )
             )
         session.add_all(rows)
-        session.commit()
 
         all_libraries = {
             (library.path, library.arch, library.cls, library.component): library
@@ -146,8 +145,6 @@ class InstancedInfTable(TableGenerator):
             libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
-        session.commit()
-
     def _build_inf_table(self, dscp: DscP) -> list:
         """Create the instanced inf entries, including components and libraries.
 
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..a8cbc8a 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -67,7 +67,6 @@ class SourceTable(TableGenerator):
                 to_add[-1].blank_lines = source.blank_lines
 
         session.add_all(to_add)
-        session.commit()
 
         logging.debug(
             f"{self.__class__.__name__}: Parsed {len(src_entries)} files; took {round(time.time() - start, 2)} seconds."
-- 
2.43.0


From 4fbf1d72567921844c0a5c0d3b94cddfaff37e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 093/123] fix: parsing INF and source files again updates their
 rows

---
 edk2toollib/database/tables/inf_table.py    | 26 +++++++++++----------
 edk2toollib/database/tables/source_table.py |  2 ++
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2747ac8..42bd54f 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -44,31 +44,33 @@ class InfTable(TableGenerator):
 
         start = time.time()
         files = list(ws.glob("**/*.inf"))
-        files = [file for file in files if not file.is_relative_to(ws / "Build")]
+        files = [file for file in files if file.is_file() and not file.is_relative_to(ws / "Build")]
         inf_entries = Parallel(n_jobs=self.n_jobs)(delayed(self._parse_file)(fname, pathobj) for fname in files)
 
         all_inf = {inf.path: inf for inf in session.query(Inf).all()}
         all_source = {source.path: source for source in session.query(Source).all()}
         all_libs = {lib.name: lib for lib in session.query(Library).all()}
         to_add = []
+        parsed = set()
         for entry, source_list, lib_list in inf_entries:
             # Could parse a Windows INF file, which is not a EDKII INF file
             # and won't have a guid. GUIDS are required for INFs so we can
             # assume if it does not have a guid, its the wrong type of INF
             if entry.guid == "":
                 continue
-            if entry.path in all_inf:
+            if entry.path in parsed:
                 continue
-            for source in source_list:
-                if source not in all_source:
-                    all_source[source] = Source(path=source)
-                entry.sources.append(all_source[source])
-            for lib in lib_list:
-                if lib not in all_libs:
-                    all_libs[lib] = Library(name=lib)
-                entry.libraries.append(all_libs[lib])
-            to_add.append(entry)
-            all_inf[entry.path] = entry
+            parsed.add(entry.path)
+
+            # The file may have changed since it was added in an earlier parse
+            inf = all_inf.setdefault(entry.path, entry)
+            inf.guid = entry.guid
+            inf.library_class = entry.library_class
+            inf.package_name = entry.package_name
+            inf.module_type = entry.module_type
+            inf.sources = [all_source.setdefault(source, Source(path=source)) for source in dict.fromkeys(source_list)]
+            inf.libraries = [all_libs.setdefault(lib, Library(name=lib)) for lib in dict.fromkeys(lib_list)]
+            to_add.append(inf)
 
         session.add_all(to_add)
 
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index a8cbc8a..88206e4 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From a46809c0cc553dc34508bad4618323779504d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 094/123] fix: the environment of a repository without commits
 is recorded

---
 edk2toollib/database/tables/environment_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/environment_table.py b/edk2toollib/database/tables/environment_table.py
index c617bac..4f55cd0 100644
--- a/edk2toollib/database/tables/environment_table.py
+++ b/edk2toollib/database/tables/environment_table.py
@@ -29,7 +29,8 @@ class EnvironmentTable(TableGenerator):
 
         try:
             version = git.Repo(pathobj.WorkspacePath).head.commit.hexsha
-        except git.InvalidGitRepositoryError:
+        except (git.InvalidGitRepositoryError, ValueError):
+            # Not a repository, or a repository without any commit
             version = "UNKNOWN"
 
         entry = Environment(
-- 
2.43.0


From e2e1b4d77bda0f32e7238704a3dd596c1a691941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 095/123] fix: a package belongs to a submodule only if it is
 inside of it

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 edk2toollib/database/tables/package_table.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index ef97e50..77d2081 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -112,7 +112,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From dd69b5c50855f2f32f73763271ea2eb72738ec00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 096/123] fix: library instances of overrides and NULL
 libraries are recorded by their closest package path

---
 .../database/tables/instanced_inf_table.py       | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 77d2081..614faaf 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -228,11 +228,11 @@ class InstancedInfTable(TableGenerator):
         #
         if inf == component:
             for null_lib in override_dict["NULL"]:
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._closest_path(null_lib))
                 library_class_list.append("NULL")
 
             for null_lib in self._get_null_lib_instances(scope, library_dict):
-                library_instance_list.append(null_lib)
+                library_instance_list.append(self._closest_path(null_lib))
                 library_class_list.append("NULL")
 
         #
@@ -301,7 +301,7 @@ class InstancedInfTable(TableGenerator):
         # 1. If a Library class instance (INF) is specified in the Edk2 II [Components] section (an override),
         #    and the library supports the module, then it will be used.
         if library_class_name in override_dict:
-            return override_dict[library_class_name]
+            return self._closest_path(override_dict[library_class_name])
 
         # 2/3. If the Library Class instance (INF) is defined in the [LibraryClasses.$(ARCH).$(MODULE_TYPE)] section,
         #      and the library supports the module, then it will be used.
@@ -355,12 +355,14 @@ class InstancedInfTable(TableGenerator):
         for library_instance in library_instance_list:
             infp = self.inf(library_instance)
             if module.lower() in [phase.lower() for phase in infp.SupportedPhases]:
-                # Ensure the returned path is relative to the closest package path
-                library_instance = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(library_instance)
-                library_instance = self.pathobj.GetEdk2RelativePathFromAbsolutePath(library_instance)
-                return library_instance
+                return self._closest_path(library_instance)
         return None
 
+    def _closest_path(self, inf: str) -> str:
+        """Returns the path of the INF relative to the closest package path, or as given if there is no such file."""
+        path = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+        return inf if path is None else self.pathobj.GetEdk2RelativePathFromAbsolutePath(path)
+
     def _get_null_lib_instances(
         self,
         scope: str,
-- 
2.43.0


From de3966dcf28d32337d8e096e8c6563e0065824ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 097/123] fix: instanced components are linked to all of their
 own library instances

---
 edk2toollib/database/tables/instanced_inf_table.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 614faaf..808cd20 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -136,13 +136,12 @@ class InstancedInfTable(TableGenerator):
             )
         session.add_all(rows)
 
-        all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
-            for library in session.query(InstancedInf).filter_by(env=env_id).all()
-        }
+        # A component has one row per library INF, even if it provides several of the library classes used
+        all_libraries = {(inf["INSTANCE"], inf["PATH"]): row for row, inf in zip(rows, filtered_inf_entries)}
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
+            paths = dict.fromkeys(path for _, path in inf["LIBRARIES_USED"])
+            libraries = [all_libraries.get((inf["INSTANCE"], path)) for path in paths]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
     def _build_inf_table(self, dscp: DscP) -> list:
@@ -152,7 +151,7 @@ class InstancedInfTable(TableGenerator):
         This is where we merge DSC parser information with INF parser information.
         """
         inf_entries = []
-        for inf, scope, overrides in dscp.Components:
+        for instance, (inf, scope, overrides) in enumerate(dscp.Components):
             # components section scope should only contain the arch.
             # module_type is only needed for libraryclasses section.
             if "." in scope:
@@ -181,7 +180,8 @@ class InstancedInfTable(TableGenerator):
             if "MODULE_TYPE" in infp.Dict:
                 scope += f".{infp.Dict['MODULE_TYPE']}".lower()
 
-            inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
+            entries = self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
+            inf_entries += [{**entry, "INSTANCE": instance} for entry in entries]
 
         return inf_entries
 
-- 
2.43.0


From 4cc742880824536faaf435a0d17f7f2dc2ac14d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 098/123] fix: parsing a platform again reads its INF files
 again

---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 808cd20..7eb367d 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -53,6 +53,7 @@ class InstancedInfTable(TableGenerator):
         self.dsc = self.env["ACTIVE_PLATFORM"]
         self.arch = self.env["TARGET_ARCH"].split(" ")
         self.target = self.env["TARGET"]
+        self._parsed_infs = {}
 
         dscp = DscP().SetEdk2Path(self.pathobj)
         dscp.SetInputVars(self.env)
-- 
2.43.0


From 2c1ee300f5748550f18c84fa73a912dd30252969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 099/123] fix: components of the common section use the
 libraries of their architecture

---
 edk2toollib/database/tables/instanced_inf_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 7eb367d..535bee3 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -164,6 +164,9 @@ class InstancedInfTable(TableGenerator):
             if arch not in self.arch:
                 continue
 
+            # SUPPORTED_ARCHITECTURES may be upper case, the scopes of libraries never are
+            scope = scope.lower()
+
             # Developers can set an inf path to be relative to any package path. Convert it to be the closest
             # package path relative path to the INF, which is done by `GetEdk2RelativePathFromAbsolutePath`
             inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-- 
2.43.0


From 7fa870a315fc65081e91e7535355a0561d4ad2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 100/123] fix: sections of a DSC object can be listed, compared
 and written

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..c4d93ae 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,15 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
+
+    def __eq__(self, other: Any) -> bool:  # noqa: ANN401
+        """Enables equality comparisons (a == b). The order of the sections is not significant."""
+        return dict.__eq__(self, other)
+
+    def __ne__(self, other: Any) -> bool:  # noqa: ANN401
+        """Enables equality comparisons (a != b). The order of the sections is not significant."""
+        return dict.__ne__(self, other)
 
 
 class dsc:
-- 
2.43.0


From 50a554016a942413957bc4770f3ad312c1041afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 101/123] fix: sections of DSC objects are equal only if all of
 their scope is

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index c4d93ae..2a6022c 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -217,7 +217,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -276,9 +276,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return other.module_type == self.module_type and other.codebase == self.codebase and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -325,7 +325,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -336,7 +336,12 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
-        return self.pcd_type == other.pcd_type and self.arch == other.arch
+        return (
+            self.pcd_type == other.pcd_type
+            and self.arch == other.arch
+            and self.sku == other.sku
+            and self.default_store == other.default_store
+        )
 
 
 class dsc_pcd_component_type(dsc_pcd_section_type):
-- 
2.43.0


From a2d1e9a3820570b16612e4c05129c7c231a10f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 102/123] fix: library classes that differ in case only have
 the same hash

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 2a6022c..12e3335 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -537,7 +537,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 6566f111c9b27794532990967de672015962e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 103/123] fix: adding to a DSC section replaces every entry
 with the same key

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 12e3335..998d60a 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -31,11 +31,26 @@ class dsc_set(set):
         """
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
-        if item in self:
+        while item in self:  # a SKU can replace two others, one with its name and one with its id
             super().discard(item)
             # NEXTVER: get add the old_item to item
         super().add(item)
 
+    def update(self, *others: Any) -> None:  # noqa: ANN401
+        """Adds all items of the others to the set.
+
+        Raises:
+            (ValueError): if the type of an item is not allowed to be added.
+        """
+        for other in others:
+            for item in list(other):
+                self.add(item)
+
+    def __ior__(self, other: Any) -> "dsc_set":  # noqa: ANN401
+        """Adds all items of the other set to this one (a |= b)."""
+        self.update(other)
+        return self
+
 
 class dsc_dict(collections.OrderedDict):
     """A dictionary that allows specific classes as headers and sections."""
-- 
2.43.0


From 8e7cb542024453aa761ae3e484408970e70ef15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 104/123] fix: section headers and build options are written to
 a DSC as they are

---
 .../uefi/edk2/build_objects/dsc_translator.py   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..cb3a833 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -13,6 +13,7 @@ from edk2toollib.uefi.edk2.build_objects.dsc import (
     component,
     definition,
     dsc,
+    dsc_section_type,
     dsc_set,
     library_class,
     pcd,
@@ -57,12 +58,12 @@ class DscTranslator:
 
             # Third, library classes
             for header, x in obj.library_classes.items():
-                lines.append(f"{depth_pad}[LibraryClasses{header}]")
+                lines.append(f"{depth_pad}[LibraryClasses{cls._FormatScope(header)}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Next do the components
             for header, x in obj.components.items():
-                lines.append(f"{depth_pad}[Components{header}]")
+                lines.append(f"{depth_pad}[Components{cls._FormatScope(header)}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then PCD's
@@ -71,9 +72,8 @@ class DscTranslator:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then Build Options
-            print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
@@ -111,12 +111,19 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f"== {obj.data}" if obj.replace else f"= {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
         return lines
 
+    @classmethod
+    def _FormatScope(cls: "DscTranslator", section: dsc_section_type) -> str:
+        """Gets the scope of a section header, in which the module type is left out if it is any."""
+        if section.module_type == "COMMON":
+            return f".{section.arch}"
+        return f".{section.arch}.{section.module_type}"
+
     @classmethod
     def _FormatComponent(cls: "DscTranslator", comp: dsc, depth: int = 0) -> list[str]:
         has_subsection = (
-- 
2.43.0


From 9462bc2a1df8b4af29a9a3fd9d1f2256fdbb5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 105/123] fix: do not pass UEFI variable names to a shell

---
 edk2toollib/os/uefivariablesupport.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..c039423 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -22,6 +22,7 @@ This module provides:
 import logging
 import os
 import struct
+import subprocess
 import uuid
 from ctypes import create_string_buffer
 
@@ -301,7 +302,10 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                try:
+                    subprocess.run(["sudo", "chattr", "-i", path], check=False)
+                except OSError as e:
+                    logging.error(f"Could not remove the immutable flag of {path}: {e}")
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From 09b3db7321c9f2662ad3815db63060da3f61b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 106/123] fix: keep UEFI variable names and guids inside
 efivarfs

---
 edk2toollib/os/uefivariablesupport.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index c039423..6e067bf 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -129,7 +129,8 @@ class UefiVariable(object):
             # the variable name is VariableName-Guid
             path = "/sys/firmware/efi/efivars/" + name + "-%s" % guid
 
-            if not os.path.exists(path):
+            # a file of efivarfs has no path separator in its name
+            if "/" in f"{name}{guid}" or not os.path.exists(path):
                 err = UefiVariable.ERROR_ENVVAR_NOT_FOUND
                 return (err, None)
 
@@ -290,6 +291,11 @@ class UefiVariable(object):
             return success
         else:
             path = "/sys/firmware/efi/efivars/" + name + "-" + str(guid)
+            if "/" in f"{name}{guid}":
+                # a file of efivarfs has no path separator in its name
+                logging.error(f"Not a variable name and guid: {name}-{guid}")
+                return success
+
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
-- 
2.43.0


From c668545b5774c144b041744450bb77eb694fb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 107/123] fix: keep the stored UEFI variable when the new value
 cannot be packed

---
 edk2toollib/os/uefivariablesupport.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index 6e067bf..e1a7980 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -306,6 +306,10 @@ class UefiVariable(object):
             if attrs is None:
                 attrs = 0x7
 
+            # var data is attribute (UINT32) followed by data
+            packed = struct.pack("=I", attrs)
+            packed += var
+
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
                 try:
@@ -314,9 +318,6 @@ class UefiVariable(object):
                     logging.error(f"Could not remove the immutable flag of {path}: {e}")
 
             with open(path, "wb") as fd:
-                # var data is attribute (UINT32) followed by data
-                packed = struct.pack("=I", attrs)
-                packed += var
                 fd.write(packed)
 
         return 1
-- 
2.43.0


From c38838daf12a71ba5637b8b595655780a62beb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:37 +0000
Subject: [PATCH 108/123] fix: remove the immutable flag before deleting a UEFI
 variable

---
 edk2toollib/os/uefivariablesupport.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index e1a7980..614a699 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -240,6 +240,13 @@ class UefiVariable(object):
 
             return (status, efi_var_names)
 
+    def _remove_immutable_flag(self, path: str) -> None:
+        """Remove the immutable flag that efivarfs puts on most variables."""
+        try:
+            subprocess.run(["sudo", "chattr", "-i", path], check=False)
+        except OSError as e:
+            logging.error(f"Could not remove the immutable flag of {path}: {e}")
+
     def SetUefiVar(self, name: str, guid: str, var: str = None, attrs: int = None) -> int:
         """Set a Uefi Variable into the system.
 
@@ -299,6 +306,7 @@ class UefiVariable(object):
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
+                    self._remove_immutable_flag(path)
                     os.remove(path)
                     success = 1  # expect non-zero success
                 return success
@@ -312,10 +320,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                try:
-                    subprocess.run(["sudo", "chattr", "-i", path], check=False)
-                except OSError as e:
-                    logging.error(f"Could not remove the immutable flag of {path}: {e}")
+                self._remove_immutable_flag(path)
 
             with open(path, "wb") as fd:
                 fd.write(packed)
-- 
2.43.0


From 71d4732efa0966ee2928452ae46be07424c88af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 109/123] fix: quote certificate path and password given to
 signtool

---
 edk2toollib/utility_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 351fc08..9ac4ac5 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -330,7 +330,7 @@ def DetachedSignWithSignTool(
         params += " /u " + Eku
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params)
     if ret != 0:
@@ -368,10 +368,10 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params, workingdir=OutputDir)
     if ret != 0:
-- 
2.43.0


From e7581b2f65cc0a4d63ee965cd5ff1865255dd409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 110/123] fix: signing runs the given tool on the given files
 when paths are relative

---
 edk2toollib/utility_functions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 9ac4ac5..f39ef3e 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -314,11 +314,14 @@ def DetachedSignWithSignTool(
         logging.error("Path to signtool invalid.  %s" % SignToolPath)
         return -1
 
+    # A bare name would be looked up on the search path.
+    SignToolPath = os.path.abspath(SignToolPath)
+
     # Adjust for spaces in the path (when calling the command).
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
 
-    OutputDir = os.path.dirname(SignatureOutputFile)
+    OutputDir = os.path.dirname(os.path.abspath(SignatureOutputFile))
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # Signtool parameters from
     #   https://docs.microsoft.com/en-us/windows-hardware/manufacture/desktop/secure-boot-key-generation-and-signing-using-hsm--example  # noqa: E501
@@ -361,6 +364,11 @@ def CatalogSignWithSignTool(
         logging.error("Path to signtool invalid.  %s" % SignToolPath)
         return -1
 
+    # The tool runs in the directory of the file, so relative paths would name something else there.
+    SignToolPath = os.path.abspath(SignToolPath)
+    ToSignFilePath = os.path.abspath(ToSignFilePath)
+    PfxFilePath = os.path.abspath(PfxFilePath)
+
     # Adjust for spaces in the path (when calling the command).
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
-- 
2.43.0


From 691b29cc8baa6519419b34f31da0af6791244f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 111/123] fix: printing a firmware policy whose UEFI policy
 rule holds a string

---
 edk2toollib/windows/policy/firmware_policy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 17c2c14..5b63517 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -927,6 +927,7 @@ class FirmwarePolicy(object):
                 rule.RootKey == self.FW_POLICY_ROOT_KEY
                 and rule.SubKeyName.String == self.FW_POLICY_SUB_KEY_NAME
                 and rule.ValueName.String == self.FW_POLICY_VALUE_NAME
+                and isinstance(rule.Value.value, int)
             ):
                 print(prefix + "  Device Policy:")
                 self.PrintDevicePolicy(devicePolicy=rule.Value.value, prefix=prefix)
-- 
2.43.0


From c7669c745f4cc85380880f2226d9e4f1d335faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:30 +0000
Subject: [PATCH 112/123] fix: default EFI time is the time of creation, not of
 the import

---
 .../authenticated_variables_structure_support.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index be02b2a..a925313 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1101,15 +1101,15 @@ class EfiTime(CommonUefiStructure):
     _struct_format = "<H6BLh2B"
     _struct_size = struct.calcsize(_struct_format)
 
-    def __init__(self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None) -> "EfiTime":
+    def __init__(self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None) -> "EfiTime":
         """Inits an EFI_TIME object.
 
         Args:
-            time: Inits object with specified date (if decodefs not set)
+            time: [default: now] Inits object with specified date (if decodefs not set)
             decodefs: Inits the object with this stream
         """
         if decodefs is None:
-            self.time = time
+            self.time = datetime.datetime.now() if time is None else time
         else:
             self.decode(decodefs)
 
@@ -1251,7 +1251,7 @@ class EfiVariableAuthentication2(CommonUefiStructure):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EfiVariableAuthentication2":
         """Inits an EFI_VARIABLE_AUTHENTICATION_2 object.
 
@@ -1442,7 +1442,7 @@ class EfiVariableAuthentication2Builder(object):
         guid: str,
         attributes: Union[int, str],
         payload: Optional[Union[io.BytesIO, bytes]] = None,
-        efi_time: datetime.datetime = datetime.datetime.now(),
+        efi_time: Optional[datetime.datetime] = None,
     ) -> "EfiVariableAuthentication2Builder":
         """Builds a EfiVariableAuthentication2 structure.
 
@@ -1625,7 +1625,7 @@ class EFiVariableAuthentication2(EfiVariableAuthentication2):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2. DEPRECATED."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EFiVariableAuthentication2":
         """DEPRECATED. Use EfiVariableAuthentication2() instead. Initializes a EFiVariableAuthentication2."""
         warn(
-- 
2.43.0


From f925924b6a7f645aee3414703c820dbb2aa07c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 113/123] fix: report the package GUID in the same upper case
 form as all other GUIDs

---
 edk2toollib/uefi/edk2/guid_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 97e8cc4..572efa0 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -117,7 +117,7 @@ class GuidList:
             results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
 
         try:
-            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"], filename))
+            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"].upper(), filename))
         except Exception:
             logging.warning("Failed to find Package Guid from dec file: " + filename)
         return results
-- 
2.43.0


From cc4424acb3f8b71e1f0d31a1ae36f7bc40acfb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 114/123] fix: INF binaries are reported by path, not by their
 file type

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 727170a..ecade05 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -204,7 +204,9 @@ class InfParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InBinariesSection = False
                 else:
-                    self.Binaries.append(sline.partition("|")[0].strip())
+                    # an entry is [<file type> |] <path> [| <flags>]
+                    tokens = sline.split("|")
+                    self.Binaries.append(tokens[min(1, len(tokens) - 1)].strip())
                     continue
 
             # check for different sections
-- 
2.43.0


From b177e23f5661aadeff6c8a231d2e6c953f075ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 115/123] fix: PCDs are resolved in !elseif conditions, and
 without their datum type

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 8d6a333..3be7878 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -41,6 +41,7 @@ class DscParser(HashFileParser):
     SECTION_COMPONENT = "components"
     SECTION_REGEX = re.compile(r"\[(.*)\]")
     OVERRIDE_REGEX = re.compile(r"\<(.*)\>")
+    PCD_VALUE_REGEX = re.compile(r"""(?:"[^"]*"|'[^']*'|[^|])*""")
 
     def __init__(self) -> "HashFileParser":
         """Init an empty Parser."""
@@ -63,10 +64,16 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
-            line = re.sub(r"[\w\.]+", lambda m: self.PcdValueDict.get(m.group(), m.group()), line)
+        if line.lower().startswith(("!if", "!elseif")):
+            line = re.sub(r"[\w\.]+", lambda m: self._PcdConditionalValue(m.group()), line)
         return line
 
+    def _PcdConditionalValue(self, name: str) -> str:
+        """Returns the value a PCD has in a conditional, or the name itself if it is not the name of a known PCD."""
+        # The value may be followed by a datum type and a size: <value>[|<type>[|<size>]]
+        match = self.PCD_VALUE_REGEX.match(self.PcdValueDict.get(name, name))
+        return match.group().strip()
+
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
         line_stripped = self.StripComment(Line).strip()
         if len(line_stripped) < 1:
-- 
2.43.0


From 756e45e984c52e45aa18fd3b54ca60d93fdcce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:30 +0000
Subject: [PATCH 116/123] fix: refuse an INF firmware tag whose sections
 collide with another's

---
 edk2toollib/windows/capsule/inf_generator2.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 318cda5..7807997 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -234,6 +234,13 @@ class InfFirmware(object):
             raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
         self._version_int = version
 
+    def _AddRegSections(self) -> set[str]:
+        """Returns the names (lower case) of the AddReg sections this firmware defines."""
+        names = {f"{self.Tag}_AddReg".lower()}
+        if self.Rollback:
+            names.add(f"{self.Tag}_DowngradePolicy_AddReg".lower())
+        return names
+
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
         # build rollback string, if required.
@@ -326,10 +333,11 @@ class InfFirmwareSections(object):
                 this collection of sections.
 
         Raises:
-            (ValueError): A section with this tag exists already (section names are not case sensitive)
+            (ValueError): A section this firmware defines exists already (section names are not case sensitive)
         """
-        if InfFirmware.Tag.lower() in (Tag.lower() for Tag in self.Sections):
-            raise ValueError("Tag is already in use.")
+        for Section in self.Sections.values():
+            if InfFirmware._AddRegSections() & Section._AddRegSections():
+                raise ValueError("Tag is already in use.")
         self.InfStrings.AddLocalizableString(f"{InfFirmware.Tag}Desc", InfFirmware.Description)
         self.Sections[InfFirmware.Tag] = InfFirmware
 
-- 
2.43.0


From eb9d9614c44cc438ecb8f9ed4842335e0af98eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 117/123] fix: do not lose log records when conversion is asked
 for without a Windows console

---
 edk2toollib/log/ansi_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 14b2720..907a652 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -274,7 +274,7 @@ class ColoredStreamHandler(logging.StreamHandler):
         if convert is None:
             convert = self.conversion_supported and not self.stream.closed and self.stream.isatty()
         self.convert = convert
-        self.win32_calls = None
+        self.win32_calls = dict()
 
         if stream is not None:
             self.stream = stream
-- 
2.43.0


From cc852a605f631b5ab0d1dd1fa31b81ac9ad14101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 118/123] fix: run programs and scripts whose path has shell
 characters but no space

---
 edk2toollib/utility_functions.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f39ef3e..b7175fa 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -185,9 +185,10 @@ def RunCmd(
     Returns:
         (int): returncode of called cmd
     """
-    cmd = cmd.strip("\"'")
-    if " " in cmd:
-        cmd = '"' + cmd + '"'
+    unquoted = cmd.strip("\"'")
+    # a command that is given in quotes keeps them, it can have characters that mean something to the shell
+    if " " in unquoted or unquoted != cmd:
+        cmd = '"' + unquoted + '"'
     if parameters is not None:
         parameters = parameters.strip()
         cmd += " " + parameters
@@ -276,9 +277,7 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params = pythonfile + " " + params
+    params = '"' + pythonfile + '" ' + params
     return RunCmd(
         sys.executable,
         params,
@@ -317,9 +316,8 @@ def DetachedSignWithSignTool(
     # A bare name would be looked up on the search path.
     SignToolPath = os.path.abspath(SignToolPath)
 
-    # Adjust for spaces in the path (when calling the command).
-    if " " in SignToolPath:
-        SignToolPath = '"' + SignToolPath + '"'
+    # Adjust for spaces and shell characters in the path (when calling the command).
+    SignToolPath = '"' + SignToolPath + '"'
 
     OutputDir = os.path.dirname(os.path.abspath(SignatureOutputFile))
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
@@ -369,9 +367,8 @@ def CatalogSignWithSignTool(
     ToSignFilePath = os.path.abspath(ToSignFilePath)
     PfxFilePath = os.path.abspath(PfxFilePath)
 
-    # Adjust for spaces in the path (when calling the command).
-    if " " in SignToolPath:
-        SignToolPath = '"' + SignToolPath + '"'
+    # Adjust for spaces and shell characters in the path (when calling the command).
+    SignToolPath = '"' + SignToolPath + '"'
 
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
-- 
2.43.0


From 1d067b9c5cd0ee72f51dce1bad6e94aec73eca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 119/123] fix: run the Inf2Cat tool that was given, whatever
 the folder it runs in or the characters of its path

---
 edk2toollib/windows/capsule/cat_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index bfdaa55..ca3d25f 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -120,6 +120,8 @@ class CatGenerator(object):
             )
 
         OutputFolder = os.path.dirname(os.path.abspath(OutputCatFile))
+        # The tool runs in the output folder, where a relative path would name something else
+        PathToInf2CatTool = '"' + os.path.abspath(PathToInf2CatTool.strip("\"'")) + '"'
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From 60d80f9939a1632b8e6042226ad60cec18621421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 120/123] fix: find python scripts by relative entries of the
 search path when another working directory is given

---
 edk2toollib/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index b7175fa..0a4d5de 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -272,14 +272,14 @@ def RunPythonScript(
     else:
         # loop thru path environment variable
         for a in os.getenv("PATH").split(os.pathsep):
-            a = os.path.normpath(a)
+            a = os.path.abspath(a)
             if os.path.isfile(os.path.join(a, pythonfile)):
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
     params = '"' + pythonfile + '" ' + params
     return RunCmd(
-        sys.executable,
+        '"' + sys.executable + '"',
         params,
         capture=capture,
         workingdir=workingdir,
-- 
2.43.0


From ef9d9c81c0dcf86157fe549cf243775bc8c313ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 121/123] fix: refuse a conditional expression with a
 parenthesis that is never closed

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index ca994f1..1adf1b7 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -716,6 +716,8 @@ class BaseParser(object):
                 logging.error("We don't know what to do with " + token)
         while len(stack) > 0:
             val = stack.pop()
+            if val == "(":
+                raise RuntimeError(f"Malformed conditional, unclosed parenthesis in {tokens}")
             expression.append(val)
         return expression
 
-- 
2.43.0


From 1afc406c2eb9912dd500908ef68d3f61451346a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:27 +0000
Subject: [PATCH 122/123] fix: IVRS tables and blocks decoded again hold only
 what was decoded last

---
 edk2toollib/acpi/ivrs_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index bd107e2..ab2dbd0 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -30,6 +30,8 @@ class IVRS_TABLE(object):
 
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
+        self.SubStructs = list()
+        self.IVMD_list = list()
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
         # Start from the end of ACPI header, but store the parsed length for verification
@@ -300,6 +302,9 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.Reserved = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From d57a4f09d69a1c396d5310b1e3d0b636ea380963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 123/123] fix: a variable store header loaded again takes the
 type of the store loaded last

---
 edk2toollib/uefi/edk2/variable_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 6eb3b54..c7cf083 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -81,8 +81,7 @@ class VariableStoreHeader(object):
         # Check one last thing.
         if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
             raise Exception("VarStore is of unknown type! %s" % self.Signature)
-        if self.Signature == EfiAuthenticatedVariableGuid:
-            self.Type = "AuthVar"
+        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
 
         return self
 
-- 
2.43.0

