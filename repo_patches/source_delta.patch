From 0baf56b0122bebf695376fde425f8e9c64ce0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 01/54] fix: (0:n) multiplier accepts every count from 0 to n

'term * (0:n)' compiled to an optional block of exactly n repetitions, so
1..n-1 repetitions were rejected.
---
 nessaid_cli/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..91b6575 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -224,12 +224,12 @@ class NessaidCliParser(NessaidCliParserCommon):
                 t[0] = OptionalInputElement((term,))
                 term.parent = t[0]
             else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
+                opt_block = OptionalInputElement((term,))
+                term.parent = opt_block
+                t[0] = SequenceInputElement((opt_block,))
+                t[0].repeat_count = max_count
+                opt_block.parent = t[0]
+                opt_block.position = 0
             return
 
         term_copy = term.copy()
-- 
2.43.0


From e45b6a79f1b8bcaf2c765af4e2c82d8f1c13cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 02/54] fix: keep the multiplier of a repeated block that is
 the whole of an optional block

'{ x * 2 }' took over the contents of the repeated sequence but not its
repeat count and so matched a single x.
---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 91b6575..a0dd53b 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -277,7 +277,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From ea9b7c927748000f3467151ec34bbf0165bcc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 03/54] fix: a repeated optional block offers its first
 repetition only

Starting a '(x) * (0:n)' block offered the same token once per skippable
repetition, so a single repetition was reported ambiguous.
---
 nessaid_cli/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 81f4f8c..07b16ca 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -787,7 +787,8 @@ class TreeNode():
                 if isinstance(self.element, AlternativeInputElement) or isinstance(self.element, OrderlessSetInputElement):
                     continue
 
-                if elem.mandatory:
+                # Skipping an optional repetition to start with the next one is the same input
+                if elem.mandatory or self.repeat_count > 1:
                     break
         elif isinstance(self._element, NamedGrammar) or isinstance(self._element, GrammarRefElement):
             firsts = self.get(0).first()
-- 
2.43.0


From daa0cc33b085c9f44c060c7c58a1113854b9fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/54] fix: only complete readings of the input are candidates
 for execution

When one reading of the line was complete, readings that still needed more
tokens were counted too: the line was reported ambiguous ('a | a a' on 'a')
or an incomplete command could even be executed.
---
 nessaid_cli/interface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..6c88f7b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -826,6 +826,7 @@ class CliInterface(StdStreamsHolder):
                     return res
 
                 prompt_choices = set()
+                complete_sequences = []
 
                 for matching_sequence in matching_sequences:
                     choices = set()
@@ -851,6 +852,8 @@ class CliInterface(StdStreamsHolder):
                             for c in nexts:
                                 if c == EndOfInpuToken:
                                     seq_complete = True
+                                    if matching_sequence not in complete_sequences:
+                                        complete_sequences.append(matching_sequence)
                                 else:
                                     choices.add(c)
                     matching_seq_choices.append(choices)
@@ -875,6 +878,10 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete:
+                            # Readings of the input that still need more tokens are not candidates
+                            matching_sequences = complete_sequences
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From 1c7ad0a2f75a4e89a303d4d2016e1d575f3cacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:54 +0000
Subject: [PATCH 05/54] fix: an action after the only sequence of an optional
 block sees that block's $n

'a { ( b c ) << print($1); >> }' merged the sequence into the optional block
and ran its trailing action among the variables of the enclosing block.
---
 nessaid_cli/compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index a0dd53b..ab62fb0 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -277,13 +277,11 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1 and not rule.post_match_binding:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
-            post_match_binding = rule.post_match_binding
             opt_rule = OptionalInputElement(values)
             opt_rule.pre_match_binding = pre_match_binding
-            opt_rule.post_match_binding = post_match_binding
         else:
             values = (rule, )
             opt_rule = OptionalInputElement(values)
-- 
2.43.0


From 964197a4309eaae5ebd0bcb9c86732925cab1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 06/54] fix: quoting a string for the command line keeps its
 own quotes and backslashes

---
 doc/simple-cli/simple_cli.py | 7 +------
 nessaid_cli/utils.py         | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/doc/simple-cli/simple_cli.py b/doc/simple-cli/simple_cli.py
index 74aa207..0be0356 100644
--- a/doc/simple-cli/simple_cli.py
+++ b/doc/simple-cli/simple_cli.py
@@ -44,14 +44,9 @@ class CustomSubstringToken(CliToken):
         python_strings = []
         # Parent strings needs to be converted to Python format, ie to strip quotes and replace escape characters
         # '"as df"' will be converted to 'as df', 'a\\n' will be converted to 'a\n'
-        # and if geuine quotes are there do precautions to preserve them.
-        # CLI framework hopefully takes care of it for CLI read strings, since we are splitting it here,
+        # CLI framework takes care of it for CLI read strings, since we are splitting it here,
         # we should take care of them here
         for s in parent_strings:
-            if s.startswith('\\"'):
-                s = '"' + s
-            if s.endswith('\\"'):
-                s += '"'
             python_strings.append(convert_to_python_string(s))
 
         # Now convert the substrings back to CLI format for presenting in CLI
diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..16ac0d7 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,12 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
-
-        if python_string.startswith('"'):
-            python_string = python_string[1:]
-        if python_string.endswith('"'):
-            python_string = python_string[:-1]
+    if not python_string or any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         parts = python_string.split("\\")
         converted_parts = []
-- 
2.43.0


From 4213a8d940ea958afeabcb59930fff7d2c7fd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 07/54] fix: the string cache keeps the value of a quoted token
 apart from the same plain text

---
 nessaid_cli/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index 16ac0d7..c10214e 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,8 +39,11 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    # The same text means different values depending on whether it is a quoted token
+    cache_key = (str(cli_string), getattr(cli_string, "quoted", False), getattr(cli_string, "quote_incomplete", False))
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
@@ -69,7 +72,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From d07dba462b42f7c6a6597dd54dd035518c053dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 08/54] fix: escapes of a string are resolved once, not at
 every step it passes through

---
 nessaid_cli/interface.py | 12 +++++++-----
 nessaid_cli/utils.py     |  9 +++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 6c88f7b..577e234 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -7,7 +7,7 @@
 
 import asyncio
 
-from nessaid_cli.utils import StdStreamsHolder, convert_to_python_string
+from nessaid_cli.utils import StdStreamsHolder, PythonString, convert_to_python_string
 
 
 from nessaid_cli.tokens import (
@@ -209,12 +209,12 @@ class ExecContext():
             ext_fn = argument.name
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, False, *arglist)
-            return call_res
+            return PythonString(call_res) if isinstance(call_res, str) else call_res
         elif type(argument) == FunctionCall:
             ext_fn = argument.name
             arglist = [await self.evaluate(arg) for arg in argument.arglist]
             call_res = await self._interface.execute_binding_call(ext_fn, True, *arglist)
-            return call_res
+            return PythonString(call_res) if isinstance(call_res, str) else call_res
         return argument
 
     async def evaluate(self, arg):
@@ -224,8 +224,10 @@ class ExecContext():
         else:
             res = res_arg
 
-        if isinstance(res, str):
-            res = convert_to_python_string(str(res), cli=self._interface)
+        if isinstance(res, PythonString):
+            res = str(res)
+        elif isinstance(res, str):
+            res = str(convert_to_python_string(str(res), cli=self._interface))
         return res
 
     async def execute_binding(self, binding_code):
diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index c10214e..2d9184f 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -37,8 +37,15 @@ class ExtendedString(str):
         return str(self)
 
 
+class PythonString(ExtendedString):
+    """The value of a string read from the command line or a grammar. Converting it again leaves it as it is"""
+
+
 def convert_to_python_string(cli_string, cli=None):
 
+    if isinstance(cli_string, PythonString):
+        return cli_string
+
     # The same text means different values depending on whether it is a quoted token
     cache_key = (str(cli_string), getattr(cli_string, "quoted", False), getattr(cli_string, "quote_incomplete", False))
 
@@ -71,6 +78,8 @@ def convert_to_python_string(cli_string, cli=None):
 
         converted_str = "\\".join(converted_parts)
 
+    converted_str = PythonString(converted_str)
+
     if cli:
         cli.cache_string(cache_key, converted_str)
 
-- 
2.43.0


From 1533dc822fbe2a44df02e8d0c429bbd3c863f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 09/54] fix: strings in the value of a block of several tokens
 have their escapes resolved too

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 577e234..62c99cb 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -586,6 +586,8 @@ class CliInterface(StdStreamsHolder):
             node = m.node
             node_data = [node]
             token_value = token_values.pop(0)
+            if type(token_value) is str:
+                token_value = convert_to_python_string(token_value, cli=self)
 
             while node.parent:
                 node = node.parent
-- 
2.43.0


From bedd1b6d5a8cb50820666d056f8d11bb921b0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 10/54] fix: an escaped quote at the end of an unclosed string
 is part of its value

---
 nessaid_cli/tokens.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..d8c657d 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -232,7 +232,10 @@ class StringToken(CliToken):
             if match_string.startswith('"'):
                 match_string = match_string[1:]
             if match_string.endswith('"'):
-                match_string = match_string[:-1]
+                # An escaped quote is not the closing one
+                content = match_string[:-1]
+                if (len(content) - len(content.rstrip("\\"))) % 2 == 0:
+                    match_string = content
             return match_string
         return NullTokenValue
 
-- 
2.43.0


From a3d5e7fabcb97a84ac719c157b23e71b42a62c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 11/54] fix: the length of a ranged string is that of its
 value, not of its escaped form

---
 nessaid_cli/tokens.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index d8c657d..7cb13b2 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -264,12 +264,13 @@ class RangedStringToken(StringToken):
     async def get_value(self, match_string=None, cli=None):
         s = await super().get_value(match_string, cli=cli)
         if isinstance(s, str):
-            if len(s) >= self._min_len and len(s) <= self._max_len:
+            length = len(convert_to_python_string(s))
+            if length >= self._min_len and length <= self._max_len:
                 return s
         return NullTokenValue
 
     async def match(self, token_input, cli=None):
-        val = await super().get_value(token_input, cli=cli)
+        val = convert_to_python_string(await super().get_value(token_input, cli=cli))
         if len(val) > self._max_len:
             return MATCH_FAILURE
         if len(val) == self._max_len:
-- 
2.43.0


From cc92af89465115e67c0d0aed2707a73caa376711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 12/54] fix: assigning a variable to another copies its value
 instead of aliasing it

---
 nessaid_cli/interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 62c99cb..7b2c4b2 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -248,8 +248,8 @@ class ExecContext():
                         lhs = self.resolve_variable(block.lhs)
 
                     if lhs:
-                        rhs = await self.resolve_argument(block.rhs)
-                        lhs.assign(rhs)
+                        rhs = await self.evaluate(block.rhs)
+                        lhs.assign(PythonString(rhs) if isinstance(rhs, str) else rhs)
 
                 elif isinstance(block, BindingCall):
                     ext_fn = block.name
-- 
2.43.0


From e4978a9ee2ded155ddaeee522beb85bc2eab89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 13/54] fix: dec subtracts one

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 7b2c4b2..23bbd74 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -504,7 +504,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From 0f0312063090fdd841d283d1a02a5e322039da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 14/54] fix: each line is matched and executed on a grammar
 tree of its own

---
 nessaid_cli/interface.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 23bbd74..4982212 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -372,7 +372,6 @@ class CliInterface(StdStreamsHolder):
         self._grammar_stack = []
         self._token_class_map = None
         self._matched_values = []
-        self._parse_tree = None
 
         self._str_cache = {}
         self._token_value_cache = {}
@@ -416,15 +415,12 @@ class CliInterface(StdStreamsHolder):
         try:
             grammar = self._grammars.get_grammar(grammar_name)
             self._grammar_stack.append(grammar)
-            self._parse_tree = GrammarWalkTree(grammar)
         except Exception as e:
             raise e
 
     def exit_grammar(self):
         try:
             self._grammar_stack.pop()
-            if self._grammar_stack:
-                self._parse_tree = GrammarWalkTree(self._grammar_stack[-1])
         except Exception as e:
             raise e
 
@@ -708,7 +704,8 @@ class CliInterface(StdStreamsHolder):
         cur_token_input = None
         token_list = tok_list.copy()
 
-        prompt_choices = set(self._parse_tree.first())
+        # The tree nodes keep the state of an execution, so each line gets its own tree
+        prompt_choices = set(GrammarWalkTree(self.current_grammar).first())
 
         res = ParsingResult()
 
-- 
2.43.0


From 01fef09f148f9b39ea52a736a6c0dddede8a0de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 15/54] fix: an integer token matches and completes exactly the
 integers of its range

---
 nessaid_cli/tokens.py | 158 ++++++++----------------------------------
 1 file changed, 27 insertions(+), 131 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 7cb13b2..6e786e0 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -6,6 +6,7 @@
 #
 
 import os
+import re
 import string
 import fnmatch
 import platform
@@ -294,7 +295,7 @@ class RangedIntToken(CliToken):
 
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            if re.fullmatch(r'-?[0-9]+', match_string):
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -306,147 +307,42 @@ class RangedIntToken(CliToken):
     def completable(self):
         return True
 
-    async def _complete(self, min_limit, max_limit, number):
-
-        if number == 0:
-            if (max_limit - min_limit + 1) > self._max_suggestions:
-                return max_limit - min_limit + 1, []
-            return max_limit - min_limit + 1, list(range(min_limit, max_limit + 1))
-
-        if number > max_limit:
-            return 0, []
-
-        min_len = len(str(min_limit))
-        max_len = len(str(max_limit))
-        number_len = len(str(number))
-
-        count = 0
-        completions = []
-        min_num = number
-        max_num = number
-        num_len = number_len
-        power = 10
-
-        if num_len < min_len:
-            while num_len < min_len:
-                min_num = min_num * 10
-                max_num = min_num + power - 1
-                num_len += 1
-                power *= 10
-
-        if num_len == min_len:
-            if num_len == max_len and (max_num < min_limit or min_num > max_limit):
-                return 0, []
-            else:
-                lower_limit = max(min_limit, min_num)
-                upper_limit = min(max_limit, max_num)
-                count = len(range(lower_limit, upper_limit + 1))
-                if count > self._max_suggestions:
-                    return count, []
-                completions = list(range(lower_limit, upper_limit + 1))
-                if num_len == max_len or count > self._max_suggestions:
-                    return count, completions
-        else:
-            count = 1
-            completions = [number]
-
-        num_len = num_len + 1
-        min_num = min_num * 10
-        max_num = min_num + power - 1
-
-        while num_len < max_len:
-            count += power
-            if count > self._max_suggestions:
-                return count, []
-
-            completions += list(range(min_num, max_num + 1))
-            num_len += 1
-            power = 10 ** (num_len - number_len)
-            min_num = min_num * 10
-            max_num = min_num + power - 1
-
-        if min_num <= max_limit and num_len == max_len:
-            count += len(range(min_num, min(max_num, max_limit) + 1))
-            if count > self._max_suggestions:
-                return count, []
-            completions += list(range(min_num, min(max_num, max_limit) + 1))
+    def _completion_ranges(self, token_input):
+        """The ranges of numbers whose decimal form starts with the input"""
+        if token_input == '':
+            return [range(self._start, self._end + 1)]
+        if token_input == '-':
+            return [range(self._start, min(self._end, -1) + 1)]
+        if token_input == '0':
+            return [range(max(self._start, 0), min(self._end, 0) + 1)]
+        if not re.fullmatch(r'-?[1-9][0-9]*', token_input):
+            return []
 
-        return count, completions
+        ranges = []
+        first = last = int(token_input)
+        limit = max(abs(self._start), abs(self._end))
+        while min(abs(first), abs(last)) <= limit:
+            ranges.append(range(max(self._start, first), min(self._end, last) + 1))
+            first, last = (first * 10, last * 10 + 9) if first > 0 else (first * 10 - 9, last * 10)
+        return ranges
 
     async def match(self, token_input, cli=None):
         if isinstance(token_input, str):
             n, _comps = await self.complete(token_input, cli=cli) # noqa
             if n > 1 or n == TOO_MANY_COMPLETIONS:
                 return MATCH_PARTIAL
-            elif n == 1:
+            elif n == 1 or await self.get_value(token_input, cli=cli) is not NullTokenValue:
                 return MATCH_SUCCESS
         return MATCH_FAILURE
 
     async def complete(self, token_input, cli=None): # noqa
-        if isinstance(token_input, str) and str:
-            count = 0
-            comps = []
-
-            if token_input == '-':
-                if self._start >= 0:
-                    return 0, []
-                if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
-                else:
-                    comp_args = [-self._end, -self._start, 0]
-                n, comps = await self._complete(*comp_args)
-                if n > 0 and not comps:
-                    return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
-            elif token_input == '':
-                count = self._end - self._start + 1
-                if count > 10:
-                    return count, []
-                elif count == 1:
-                    return 1, [str(self._start)]
-                elif count == 0:
-                    return 0, []
-                if count > self._max_suggestions:
-                    comps = []
-                else:
-                    comps = list(range(self._start, self._end + 1))
-                return count, comps
-
-            else:
-                try:
-                    if token_input.isnumeric():
-                        number = int(token_input)
-                    else:
-                        return 0, []
-                except Exception:
-                    return 0, []
-
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
-                        return 1, ["0"]
-                    if self._start >= 0:
-                        return 0, []
-                    if self._end >= 0:
-                        comp_args = [0, -self._start, -number]
-                    else:
-                        comp_args = [-self._end, -self._start, -number]
-
-                    n, comps = await self._complete(*comp_args)
-                    if n > 0 and not comps:
-                        return TOO_MANY_COMPLETIONS, []
-                    return n, [str(-c) for c in comps]
-                else:
-                    if self._end < 0:
-                        return 0, []
-
-                    if self._start <= 0:
-                        comp_args = [0, self._end, number]
-                    else:
-                        comp_args = [self._start, self._end, number]
-                    n, comps = await self._complete(*comp_args)
-                    if n > 0 and not comps:
-                        return TOO_MANY_COMPLETIONS, []
-                    return n,  [str(c) for c in comps]
+        if not isinstance(token_input, str):
+            return 0, []
+        ranges = self._completion_ranges(token_input)
+        if sum(max(0, r.stop - r.start) for r in ranges) > self._max_suggestions:
+            return TOO_MANY_COMPLETIONS, []
+        completions = [str(c) for r in ranges for c in r]
+        return len(completions), completions
 
 
 class RangedDecimalToken(CliToken):
-- 
2.43.0


From e86b28a4ae5d20893e483684222041d9ad7cdbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 16/54] fix: the beginning of an integer of the range is a
 partial match of it

---
 nessaid_cli/tokens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 6e786e0..6b2a2e8 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -331,8 +331,10 @@ class RangedIntToken(CliToken):
             n, _comps = await self.complete(token_input, cli=cli) # noqa
             if n > 1 or n == TOO_MANY_COMPLETIONS:
                 return MATCH_PARTIAL
-            elif n == 1 or await self.get_value(token_input, cli=cli) is not NullTokenValue:
+            elif await self.get_value(token_input, cli=cli) is not NullTokenValue:
                 return MATCH_SUCCESS
+            elif n == 1:
+                return MATCH_PARTIAL
         return MATCH_FAILURE
 
     async def complete(self, token_input, cli=None): # noqa
-- 
2.43.0


From bd080952048188c68f5b6a0c9ff280514651cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 17/54] fix: every token that delivers a value for a word is a
 reading of it, however many others complete it

---
 nessaid_cli/interface.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 4982212..028a0c1 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -734,6 +734,7 @@ class CliInterface(StdStreamsHolder):
 
         while True:
             seq_complete = False
+            ambiguous_options = False
 
             assert len(seq_copy) == len(matching_seq_choices)
 
@@ -776,31 +777,12 @@ class CliInterface(StdStreamsHolder):
                 for p in partial_matches:
                     token = self.get_token(p[-1].name)
                     if token.completable:
-                        if completion:
-                            if dry_run and not token_list and not last_token_complete:
-                                self.append_matching_sequence(matching_sequences, p)
-                            elif len(completion) == 1:
-                                _n, comps = await self.complete_token(token, cur_token_input) # noqa
-                                if len(comps) == 1:
-                                    val = await self.get_token_value(token, cur_token_input)
-                                    if val is not NullTokenValue:
-                                        self.append_matching_sequence(matching_sequences, p)
-                            elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
-                            else:
-                                res.result = MATCH_FAILURE
-                                res.offending_token = tok_list[len(res.matched_sequence)]
-                                res.offending_token_position = len(res.matched_sequence)
-                                res.error = "Ambiguous options matched for the input token: {}".format(
-                                    tok_list[len(res.matched_sequence)])
-                                self.clear_caches()
-                                return res
-                        elif dry_run and not token_list and not last_token_complete:
+                        if dry_run and not token_list and not last_token_complete:
                             self.append_matching_sequence(matching_sequences, p)
-                        elif len(partial_matches) == 1:
-                            v = await self.get_token_value(token, cur_token_input)
-                            if v is not NullTokenValue:
-                                self.append_matching_sequence(matching_sequences, p)
+                        elif await self.get_token_value(token, cur_token_input) is not NullTokenValue:
+                            self.append_matching_sequence(matching_sequences, p)
+                        elif len(completion) > 1:
+                            ambiguous_options = True
                     else:
                         v = await self.get_token_value(token, cur_token_input)
                         if v is not NullTokenValue:
@@ -819,6 +801,8 @@ class CliInterface(StdStreamsHolder):
                         res.result = MATCH_FAILURE
                         res.offending_token = cur_token_input
                         res.error = "Could not match any rule for this sequence"
+                        if ambiguous_options:
+                            res.error = "Ambiguous options matched for the input token: {}".format(cur_token_input)
 
                         if len(tok_list) > len(res.matched_sequence):
                             res.offending_token = tok_list[len(res.matched_sequence)]
-- 
2.43.0


From 8183243881598b0f6ee7fbbbe21fde10335715b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 18/54] fix: a name in an action may begin with a keyword

---
 nessaid_cli/binding_parser/binding_text_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..922473e 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -28,19 +28,19 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
     def t_TRUE(self, t):
-        "True"
+        r"True(?![-a-zA-Z0-9_])"
         return t
 
     def t_FALSE(self, t):
-        "False"
+        r"False(?![-a-zA-Z0-9_])"
         return t
 
     def t_NONE(self, t):
-        "None"
+        r"None(?![-a-zA-Z0-9_])"
         return t
 
     def t_CALL(self, t):
-        "call"
+        r"call(?![-a-zA-Z0-9_])"
         return t
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
-- 
2.43.0


From 5fc3e83ad78dfd1b2afb52d05bdf151b58b4c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 19/54] fix: a string in an action may contain the '>'
 character

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index ab62fb0..70046ed 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -98,7 +98,7 @@ class NessaidCliLexer(NessaidCliLexerCommon):
         return t
 
     def t_BINDING_BOUND_CONTENT(self, t):
-        r'([^>\\])+'
+        r'("([^"\\\n\r]|\\.)*"|/\*(.|\n)*?\*/|(//|\#)([^\n\r>]|>(?!>))*|[^>\\]|>(?!>))+'
         self.update_counters(t)
         return t
 
-- 
2.43.0


From 2feb86a8924a08ad3d9cbd5a0334bf241178165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 20/54] fix: a path with a doubled separator is looked up to
 its end

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 6b2a2e8..fee8ca5 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -648,7 +648,7 @@ class PathToken(StringToken):
 
             segment = segments.pop(0)
             if segment == "":
-                break
+                continue
 
             p.has_dir_completion = False
 
-- 
2.43.0


From 87814018293c19f0fdb83f7f8793efbd24448fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 21/54] fix: a path that several entries complete is delivered
 without its quotes

---
 nessaid_cli/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index fee8ca5..f3151a5 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -525,7 +525,7 @@ class PathToken(StringToken):
         elif n == 1:
             return l[0].path_string
         else:
-            return str_input
+            return await super().get_value(str_input, cli=cli)
 
     async def complete(self, str_input, cli=None): # noqa
         if str_input == "":
-- 
2.43.0


From 7d048f388da134d4c12dae5139aefaa7e251f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 22/54] fix: values of a path token are not cached, the file
 system may change

---
 nessaid_cli/tokens.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index f3151a5..d38a3ad 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -478,6 +478,11 @@ class PathToken(StringToken):
                     drives.append(c + ':')
         return drives
 
+    @property
+    def cacheable(self):
+        # The same text stands for another path when the file system changes
+        return False
+
     @property
     def completable(self):
         return True
-- 
2.43.0


From bd627beba8eec44de96444c0e2c6f8a38c4d823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 23/54] fix: escapes in a path are resolved for the lookup and
 quoted in its completions

---
 nessaid_cli/tokens.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index d38a3ad..2150f16 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -13,6 +13,7 @@ import platform
 from pathlib import Path
 
 from nessaid_cli.utils import (
+    PythonString,
     convert_to_cli_string,
     convert_to_python_string
 )
@@ -523,14 +524,27 @@ class PathToken(StringToken):
             print("\nPermissionError on {}\n".format(path))
             return []
 
+    async def split_input(self, str_input):
+        """The path typed, its escapes resolved, and whether its closing quote is there"""
+        content = await super().get_value(str_input)
+        path_complete = str_input.startswith('"') and len(content) + 2 == len(str_input)
+        return convert_to_python_string(content), path_complete
+
+    def quote_path(self, path_string, path_complete):
+        quoted = convert_to_cli_string(path_string)
+        if not quoted.startswith('"'):
+            quoted = '"' + quoted + '"'
+        return quoted if path_complete else quoted[:-1]
+
     async def get_value(self, str_input, cli=None): # noqa
         _m, n, l, _ = await self.lookup(str_input) # noqa
         if n == 0:
             return NullTokenValue
         elif n == 1:
-            return l[0].path_string
+            return PythonString(l[0].path_string)
         else:
-            return await super().get_value(str_input, cli=cli)
+            path_string, _ = await self.split_input(str_input)
+            return path_string
 
     async def complete(self, str_input, cli=None): # noqa
         if str_input == "":
@@ -543,13 +557,10 @@ class PathToken(StringToken):
 
             options = ['".', '"..', '"' + path_sep]
             children = self.children(os.path.curdir)
-            options += ['"' + c for c in children]
+            options += [self.quote_path(c, False) for c in children]
             return len(options), options
         else:
-            if str_input.startswith('"') and str_input.endswith('"') and len(str_input) > 1:
-                path_complete = True
-            else:
-                path_complete = False
+            _, path_complete = await self.split_input(str_input)
             m, n, l, path_sep = await self.lookup(str_input)
 
             if not path_complete:
@@ -574,14 +585,10 @@ class PathToken(StringToken):
                         if not self.children(l[0].path):
                             path_complete = True
 
-            return n, ['"' + str(elem.path_string) + ('"' if path_complete else "") for elem in l]
+            return n, [self.quote_path(elem.path_string, path_complete) for elem in l]
 
     async def match(self, str_input, cli=None): # noqa
-
-        if str_input.startswith('"') and str_input.endswith('"') and len(str_input) > 1:
-            path_complete = True
-        else:
-            path_complete = False
+        _, path_complete = await self.split_input(str_input)
         m, _n, l, _ = await self.lookup(str_input) # noqa
         if m == MATCH_PARTIAL and len(l) == 1:
             if path_complete:
@@ -591,16 +598,10 @@ class PathToken(StringToken):
         return m
 
     async def lookup(self, str_input):
-        path_complete = False
         if str_input == "":
             return MATCH_PARTIAL, TOO_MANY_COMPLETIONS, [], os.path.pathsep
 
-        if str_input.startswith('"'):
-            str_input = str_input[1:]
-
-            if str_input.endswith('"'):
-                str_input = str_input[:-1]
-                path_complete = True
+        str_input, path_complete = await self.split_input(str_input)
 
         segments = str_input.split(os.path.sep)
         add_drive_mark = ""
-- 
2.43.0


From d958d583b478f0b8239bc4e483dd1bfe850eaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:02 +0000
Subject: [PATCH 24/54] fix: a collection delivered by a cacheable token is not
 changed in the cache by the actions of a line

---
 nessaid_cli/interface.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 028a0c1..9a6c14f 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -643,13 +643,24 @@ class CliInterface(StdStreamsHolder):
 
         return exec_context.root_arglist
 
+    @classmethod
+    def copy_token_value(cls, value):
+        # An action may change a collection it is given, the cached one should stay as it is
+        if type(value) is list:
+            return [cls.copy_token_value(v) for v in value]
+        if type(value) is dict:
+            return {k: cls.copy_token_value(v) for k, v in value.items()}
+        if type(value) is set:
+            return set(value)
+        return value
+
     async def get_token_value(self, token, token_input):
 
         if token.cacheable:
             token_value_key = (token, token_input)
             if token_value_key in self._token_value_cache:
                 self._token_value_hit += 1
-                return self._token_value_cache[token_value_key]
+                return self.copy_token_value(self._token_value_cache[token_value_key])
 
         try:
             self._token_value_miss += 1
@@ -658,7 +669,7 @@ class CliInterface(StdStreamsHolder):
             else:
                 value =  token.get_value(token_input, cli=self)
             if token.cacheable:
-                self._token_value_cache[token_value_key] = value
+                self._token_value_cache[token_value_key] = self.copy_token_value(value)
             return value
         except:
             return NullTokenValue
-- 
2.43.0


From 850b6c97edfdad95ffa5f424a623c252d2e6c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 25/54] fix: overlapping and nested lines each have their own
 matched values

---
 nessaid_cli/interface.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 9a6c14f..a75f409 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -6,6 +6,7 @@
 #
 
 import asyncio
+import contextvars
 
 from nessaid_cli.utils import StdStreamsHolder, PythonString, convert_to_python_string
 
@@ -371,6 +372,7 @@ class CliInterface(StdStreamsHolder):
         self._grammars = grammarset
         self._grammar_stack = []
         self._token_class_map = None
+        self._task_matched_values = contextvars.ContextVar("matched_values", default=None)
         self._matched_values = []
 
         self._str_cache = {}
@@ -551,6 +553,7 @@ class CliInterface(StdStreamsHolder):
         raise NotImplementedError
 
     async def execute_binding_call(self, func_name: str, local_function: bool, *args, **kwarg):
+        matched_values = self._matched_values
         try:
             ext_args = args
 
@@ -570,6 +573,9 @@ class CliInterface(StdStreamsHolder):
             return res
         except Exception as e:
             self.error("Exception executing binding call:", type(e), e)
+        finally:
+            # The function may have executed other lines
+            self._matched_values = matched_values
 
     async def execute_success_sequence(self, matched_sequence, match_values, arglist):
 
@@ -674,6 +680,17 @@ class CliInterface(StdStreamsHolder):
         except:
             return NullTokenValue
 
+    @property
+    def _matched_values(self):
+        # Lines executed by other tasks at the same time have their own values
+        values = self._task_matched_values.get()
+        return self._last_matched_values if values is None else values
+
+    @_matched_values.setter
+    def _matched_values(self, values):
+        self._task_matched_values.set(values)
+        self._last_matched_values = values
+
     def get_matched_values(self):
         return self._matched_values.copy()
 
-- 
2.43.0


From 3e0f0267f48d3542633094b5bf8eb7fc8cf22f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 26/54] fix: a CLI is executing until the last of its
 overlapping or nested commands is done

---
 nessaid_cli/interface.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index a75f409..2d3d7b7 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -380,7 +380,7 @@ class CliInterface(StdStreamsHolder):
         self._str_cache_size = str_cache_size
         self._token_value_cache_size = token_value_cache_size
 
-        self._executing = False
+        self._executing = 0
 
     @property
     def loop(self):
@@ -388,7 +388,7 @@ class CliInterface(StdStreamsHolder):
 
     @property
     def executing(self):
-        return self._executing
+        return self._executing > 0
 
     @property
     def current_grammar(self):
@@ -911,10 +911,10 @@ class CliInterface(StdStreamsHolder):
                                     tok_index += 1
                                 res.matched_values = match_values
                                 try:
-                                    self._executing = True
+                                    self._executing += 1
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
-                                    self._executing = False
+                                    self._executing -= 1
                                 arglen = len(arglist)
                                 for i in range(arglen):
                                     arglist[i] = root_arglist.pop(0)
-- 
2.43.0


From 2b2c90ef716206d5471016ec723b870a91d647dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 27/54] fix: a line executed by a handler while profiling is on
 does not fail

---
 nessaid_cli/cmd.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index cfb8208..1e515ca 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -432,9 +432,18 @@ class NessaidCmd(NessaidCli):
 
         start = time.time()
         if self._enable_profiling:
-            with cProfile.Profile() as pr:
+            pr = cProfile.Profile()
+            try:
+                pr.enable()
+            except ValueError:
+                # Already profiling the line whose handler executes this one
+                pr = None
+            try:
                 res = await super().match(tok_list, dry_run, last_token_complete, arglist)
-            if self._enable_profiling and enable_profiling:
+            finally:
+                if pr:
+                    pr.disable()
+            if pr and self._enable_profiling and enable_profiling:
                 stats = pstats.Stats(pr)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-- 
2.43.0


From 6c7a4135d5bd9cecde57c65cb1556ce8fabf9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 28/54] fix: a handler that executed a line finds the matched
 values of its own line

---
 nessaid_cli/interface.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 2d3d7b7..c27538b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -373,6 +373,7 @@ class CliInterface(StdStreamsHolder):
         self._grammar_stack = []
         self._token_class_map = None
         self._task_matched_values = contextvars.ContextVar("matched_values", default=None)
+        self._caller_matched_values = contextvars.ContextVar("caller_matched_values", default=None)
         self._matched_values = []
 
         self._str_cache = {}
@@ -553,7 +554,7 @@ class CliInterface(StdStreamsHolder):
         raise NotImplementedError
 
     async def execute_binding_call(self, func_name: str, local_function: bool, *args, **kwarg):
-        matched_values = self._matched_values
+        caller = self._caller_matched_values.set(self._matched_values)
         try:
             ext_args = args
 
@@ -574,8 +575,7 @@ class CliInterface(StdStreamsHolder):
         except Exception as e:
             self.error("Exception executing binding call:", type(e), e)
         finally:
-            # The function may have executed other lines
-            self._matched_values = matched_values
+            self._caller_matched_values.reset(caller)
 
     async def execute_success_sequence(self, matched_sequence, match_values, arglist):
 
@@ -713,6 +713,15 @@ class CliInterface(StdStreamsHolder):
             return 0, []
 
     async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
+        try:
+            return await self.match_line(tok_list, dry_run=dry_run, last_token_complete=last_token_complete, arglist=arglist)
+        finally:
+            # Back to the values of the line whose handler executed this one
+            caller_matched_values = self._caller_matched_values.get()
+            if caller_matched_values is not None:
+                self._matched_values = caller_matched_values
+
+    async def match_line(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
 
         self._token_hit = 0
         self._token_miss = 0
-- 
2.43.0


From 303dcfbf269af918623f9d05d6cfa5c55d8daec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 29/54] fix: escapes are resolved in the matched values a token
 or handler asks for

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index c27538b..2c41430 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -692,7 +692,7 @@ class CliInterface(StdStreamsHolder):
         self._last_matched_values = values
 
     def get_matched_values(self):
-        return self._matched_values.copy()
+        return [convert_to_python_string(v, cli=self) if type(v) is str else v for v in self._matched_values]
 
     async def match_token(self, token, token_input):
         try:
-- 
2.43.0


From 1f9a35ff555bc05d6ec5834fe4ca70747e3c96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 30/54] fix: a token whose help fails does not take the line
 down

---
 nessaid_cli/interface.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 2c41430..1d35392 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -129,7 +129,7 @@ class ParsingResult():
 
         for t in tokens:
             if t:
-                helpstring = await t.get_helpstring(cur_input if cur_input else "", cli=cli)
+                helpstring = await cli.get_token_helpstring(t, cur_input if cur_input else "")
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
@@ -138,7 +138,7 @@ class ParsingResult():
                         if t.case_insensitive:
                             self.case_insensitive = True
                         for c in completions:
-                            h = await t.get_helpstring(str(c), cli=cli)
+                            h = await cli.get_token_helpstring(t, str(c))
                             next_tokens.add(TokenCompletion(str(c), h))
                 else:
                     next_tokens.add(TokenCompletion(None, helpstring))
@@ -712,6 +712,12 @@ class CliInterface(StdStreamsHolder):
         except:
             return 0, []
 
+    async def get_token_helpstring(self, token, token_input):
+        try:
+            return await token.get_helpstring(token_input, cli=self)
+        except:
+            return str(token)
+
     async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
         try:
             return await self.match_line(tok_list, dry_run=dry_run, last_token_complete=last_token_complete, arglist=arglist)
-- 
2.43.0


From 09a58a39389bd92e5d503a5635b55172b602c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 31/54] fix: a command is not run with a token whose value
 could not be had

---
 nessaid_cli/interface.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 1d35392..9ebf9c7 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -924,6 +924,11 @@ class CliInterface(StdStreamsHolder):
                                     match_values.append(match_value)
                                     self._matched_values.append(match_value)
                                     tok_index += 1
+                                if any(v is NullTokenValue for v in match_values):
+                                    res.result = MATCH_FAILURE
+                                    res.error = "A token of the input has no value"
+                                    self.clear_caches()
+                                    return res
                                 res.matched_values = match_values
                                 try:
                                     self._executing += 1
-- 
2.43.0


From 552040eabe3d50e67c24a8e27b8579c39be57cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 32/54] fix: a token that could not be created is tried again
 for the next line

---
 nessaid_cli/interface.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 9ebf9c7..152b93c 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -371,6 +371,7 @@ class CliInterface(StdStreamsHolder):
         self._tokens = {}
         self._grammars = grammarset
         self._grammar_stack = []
+        self._failed_tokens = set()
         self._token_class_map = None
         self._task_matched_values = contextvars.ContextVar("matched_values", default=None)
         self._caller_matched_values = contextvars.ContextVar("caller_matched_values", default=None)
@@ -442,6 +443,7 @@ class CliInterface(StdStreamsHolder):
 
         if (name, helpstring) not in self._tokens:
             self._token_miss += 1
+            failed = False
             tokendef = self._grammars.get_tokendef(name)
             if tokendef:
                 if self._token_class_map is None:
@@ -454,6 +456,7 @@ class CliInterface(StdStreamsHolder):
                             name, *tokendef.arglist, cli=self, helpstring=helpstring)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
+                        failed = True
                         self.error("Exception creating token object from token def:", e)
 
                 _globals = globals()
@@ -463,8 +466,11 @@ class CliInterface(StdStreamsHolder):
                             name, *tokendef.arglist, cli=self, helpstring=helpstring)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
+                        failed = True
                         self.error("Exception creating token object from token def:", e)
             self._tokens[(name, helpstring)] = self.create_cli_token(name, tokendef=tokendef, helpstring=helpstring)
+            if failed:
+                self._failed_tokens.add((name, helpstring))
         else:
             self._token_hit += 1
 
@@ -729,6 +735,10 @@ class CliInterface(StdStreamsHolder):
 
     async def match_line(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
 
+        # Tokens that could not be created are tried again for each line
+        while self._failed_tokens:
+            self._tokens.pop(self._failed_tokens.pop(), None)
+
         self._token_hit = 0
         self._token_miss = 0
         self._token_value_hit = 0
-- 
2.43.0


From 9ddd6d621465b33f10f2818c5037985e086e9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 33/54] fix: every argument of the OS command line is one
 token, whatever characters it has

---
 nessaid_cli/cmd.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 1e515ca..e8d4a33 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -21,6 +21,7 @@ from datetime import datetime
 
 from nessaid_cli.compiler import compile_grammar
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
+from nessaid_cli.utils import convert_to_cli_string
 from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
 
 
@@ -374,24 +375,16 @@ class NessaidCmd(NessaidCli):
         cmd = cls(prompt="# ", show_grammar=False)
         return await cmd.exec_line(line)
 
-    def exec_args(self, *args):
-        modified_args = []
-        chars_to_check = [" "]
-        for arg in args:
-            if not (arg.startswith('"') and arg.endswith('"')):
-                need_quoting = False
-                for c in chars_to_check:
-                    if arg.strip():
-                        if c in arg:
-                            need_quoting = True
-                            break
-                if need_quoting:
-                    modified_args.append('"' + arg + '"')
-                    continue
-            modified_args.append(arg)
+    def quote_arg(self, arg):
+        """The argument as a single token of the command line, an argument that is a quoted token already is left as it is"""
+        if arg.strip(" \t"):
+            success, _, tokens = self.tokenize(arg)
+            if not success or len(tokens) != 1 or tokens[0] != arg or tokens[0].quote_incomplete:
+                return convert_to_cli_string(arg)
+        return arg
 
-        args = modified_args
-        line = " ".join(args)
+    def exec_args(self, *args):
+        line = " ".join([self.quote_arg(arg) for arg in args])
         return self.loop.run_until_complete(self.exec_line(line))
 
     @property
-- 
2.43.0


From c486309a063c197e589c9d8b495f1a927590eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 34/54] fix: a mixin class does not hide the grammar of the
 command classes after it

---
 nessaid_cli/cmd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index e8d4a33..15a2513 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -209,8 +209,6 @@ class NessaidCmd(NessaidCli):
                         grammar_texts.append(base_class.__doc__)
                 else:
                     break
-            else:
-                break
         grammar_texts = reversed(grammar_texts)
 
         if grammar_texts:
-- 
2.43.0


From ff3f8aa461f025c32446efa905f3ae17a4c9c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 35/54] fix: a comment at the end of the grammar of a class
 does not hide the grammar that follows it

---
 nessaid_cli/cmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 15a2513..42329aa 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -132,7 +132,7 @@ class NessaidCmd(NessaidCli):
         else:
             grammar_text = ""
 
-        grammar_text += self.base_class_grammar
+        grammar_text += self.base_class_grammar + "\n\n"
 
         grammar_text += self.global_grammar
 
@@ -192,7 +192,7 @@ class NessaidCmd(NessaidCli):
     def global_grammar(self):
         grammar = ""
         if self._use_parent_grammar and self.parent:
-            grammar += self.parent.global_grammar
+            grammar += self.parent.global_grammar + "\n\n"
         grammar += self.__doc__ if self.__doc__ else ""
         return grammar
 
-- 
2.43.0


From 4737e6ebeaa1303468e491e94ac904eca636b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 36/54] fix: an empty command file does not hold up the lines
 of the files that load it

---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..b61ad21 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -460,7 +460,8 @@ class NessaidCli(CliInterface):
         try:
             with open(filename) as fd:
                 lines = [l.rstrip() for l in fd.readlines()]
-                self.file_data.append(lines)
+                if lines:
+                    self.file_data.append(lines)
         except Exception as e:
             self.error("Exception processing input file:", filename, type(e), e)
 
-- 
2.43.0


From a5e249180d881bc8164316792dec52078467ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 37/54] fix: an interrupted line does not become the beginning
 of the next one

---
 nessaid_cli/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index b61ad21..34996be 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -524,6 +524,9 @@ class NessaidCli(CliInterface):
                     else:
                         line = await self.get_next_line(self.prompt)
                 except NessaidReadlineKeyboadInterrupt:
+                    # The line being typed is given up along with the parts already joined to it
+                    self._partial_line = False
+                    self._effective_line = ""
                     await self.handle_keyboard_interrupt()
                     continue
                 except NessaidReadlineEOF:
-- 
2.43.0


From a97e937c9c763adc4791e0c8d06c40d84a4bcebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 38/54] fix: a line passed on by the context opened at the
 start can open a context too

---
 nessaid_cli/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 34996be..5430778 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -505,13 +505,14 @@ class NessaidCli(CliInterface):
                 child_cli = self.child_cli
                 try:
                     await child_cli.context_loop()
+                    self.child_cli = None
                 except ChildCliExitException as e:
+                    self.child_cli = None
                     match_output = await self.match(
                         e.token_list, dry_run=e.dry_run,
                         last_token_complete=e.last_token_complete, arglist=e.arglist
                     )
-                finally:
-                    self.child_cli = None
+                    self.process_cli_response(e.token_list, match_output)
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From b22d6298cea1ce65c243a089e948cfaa065c1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 39/54] fix: a context opened before the loop starts is entered

---
 nessaid_cli/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 5430778..7475845 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -491,14 +491,14 @@ class NessaidCli(CliInterface):
         self.enter_grammar(grammarname)
 
         try:
+            self._child_cli = None
+
             await self.preloop()
             await self.cli_exec_init()
             if intro is not None:
                 self.stdout.write(str(intro)+"\n")
                 self.stdout.flush()
 
-            self._child_cli = None
-
             await self.postintro()
 
             while self.child_cli:
-- 
2.43.0


From 2f24fbedbb8e18c4ef02fd24bcb058bbc5810562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 40/54] fix: an error of an exit hook does not leave the loop
 half way

---
 nessaid_cli/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 7475845..3857b35 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -589,7 +589,10 @@ class NessaidCli(CliInterface):
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
         finally:
-            await self.on_exit()
+            try:
+                await self.on_exit()
+            except Exception as e:
+                self.error("Exception on exit:", type(e), e)
             self._exit_loop = False
             self.exit_grammar()
             self._running = False
-- 
2.43.0


From 9a7c42e44a789e8df7f35fa2100a62984060c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 41/54] fix: the exit hook of a context runs once when a line
 is passed on to its parent

---
 nessaid_cli/cmd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 42329aa..b80ed27 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -476,7 +476,6 @@ class NessaidCmd(NessaidCli):
                 if dry_run:
                     return parent_resp
                 else:
-                    await self.on_exit()
                     raise ChildCliExitException(
                         tok_list=tok_list, dry_run=dry_run,
                         last_token_complete=last_token_complete, arglist=arglist
-- 
2.43.0


From eb9fe532b88713ec38596274d57de98ea7d48ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 42/54] fix: a context is left for its parent exactly when the
 parent executes the line

---
 nessaid_cli/cmd.py       | 26 ++++++++++----------------
 nessaid_cli/interface.py |  6 ++++++
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index b80ed27..a679601 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -22,7 +22,7 @@ from datetime import datetime
 from nessaid_cli.compiler import compile_grammar
 from nessaid_cli.cli import NessaidCli, ChildCliExitException, CliAlreadyRunning
 from nessaid_cli.utils import convert_to_cli_string
-from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE, MATCH_PARTIAL, MATCH_AMBIGUOUS
+from nessaid_cli.tokens import RangedIntToken, StringToken, MATCH_SUCCESS, MATCH_FAILURE
 
 
 class NessaidCmd(NessaidCli):
@@ -460,26 +460,20 @@ class NessaidCmd(NessaidCli):
 
     async def match(self, tok_list, dry_run=False, last_token_complete=False, arglist=None):
         resp = await self._match(tok_list, dry_run=dry_run, last_token_complete=last_token_complete, arglist=arglist)
-        if resp.result != MATCH_SUCCESS and self._match_parent_grammar:
+        if resp.result != MATCH_SUCCESS and self._match_parent_grammar and self.parent:
             parent_resp = await self.parent.match(
                 tok_list=tok_list, dry_run=True,
                 last_token_complete=last_token_complete, arglist=arglist
             )
-            if resp.result == MATCH_FAILURE:
-                if parent_resp.result == MATCH_FAILURE:
-                    parent_resp = None
-            elif resp.result in [MATCH_PARTIAL, MATCH_AMBIGUOUS]:
-                if parent_resp.result != MATCH_SUCCESS:
-                    parent_resp = None
-
-            if parent_resp is not None:
-                if dry_run:
+            if dry_run:
+                if resp.result == MATCH_FAILURE and parent_resp.result != MATCH_FAILURE:
                     return parent_resp
-                else:
-                    raise ChildCliExitException(
-                        tok_list=tok_list, dry_run=dry_run,
-                        last_token_complete=last_token_complete, arglist=arglist
-                    )
+                resp.accepted = resp.accepted or parent_resp.accepted
+            elif parent_resp.accepted:
+                raise ChildCliExitException(
+                    tok_list=tok_list, dry_run=dry_run,
+                    last_token_complete=last_token_complete, arglist=arglist
+                )
         return resp
 
     def do__profile(self, enable_profiling):
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 152b93c..ae4c4d2 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -72,6 +72,8 @@ class ParsingResult():
         self.next_constant_token = None
         self.matched_values = []
         self.case_insensitive = False
+        # Set in a dry run, the line as it is would be executed
+        self.accepted = False
 
     def as_dict(self):
         return {
@@ -963,6 +965,10 @@ class CliInterface(StdStreamsHolder):
                         return res
                     else:
                         res.result = MATCH_PARTIAL
+                        if complete_sequences:
+                            if len(complete_sequences) > 1:
+                                complete_sequences = await self.fix_sequences(complete_sequences, tok_list)
+                            res.accepted = len(complete_sequences) == 1
                         self.clear_caches()
                         return res
             else:
-- 
2.43.0


From 1e9965fd7f977742591a7101c1defdd1e4ee46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:20 +0000
Subject: [PATCH 43/54] fix: an error of a context opened at the start does not
 end the CLI

---
 nessaid_cli/cli.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 3857b35..1800058 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -504,15 +504,21 @@ class NessaidCli(CliInterface):
             while self.child_cli:
                 child_cli = self.child_cli
                 try:
-                    await child_cli.context_loop()
-                    self.child_cli = None
+                    try:
+                        await child_cli.context_loop()
+                        self.child_cli = None
+                    except ChildCliExitException as e:
+                        self.child_cli = None
+                        match_output = await self.match(
+                            e.token_list, dry_run=e.dry_run,
+                            last_token_complete=e.last_token_complete, arglist=e.arglist
+                        )
+                        self.process_cli_response(e.token_list, match_output)
                 except ChildCliExitException as e:
+                    raise e
+                except Exception as e:
                     self.child_cli = None
-                    match_output = await self.match(
-                        e.token_list, dry_run=e.dry_run,
-                        last_token_complete=e.last_token_complete, arglist=e.arglist
-                    )
-                    self.process_cli_response(e.token_list, match_output)
+                    self.error("Exception in the context:", type(e), e)
 
             self._partial_line = False
             self._effective_line = ""
-- 
2.43.0


From c1325e5c49ea79643a81af6ec5171b5f5a68748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 44/54] fix: the description of a free value is not typed into
 the line by TAB

---
 nessaid_cli/interface.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index ae4c4d2..5cc1325 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -124,6 +124,8 @@ class ParsingResult():
 
     async def set_next_tokens(self, cli, cur_input, tokens):
         add_EOI = False
+        # Not all that can come next is listed, some is only described
+        free_form = False
         tokens = list(tokens)
         next_tokens = set()
         self.last_token = None
@@ -135,6 +137,7 @@ class ParsingResult():
                 if t.completable:
                     _, completions = await cli.complete_token(t, cur_input if cur_input else "")
                     if not completions:
+                        free_form = True
                         next_tokens.add(TokenCompletion(None, helpstring))
                     else:
                         if t.case_insensitive:
@@ -143,6 +146,7 @@ class ParsingResult():
                             h = await cli.get_token_helpstring(t, str(c))
                             next_tokens.add(TokenCompletion(str(c), h))
                 else:
+                    free_form = True
                     next_tokens.add(TokenCompletion(None, helpstring))
             else:
                 add_EOI = True
@@ -151,7 +155,7 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and not free_form:
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From 0447c2545b2ebe0fb8847019850fcb7a1256189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 45/54] fix: an undeclared name is a plain token that has to be
 typed, with its help

---
 nessaid_cli/compiler.py |  2 +-
 nessaid_cli/elements.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 70046ed..5416a42 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -415,7 +415,7 @@ class NessaidCliParser(NessaidCliParserCommon):
             t[0] = elem
             return
 
-        elem = UnresolvedInputElement(identifier)
+        elem = UnresolvedInputElement(identifier, helpstring=helpstring)
         self._grammar_spec.add_unresolved_element(elem)
         t[0] = elem
 
diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index 07b16ca..d498589 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -463,8 +463,8 @@ class GrammarRefElement(InputElement):
 
 class UnresolvedInputElement(InputElement):
 
-    def __init__(self, keyword, arglist=None):
-        super().__init__()
+    def __init__(self, keyword, arglist=None, helpstring=None):
+        super().__init__(helpstring)
         if isinstance(keyword, str):
             self._value = keyword
         else:
@@ -480,10 +480,14 @@ class UnresolvedInputElement(InputElement):
         return self._arglist
 
     def copy(self):
-        cp = UnresolvedInputElement(self._value)
+        cp = UnresolvedInputElement(self._value, self._arglist, helpstring=self.helpstring)
         self.copy_extras(cp)
         return cp
 
+    @property
+    def mandatory(self):
+        return True
+
 
 class TokenClassDef():
 
-- 
2.43.0


From 40303932c7602eab4a39e82e129f2c47c293de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 46/54] fix: a reference to an undefined grammar is rejected
 instead of becoming a token

---
 nessaid_cli/compiler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 5416a42..b62a4c4 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -7,6 +7,7 @@
 
 
 from nessaid_cli.lex_yacc_common import (
+    CliSyntaxError,
     NessaidCliLexerCommon,
     NessaidCliParserCommon,
 )
@@ -448,12 +449,10 @@ class NessaidCliParser(NessaidCliParserCommon):
             arguments = []
 
         grammar = self._grammar_spec.get_grammar(grammarref)
-        if grammar:
-            elem = GrammarRefElement(grammar, arguments)
-        else:
-            elem = UnresolvedInputElement(grammarref, arguments)
-            self._grammar_spec.add_unresolved_element(elem)
-        t[0] = elem
+        if not grammar:
+            raise CliSyntaxError("Grammar {} is referenced but not defined before".format(grammarref))
+
+        t[0] = GrammarRefElement(grammar, arguments)
 
     def p_optional_argument_sequence(self, t):
         """optional_argument_sequence : argument_sequence
-- 
2.43.0


From be68ace0e7458ace1aa453e288f4adbe658d2134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:12 +0000
Subject: [PATCH 47/54] fix: an unused token of a grammar text is reported as
 the syntax error it is

---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b62a4c4..7689f00 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -690,7 +690,7 @@ class NessaidCliParser(NessaidCliParserCommon):
                         | QUOTED_INCOMPLETE_STR
                         | quoted_split_string"""
         print("Syntax error (Unused token)")
-        self.p_error(t)
+        self.p_error(t.slice[1])
 
     def parse(self, input_str):
         self.lexer.enter_state(NessaidCliLexer.INITIAL_STATE)
-- 
2.43.0


From 4d7a72e640061ed083297db20cde8f196216a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 48/54] fix: a stray token in an action is rejected instead of
 dropped

---
 nessaid_cli/binding_parser/binding_text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 922473e..67bb642 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -199,7 +199,7 @@ class NessaidCliBindingParser(NessaidCliParserCommon):
                         | quoted_split_string
                         | eof"""
         print("Syntax error (Unused token)")
-        pass
+        self.p_error(t.slice[1])
 
     def __init__(self, filename="", starting_lineno=1, stdin=None, stdout=None, stderr=None):
         self._filename = filename
-- 
2.43.0


From 84a4488bbd1eaf6d933313419d3f3ad9482a6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 49/54] fix: a blank inside an open quote belongs to the word
 TAB completes

With 'pick "red ' and TAB the word being typed was taken for finished: nothing
was suggested and nothing could be completed inside the quote.
---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 1800058..33fd228 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -240,7 +240,8 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
+        # A blank inside a quote that is not closed yet belongs to the token being typed
+        if line and line[-1] in TOKEN_SEPARATORS and not (tokens and tokens[-1].quote_incomplete):
             last_token_complete = True
         else:
             last_token_complete = False
-- 
2.43.0


From db115fbcb5214c948c68627696e71ee04f524d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:15 +0000
Subject: [PATCH 50/54] fix: a named argument of a token declaration goes to
 the parameter of that name

---
 nessaid_cli/elements.py  | 7 ++++++-
 nessaid_cli/interface.py | 8 ++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/elements.py b/nessaid_cli/elements.py
index d498589..1db61e3 100644
--- a/nessaid_cli/elements.py
+++ b/nessaid_cli/elements.py
@@ -493,12 +493,17 @@ class TokenClassDef():
 
     def __init__(self, classname, arglist):
         self._classname = classname
-        self._arglist = [arg.value for arg in arglist]
+        self._arglist = [arg.value for arg in arglist if not arg.param_name]
+        self._kwargs = {arg.param_name: arg.value for arg in arglist if arg.param_name}
 
     @property
     def classname(self):
         return self._classname
 
+    @property
+    def kwargs(self):
+        return self._kwargs
+
     @property
     def arglist(self):
         return self._arglist
diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 5cc1325..7dfcd4f 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -452,6 +452,10 @@ class CliInterface(StdStreamsHolder):
             failed = False
             tokendef = self._grammars.get_tokendef(name)
             if tokendef:
+                kwargs = dict(tokendef.kwargs, cli=self)
+                if helpstring is not None or 'helpstring' not in kwargs:
+                    kwargs['helpstring'] = helpstring
+
                 if self._token_class_map is None:
                     token_classes = self.get_base_token_classes() + self.get_token_classes()
                     self._token_class_map = {t.__name__: t for t in token_classes}
@@ -459,7 +463,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in self._token_class_map:
                     try:
                         self._tokens[(name, helpstring)] = self._token_class_map[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, **kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         failed = True
@@ -469,7 +473,7 @@ class CliInterface(StdStreamsHolder):
                 if tokendef.classname in _globals:
                     try:
                         self._tokens[(name, helpstring)] =  _globals[tokendef.classname](
-                            name, *tokendef.arglist, cli=self, helpstring=helpstring)
+                            name, *tokendef.arglist, **kwargs)
                         return self._tokens[(name, helpstring)]
                     except Exception as e:
                         failed = True
-- 
2.43.0


From 0c2c3d2c1a7ee65a2b5aa46dd8268e24dadbb2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 51/54] fix: profiles and memory differences are printed to the
 output stream of the CLI

---
 nessaid_cli/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index a679601..63ca1ef 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -268,7 +268,7 @@ class NessaidCmd(NessaidCli):
                 return
             top_stats = snapshot.compare_to(self.last_tracemalloc_snapshot, key_type)
             for stat in top_stats[:limit]:
-                print(stat)
+                print(stat, file=self.stdout)
 
         self.last_tracemalloc_snapshot = snapshot
 
@@ -435,13 +435,13 @@ class NessaidCmd(NessaidCli):
                 if pr:
                     pr.disable()
             if pr and self._enable_profiling and enable_profiling:
-                stats = pstats.Stats(pr)
+                stats = pstats.Stats(pr, stream=self.stdout)
                 stats.sort_stats('cumtime')
                 stats.print_stats()
-                print("Token Hit:", self._token_hit)
-                print("Token Miss:", self._token_miss)
-                print("Token Value Hit:", self._token_value_hit)
-                print("Token Value Miss:", self._token_value_miss)
+                print("Token Hit:", self._token_hit, file=self.stdout)
+                print("Token Miss:", self._token_miss, file=self.stdout)
+                print("Token Value Hit:", self._token_value_hit, file=self.stdout)
+                print("Token Value Miss:", self._token_value_miss, file=self.stdout)
         else:
             res = await super().match(tok_list, dry_run, last_token_complete, arglist)
         end = time.time()
-- 
2.43.0


From 06f5656bb18c42308414fbc17419cd778b6a0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:01 +0000
Subject: [PATCH 52/54] fix: a decimal can begin with its point or a plus sign

---
 nessaid_cli/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 2150f16..c8ffb3f 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -370,9 +370,9 @@ class RangedDecimalToken(CliToken):
 
     async def match(self, token_input, cli=None): # noqa
         if isinstance(token_input, str):
-            if token_input == "":
+            if token_input in ("", "+", ".", "+."):
                 return MATCH_PARTIAL
-            if token_input == "-":
+            if token_input in ("-", "-."):
                 if self._start >= 0 :
                     return MATCH_FAILURE
                 return MATCH_PARTIAL
-- 
2.43.0


From 66b4c37b75037a2a888e79500167b262bd87474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:02 +0000
Subject: [PATCH 53/54] fix: a context gets and gives back the settings of the
 terminal when it is entered and left

---
 nessaid_cli/cli.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 33fd228..5573447 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -38,12 +38,17 @@ class ParentBackup():
         self._cli = cli
         self._parent = cli.parent
         self._readline = readline
-        self._enable_bell = readline._enable_bell
+        self._saved = None
+
+    def save(self):
+        self._saved = (self._readline._prepare_history_entry, self._readline._history_size, self._readline._enable_bell)
 
     async def restore(self):
-        self._readline.set_prepare_history_entry(lambda entry: entry.strip())
-        self._readline.set_history_size(self._parent._history_size)
-        self._readline.enable_bell(self._enable_bell)
+        if self._saved:
+            prepare_history_entry, history_size, enable_bell = self._saved
+            self._readline.set_prepare_history_entry(prepare_history_entry)
+            self._readline.set_history_size(history_size)
+            self._readline.enable_bell(enable_bell)
         self._parent._exec_inited = False
         await self._parent.cli_exec_init()
 
@@ -62,6 +67,7 @@ class NessaidCli(CliInterface):
 
         self._history_size = history_size
 
+        self._parent_backup = None
         if not parent:
             self._readline = NessaidAsyncReadline(loop=self.loop, stdin=self.stdin, stdout=self.stdout, stderr=self.stderr)
             self._readline.set_prepare_history_entry(lambda entry: entry.strip())
@@ -70,7 +76,10 @@ class NessaidCli(CliInterface):
             self._parent_backup = ParentBackup(self, parent.readline)
             self._readline = parent.readline
 
-        self._readline.enable_bell(enable_bell)
+        # A context switches the bell when it is entered
+        self._enable_bell = enable_bell
+        if not parent:
+            self._readline.enable_bell(enable_bell)
 
         self._complete_tokens_processor =  self.process_completion_tokens
 
@@ -494,6 +503,10 @@ class NessaidCli(CliInterface):
         try:
             self._child_cli = None
 
+            if self._parent_backup:
+                self._parent_backup.save()
+                self._readline.enable_bell(self._enable_bell)
+
             await self.preloop()
             await self.cli_exec_init()
             if intro is not None:
-- 
2.43.0


From 549bd30161ede325e4bb000d692e73dc742ab9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:00 +0000
Subject: [PATCH 54/54] fix: system-info where the frequency of the processor
 is not known

---
 nessaid_cli/cmd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/cmd.py b/nessaid_cli/cmd.py
index 63ca1ef..4a22897 100644
--- a/nessaid_cli/cmd.py
+++ b/nessaid_cli/cmd.py
@@ -523,9 +523,11 @@ class NessaidCmd(NessaidCli):
         self.print("Total cores:", psutil.cpu_count(logical=True))
         # CPU frequencies
         cpufreq = psutil.cpu_freq()
-        self.print(f"Max Frequency: {cpufreq.max:.2f}Mhz")
-        self.print(f"Min Frequency: {cpufreq.min:.2f}Mhz")
-        self.print(f"Current Frequency: {cpufreq.current:.2f}Mhz")
+        if cpufreq:
+            # Not every system tells
+            self.print(f"Max Frequency: {cpufreq.max:.2f}Mhz")
+            self.print(f"Min Frequency: {cpufreq.min:.2f}Mhz")
+            self.print(f"Current Frequency: {cpufreq.current:.2f}Mhz")
         # CPU usage
         self.print("CPU Usage Per Core:")
         for i, percentage in enumerate(psutil.cpu_percent(percpu=True, interval=1)):
-- 
2.43.0

