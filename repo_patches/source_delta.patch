From 2d9b282ab48c2134d5986547a8873b1c26e049b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 01/16] fix: dec() inline binding function decrements its
 argument

The README documents dec(arg) as returning arg - 1; it returned arg + 1.
---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index bf27a1d..8cd5c52 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -502,7 +502,7 @@ class CliInterface(StdStreamsHolder):
         if func_name == 'dec':
             r = args[0]
             try:
-                r = r + 1
+                r = r - 1
             except Exception:
                 pass
             return r
-- 
2.43.0


From 8985afc8c87e9022d214c30b7e6218db3e80b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 02/16] fix: RangedIntToken accepts negative integers

isnumeric() is False for a string with a sign, so no negative number was ever
matched or completed and the code handling them was unreachable. The
completions for a bare '-' were ints instead of strings and included 0.
---
 nessaid_cli/tokens.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index 73120e4..efacca1 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -290,7 +290,8 @@ class RangedIntToken(CliToken):
 
     async def get_value(self, match_string=None, cli=None): # noqa
         try:
-            if match_string.isnumeric():
+            digits = match_string[1:] if match_string.startswith("-") else match_string
+            if digits.isnumeric():
                 number = int(match_string)
                 if number >= self._start and number <= self._end:
                     return number
@@ -387,13 +388,13 @@ class RangedIntToken(CliToken):
                 if self._start >= 0:
                     return 0, []
                 if self._end >= 0:
-                    comp_args = [0, -self._start, 0]
+                    comp_args = [1, -self._start, 0]
                 else:
                     comp_args = [-self._end, -self._start, 0]
                 n, comps = await self._complete(*comp_args)
                 if n > 0 and not comps:
                     return TOO_MANY_COMPLETIONS, []
-                return n, [-c for c in comps]
+                return n, [str(-c) for c in comps]
             elif token_input == '':
                 count = self._end - self._start + 1
                 if count > 10:
@@ -410,7 +411,8 @@ class RangedIntToken(CliToken):
 
             else:
                 try:
-                    if token_input.isnumeric():
+                    digits = token_input[1:] if token_input.startswith("-") else token_input
+                    if digits.isnumeric():
                         number = int(token_input)
                     else:
                         return 0, []
-- 
2.43.0


From 9f91234554b1f7e2f2a239609ea5edd3db1e0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/16] fix: RangedIntToken input '0' is a number, not an empty
 prefix

_complete() takes the number 0 to mean that no digit was typed, so '0' was
completed with values that do not start with it, even when 0 is out of range.
---
 nessaid_cli/tokens.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index efacca1..aa5a7b3 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -419,9 +419,12 @@ class RangedIntToken(CliToken):
                 except Exception:
                     return 0, []
 
-                if number < 0 or token_input.startswith("-"):
-                    if number == 0 and self._start == 0:
+                if number == 0:
+                    if self._start <= 0 and self._end >= 0:
                         return 1, ["0"]
+                    return 0, []
+
+                if number < 0 or token_input.startswith("-"):
                     if self._start >= 0:
                         return 0, []
                     if self._end >= 0:
-- 
2.43.0


From dd4654b08ee7d2211860086d576a0c9f90f69e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 04/16] fix: a (0:n) repeater accepts every count from 0 to n

It was compiled to an optional block holding n mandatory repetitions, which
accepts only 0 or exactly n of them.
---
 nessaid_cli/compiler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index b3404c9..91b6575 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -224,12 +224,12 @@ class NessaidCliParser(NessaidCliParserCommon):
                 t[0] = OptionalInputElement((term,))
                 term.parent = t[0]
             else:
-                t0 = SequenceInputElement((term,))
-                term.parent = t0
-                term.position = 0
-                t0.repeat_count = max_count
-                t[0] = OptionalInputElement((t0,))
-                t0.parent = t[0]
+                opt_block = OptionalInputElement((term,))
+                term.parent = opt_block
+                t[0] = SequenceInputElement((opt_block,))
+                t[0].repeat_count = max_count
+                opt_block.parent = t[0]
+                opt_block.position = 0
             return
 
         term_copy = term.copy()
-- 
2.43.0


From d4c9379081d86b3e08a0d245eb32a0556eacd230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/16] fix: an optional block keeps the repeat count of the
 rule it holds

{(x) * (n)} took over the elements of the repeated sequence but not its
repeat count, so it accepted a single x.
---
 nessaid_cli/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/compiler.py b/nessaid_cli/compiler.py
index 91b6575..a0dd53b 100644
--- a/nessaid_cli/compiler.py
+++ b/nessaid_cli/compiler.py
@@ -277,7 +277,7 @@ class NessaidCliParser(NessaidCliParserCommon):
     def p_optional_rule(self, t):
         """term : LBRACE rule RBRACE"""
         rule = t[2]
-        if type(rule) is SequenceInputElement:
+        if type(rule) is SequenceInputElement and rule.repeat_count == 1:
             values = rule.value
             pre_match_binding = rule.pre_match_binding
             post_match_binding = rule.post_match_binding
-- 
2.43.0


From c5224aacdbf11e9059efea6624a9e49283259f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 06/16] fix: only sequences complete at the end of input can be
 executed

When some matching sequence was complete, sequences still waiting for more
tokens were counted as ambiguous alternatives to it, or were executed in its
place ('"ab" "x" | "abc"' on 'ab' ran the actions of the first one).
---
 nessaid_cli/interface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 8cd5c52..b0aa93d 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -826,6 +826,7 @@ class CliInterface(StdStreamsHolder):
                     return res
 
                 prompt_choices = set()
+                complete_sequences = []
 
                 for matching_sequence in matching_sequences:
                     choices = set()
@@ -843,6 +844,7 @@ class CliInterface(StdStreamsHolder):
                     last_token = matching_sequence[-1]
                     if last_token == EndOfInpuToken:
                         seq_complete = True
+                        complete_sequences.append(matching_sequence)
                     else:
                         if (not token_list) and (not last_token_complete):
                             choices.add(last_token)
@@ -851,6 +853,7 @@ class CliInterface(StdStreamsHolder):
                             for c in nexts:
                                 if c == EndOfInpuToken:
                                     seq_complete = True
+                                    complete_sequences.append(matching_sequence)
                                 else:
                                     choices.add(c)
                     matching_seq_choices.append(choices)
@@ -875,6 +878,9 @@ class CliInterface(StdStreamsHolder):
                 if matching_sequences:
                     res.matched_sequence.append(cur_token_input)
                     if not dry_run:
+                        if seq_complete:
+                            matching_sequences = complete_sequences
+
                         if seq_complete and len(matching_sequences) > 1:
                             matching_sequences = await self.fix_sequences(matching_sequences, tok_list)
 
-- 
2.43.0


From 97e7735a9fc40bc85c9fdc521816388ab51bc7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 07/16] fix: match() without an arglist succeeds instead of
 raising

arglist defaults to None, and len(None) raised TypeError after the actions of
the matched command had been executed.
---
 nessaid_cli/interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index b0aa93d..21e6b50 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -901,9 +901,9 @@ class CliInterface(StdStreamsHolder):
                                     root_arglist = await self.execute_success_sequence(matching_sequences[0], match_values, args)
                                 finally:
                                     self._executing = False
-                                arglen = len(arglist)
-                                for i in range(arglen):
-                                    arglist[i] = root_arglist.pop(0)
+                                if arglist:
+                                    for i in range(len(arglist)):
+                                        arglist[i] = root_arglist.pop(0)
                                 res.result = MATCH_SUCCESS
                             else:
                                 res.result = MATCH_AMBIGUOUS
-- 
2.43.0


From dcba67c17dece8be082dd9a4e4de0c7cb97e612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 08/16] fix: an empty script file does not block the lines of
 the files below it

add_file_to_execute() on an empty file left an empty entry on top of the file
stack, and no line of any other file was read after that.
---
 nessaid_cli/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 68fefbf..f87d25a 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -122,13 +122,14 @@ class NessaidCli(CliInterface):
     def file_line(self):
         if self.parent:
             return self.parent.file_line
-        if self._file_data:
+        while self._file_data:
             file_content = self._file_data[-1]
             if file_content:
                 file_line = file_content.pop(0)
                 if not file_content:
                     self._file_data.pop()
                 return file_line
+            self._file_data.pop()
         return None
 
     @property
-- 
2.43.0


From 1caf5fb7da5563fc9d67f263b59c72251c079882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 09/16] fix: convert_to_cli_string quotes and escapes a string
 holding a backslash

A backslash alone did not make the string need quoting, so it was returned as
it is: not an input the tokenizer accepts, and not converted back.
---
 nessaid_cli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index e7b1e30..b8c9f4a 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -75,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
 
 
 def convert_to_cli_string(python_string):
-    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"']):
+    if any(c in python_string for c in [" ", "\n", "\0", "\r", "\t", "\b", "\a", "\v", '"', "\\"]):
 
         if python_string.startswith('"'):
             python_string = python_string[1:]
-- 
2.43.0


From d9360ee1219f2a056149bebf06c341a73929c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 10/16] fix: the string cache tells a quoted string from an
 unquoted one

Both convert differently, but shared one cache entry when their text is the
same, so that the result depended on which of them was converted first.
---
 nessaid_cli/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nessaid_cli/utils.py b/nessaid_cli/utils.py
index b8c9f4a..0ab9f1f 100644
--- a/nessaid_cli/utils.py
+++ b/nessaid_cli/utils.py
@@ -39,8 +39,14 @@ class ExtendedString(str):
 
 def convert_to_python_string(cli_string, cli=None):
 
-    if cli and cli_string in cli.str_cache:
-        return cli.str_cache[cli_string]
+    cache_key = (
+        cli_string,
+        bool(getattr(cli_string, "quoted", False)),
+        bool(getattr(cli_string, "quote_incomplete", False))
+    )
+
+    if cli and cache_key in cli.str_cache:
+        return cli.str_cache[cache_key]
 
     converted_str = cli_string
 
@@ -69,7 +75,7 @@ def convert_to_python_string(cli_string, cli=None):
         converted_str = "\\".join(converted_parts)
 
     if cli:
-        cli.cache_string(cli_string, converted_str)
+        cli.cache_string(cache_key, converted_str)
 
     return converted_str
 
-- 
2.43.0


From 5b4d7df19d2fab8cc74822da3cd4706bdeb425f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 11/16] fix: binding keywords are whole identifiers, not
 prefixes of them

The lexer rules for call, True, False and None matched at the start of longer
identifiers: 'call callback($x)' and 'Falsey()' were syntax errors.
---
 .../binding_parser/binding_text_parser.py     | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/nessaid_cli/binding_parser/binding_text_parser.py b/nessaid_cli/binding_parser/binding_text_parser.py
index 83e6afa..33cbe2f 100644
--- a/nessaid_cli/binding_parser/binding_text_parser.py
+++ b/nessaid_cli/binding_parser/binding_text_parser.py
@@ -27,20 +27,16 @@ class NessaidCliBindingLexer(NessaidCliLexerCommon):
 
     t_ignore_COMMENT = NessaidCliLexerCommon.common_COMMENT
 
-    def t_TRUE(self, t):
-        "True"
-        return t
-
-    def t_FALSE(self, t):
-        "False"
-        return t
-
-    def t_NONE(self, t):
-        "None"
-        return t
-
-    def t_CALL(self, t):
-        "call"
+    KEYWORD_TOKENS = {
+        "call": 'CALL',
+        "True": 'TRUE',
+        "False": 'FALSE',
+        "None": 'NONE',
+    }
+
+    def t_IDENTIFIER(self, t):
+        r'[A-Za-z_][-a-zA-Z0-9_]*'
+        t.type = NessaidCliBindingLexer.KEYWORD_TOKENS.get(t.value, t.type)
         return t
 
     def __init__(self, filename="", starting_lineno=1, starting_linepos=0, stdin=None, stdout=None, stderr=None):
-- 
2.43.0


From 7934be779baa9e63587dfdba999cb5ecaa2d5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 12/16] fix: count the candidates of a ranged integer without
 len(range())

len() of a range of more than sys.maxsize numbers raises OverflowError, so a
token with bounds of that size rejected inputs within its bounds.
---
 nessaid_cli/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nessaid_cli/tokens.py b/nessaid_cli/tokens.py
index aa5a7b3..95f11bd 100644
--- a/nessaid_cli/tokens.py
+++ b/nessaid_cli/tokens.py
@@ -337,7 +337,7 @@ class RangedIntToken(CliToken):
             else:
                 lower_limit = max(min_limit, min_num)
                 upper_limit = min(max_limit, max_num)
-                count = len(range(lower_limit, upper_limit + 1))
+                count = max(0, upper_limit + 1 - lower_limit)
                 if count > self._max_suggestions:
                     return count, []
                 completions = list(range(lower_limit, upper_limit + 1))
@@ -363,7 +363,7 @@ class RangedIntToken(CliToken):
             max_num = min_num + power - 1
 
         if min_num <= max_limit and num_len == max_len:
-            count += len(range(min_num, min(max_num, max_limit) + 1))
+            count += max(0, min(max_num, max_limit) + 1 - min_num)
             if count > self._max_suggestions:
                 return count, []
             completions += list(range(min_num, min(max_num, max_limit) + 1))
-- 
2.43.0


From 505506006f2ce4179173e651355379e13f96c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 13/16] fix: an assignment copies the value of a variable
 instead of aliasing it

---
 nessaid_cli/interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index 21e6b50..ff2d14b 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -247,6 +247,8 @@ class ExecContext():
 
                     if lhs:
                         rhs = await self.resolve_argument(block.rhs)
+                        if isinstance(rhs, BindingVariable):
+                            rhs = rhs.value
                         lhs.assign(rhs)
 
                 elif isinstance(block, BindingCall):
-- 
2.43.0


From 94f15828868c1f91c069161830f83334b4e789f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 14/16] fix: a loop is left completely even when its exit hook
 raises

---
 nessaid_cli/cli.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index f87d25a..9ae6aaf 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -585,14 +585,16 @@ class NessaidCli(CliInterface):
                     traceback.print_tb(e.__traceback__, file=self.stderr)
                     self.error("\n")
         finally:
-            await self.on_exit()
-            self._exit_loop = False
-            self.exit_grammar()
-            self._running = False
-            top_cli = self._cli_stack.pop()
-            if self != top_cli:
-                raise(Exception("Bug in CLI stack"))
-            self._loop_task = None
+            try:
+                await self.on_exit()
+            finally:
+                self._exit_loop = False
+                self.exit_grammar()
+                self._running = False
+                top_cli = self._cli_stack.pop()
+                if self != top_cli:
+                    raise(Exception("Bug in CLI stack"))
+                self._loop_task = None
 
     async def on_exit(self):
         pass
-- 
2.43.0


From 4969c2d9239dfa86b6d5376114766edfb4febd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 15/16] fix: completion does not insert the help text of a
 token without completions

---
 nessaid_cli/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nessaid_cli/interface.py b/nessaid_cli/interface.py
index ff2d14b..f3561bf 100644
--- a/nessaid_cli/interface.py
+++ b/nessaid_cli/interface.py
@@ -148,7 +148,7 @@ class ParsingResult():
 
         if add_EOI:
             self.next_tokens.append(EndOfInpuToken)
-        elif cur_input:
+        elif cur_input and all(t.completion for t in self.next_tokens):
             common_prefix = self.common_prefix(self.next_tokens)
             if common_prefix:
                 self.last_token = (cur_input, common_prefix)
-- 
2.43.0


From 69227fc130b5c5edc695c6002ddbf39322e38fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:48 +0000
Subject: [PATCH 16/16] fix: completion takes a token as complete only when a
 blank follows it, also after a TAB or within open quotes

---
 nessaid_cli/cli.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nessaid_cli/cli.py b/nessaid_cli/cli.py
index 9ae6aaf..d9a8fa8 100644
--- a/nessaid_cli/cli.py
+++ b/nessaid_cli/cli.py
@@ -241,10 +241,8 @@ class NessaidCli(CliInterface):
             self.set_completion_tokens(["Exception tokenizing input line: {}: {}".format(type(e), e)])
             return None
 
-        if line and line[-1] in TOKEN_SEPARATORS:
-            last_token_complete = True
-        else:
-            last_token_complete = False
+        # The last token is complete when it is followed by a blank
+        last_token_complete = bool(line) and not (tokens and tokens[-1].lexpos + tokens[-1].lexlen == len(line))
 
         try:
             input_tokens = [str(t) for t in tokens]
@@ -300,7 +298,7 @@ class NessaidCli(CliInterface):
                                 self._suggestion_shown = False
                                 return None
                 elif match_output.next_constant_token:
-                    if line and line[-1] in TOKEN_SEPARATORS:
+                    if last_token_complete:
                         if line == self._current_line:
                             await self._readline.insert_text(match_output.next_constant_token)
                             self._suggestion_shown = False
-- 
2.43.0

