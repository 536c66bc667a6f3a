From 0471e8aef0e79440d16000e66133a8073524c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:16 +0000
Subject: [PATCH 01/35] fix: prepare parsers under the lock and without
 touching the current whitespace

Parser.__init__ streamlined shared elements and pushed a whitespace context on
the global stack before taking the lock, so concurrent first uses, and threads
building expressions, interfered with each other.
---
 mo_parsing/core.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..c618e4d 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -107,17 +107,18 @@ def _verify_whitespace(whi: List):
 
 class Parser(object):
     def __init__(self, element):
-        self.element = element = element.streamline()
-        try:
-            self.whitespace = (
-                _verify_whitespace(element.whitespace)
-                or whitespaces.CURRENT
-                or whitespaces.STANDARD_WHITESPACE
-            )
-        except Exception as cause:
-            Log.error("problem", cause=cause)
+        # PREPARATION CHANGES STATE THE ELEMENT SHARES WITH OTHER PARSERS
+        with locker:
+            element = element.streamline()
+            try:
+                self.whitespace = (
+                    _verify_whitespace(element.whitespace)
+                    or whitespaces.CURRENT
+                    or whitespaces.STANDARD_WHITESPACE
+                )
+            except Exception as cause:
+                Log.error("problem", cause=cause)
 
-        with self.whitespace:
             self.element = Group(element)
 
         self.named = bool(element.token_name)
-- 
2.43.0


From 9bed778208ac4cd6a96ecc9b2bc7701c0140d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:05 +0000
Subject: [PATCH 02/35] fix: take the lock for every step of scan_string and
 split

The generators were created under the lock but stepped outside it, so a step
raced with parses on other threads over the whitespace cache and the parse
state, and ran with state left by whatever call came in between.
---
 mo_parsing/core.py | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index c618e4d..1055bfb 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -70,20 +70,47 @@ locker = RLock()
 streamlined = {}
 
 
+def _enter(func, *args):
+    with locker:
+        for a in _reset_actions:
+            try:
+                a()
+            except Exception as e:
+                Log.error("reset action failed", cause=e)
+
+        return func(*args)
+
+
 def entrypoint(func):
     def output(*args, **kwargs):
-        with locker:
-            for a in _reset_actions:
-                try:
-                    a()
-                except Exception as e:
-                    Log.error("reset action failed", cause=e)
+        return _enter(lambda: func(*args, **kwargs))
+
+    return output
 
-            return func(*args, **kwargs)
+
+def lazy_entrypoint(func):
+    """
+    SAME AS entrypoint, FOR func THAT RETURN A GENERATOR: EVERY STEP IS AN ENTRY
+    NOTHING IS HELD BETWEEN STEPS
+    """
+
+    def output(*args, **kwargs):
+        return _steps(func(*args, **kwargs))
 
     return output
 
 
+_DONE = object()
+
+
+def _steps(generator):
+    while True:
+        item = _enter(next, generator, _DONE)
+        if item is _DONE:
+            return
+        yield item
+
+
 def _verify_whitespace(whi: List):
     if whi is None:
         return None
@@ -173,7 +200,7 @@ class Parser(object):
         except ParseException as cause:
             raise cause.best_cause from None
 
-    @entrypoint
+    @lazy_entrypoint
     def scan_string(self, string, max_matches=MAX_INT, overlap=False):
         """
         :param string: TO BE SCANNED
@@ -272,7 +299,7 @@ class Parser(object):
                 scanned[-1].failures,
             )
 
-    @entrypoint
+    @lazy_entrypoint
     def split(self, string, maxsplit=MAX_INT, include_separators=False):
         """
         Generator method to split a string using the given expression as a separator.
-- 
2.43.0


From 83ef49f579ec7109d9a04d77b7fd1aeb1f367017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:39 +0000
Subject: [PATCH 03/35] fix: give an outer parse its state back after a nested
 parse

A parse action that parses, or compiles a Regex, reset the indentation stack and
the capture count of the parse it was called from.
---
 mo_parsing/core.py    | 24 ++++++++++++++++--------
 mo_parsing/helpers.py |  7 +++++++
 mo_parsing/regex.py   |  7 +++++++
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 1055bfb..519dbc7 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -61,7 +61,8 @@ _reset_actions = []
 def add_reset_action(action):
     """
     ADD A FUNCTION THAT WILL RESET GLOBAL STATE THAT A PARSER MAY USE
-    :param action:  CALLABLE
+    :param action:  CALLABLE, MAY RETURN A CALLABLE THAT PUTS BACK WHAT WAS RESET;
+                    IT IS CALLED WHEN THE PARSE IS DONE (PARSES CAN BE NESTED)
     """
     _reset_actions.append(action)
 
@@ -72,13 +73,20 @@ streamlined = {}
 
 def _enter(func, *args):
     with locker:
-        for a in _reset_actions:
-            try:
-                a()
-            except Exception as e:
-                Log.error("reset action failed", cause=e)
-
-        return func(*args)
+        restores = []
+        try:
+            for a in _reset_actions:
+                try:
+                    restores.append(a())
+                except Exception as e:
+                    Log.error("reset action failed", cause=e)
+
+            return func(*args)
+        finally:
+            # A PARSE ACTION MAY HAVE STARTED THIS, THE OUTER PARSE IS NOT DONE
+            for restore in reversed(restores):
+                if callable(restore):
+                    restore()
 
 
 def entrypoint(func):
diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 225de4f..99ccf85 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -666,8 +666,15 @@ _indent_stack = [(1, None, None)]
 
 def reset_stack():
     global _indent_stack
+    previous = _indent_stack
     _indent_stack = [(1, None, None)]
 
+    def restore():
+        global _indent_stack
+        _indent_stack = previous
+
+    return restore
+
 
 add_reset_action(reset_stack)
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..35c9450 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -81,8 +81,15 @@ num_captures = 0
 
 def _reset():
     global num_captures
+    previous = num_captures
     num_captures = 0
 
+    def restore():
+        global num_captures
+        num_captures = previous
+
+    return restore
+
 
 add_reset_action(_reset)
 
-- 
2.43.0


From f37c4e61f8b2f96272def61eb2a0a32b2d323c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:25 +0000
Subject: [PATCH 04/35] fix: indented_block keeps its state in the parse, not
 in the grammar

The peer and dedent rules were Forwards rebound while matching, so statements
following a nested block were compared with the nested column; a block that was
never entered popped someone else's level, ending in AttributeError; and levels
leaked when matching was abandoned or interrupted.
---
 mo_parsing/helpers.py | 89 +++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 46 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 99ccf85..13b9b3b 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -661,13 +661,13 @@ def with_class(classname, namespace=""):
     return with_attribute(**{classattr: classname})
 
 
-_indent_stack = [(1, None, None)]
+_indent_stack = [1]
 
 
 def reset_stack():
     global _indent_stack
     previous = _indent_stack
-    _indent_stack = [(1, None, None)]
+    _indent_stack = [1]
 
     def restore():
         global _indent_stack
@@ -679,6 +679,21 @@ def reset_stack():
 add_reset_action(reset_stack)
 
 
+class _IndentedGroup(Group):
+    """
+    A GROUP THAT LEAVES _indent_stack AS IT FOUND IT
+    """
+
+    __slots__ = []
+
+    def parse_impl(self, string, start, do_actions=True):
+        depth = len(_indent_stack)
+        try:
+            return Group.parse_impl(self, string, start, do_actions)
+        finally:
+            del _indent_stack[depth:]
+
+
 def indented_block(blockStatementExpr, indent=True):
     """Helper method for defining space-delimited indentation blocks,
     such as those used to define block statements in Python source code.
@@ -696,55 +711,35 @@ def indented_block(blockStatementExpr, indent=True):
 
     A valid block must contain at least one ``blockStatement``.
     """
-    PEER = Forward()
-    DEDENT = Forward()
-
-    def _reset_stack(t=None, i=None, s=None, c=None):
-        old_col, old_peer, old_dedent = _indent_stack.pop()
-        PEER << old_peer
-        DEDENT << old_dedent
-
-    def peer_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col != expected_col:
-                if cur_col > expected_col:
-                    raise ParseException(t.type, l, s, "illegal nesting")
-                raise ParseException(t.type, l, s, "not a peer entry")
-
-        return output
-
-    def dedent_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col not in (i for i, _, _ in _indent_stack):
-                raise ParseException(s, l, "not an unindent")
-            if cur_col < _indent_stack[-1][0]:
-                old_col, old_peer, old_dedent = _indent_stack.pop()
-                PEER << old_peer
-                DEDENT << old_dedent
-
-        return output
+
+    def peer(t, l, s):
+        if l >= len(s):
+            return
+        cur_col = col(l, s)
+        expected_col = _indent_stack[-1]
+        if cur_col != expected_col:
+            if cur_col > expected_col:
+                raise ParseException(t.type, l, s, "illegal nesting")
+            raise ParseException(t.type, l, s, "not a peer entry")
+
+    def dedent(t, l, s):
+        if l >= len(s):
+            return
+        cur_col = col(l, s)
+        if cur_col not in _indent_stack:
+            raise ParseException(t.type, l, s, "not an unindent")
 
     def indent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col > _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col > _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
     def nodent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col == _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
+        if cur_col == _indent_stack[-1]:
+            _indent_stack.append(cur_col)
         else:
             raise ParseException(t.type, l, s, "not a subentry")
 
@@ -755,22 +750,24 @@ def indented_block(blockStatementExpr, indent=True):
         NL = OneOrMore(LineEnd().suppress())
         INDENT = Empty() / indent_stack
         NODENT = Empty() / nodent_stack
+        PEER = Empty() / peer
+        DEDENT = Empty() / dedent
 
         if indent:
-            sm_expr = Group(
+            sm_expr = _IndentedGroup(
                 Optional(NL)
                 + INDENT
                 + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
                 + DEDENT
             )
         else:
-            sm_expr = Group(
+            sm_expr = _IndentedGroup(
                 Optional(NL)
                 + NODENT
                 + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
                 + DEDENT
             )
-    return sm_expr.setFailAction(_reset_stack).set_parser_name("indented block")
+    return sm_expr.set_parser_name("indented block")
 
 
 anyOpenTag, anyCloseTag = makeHTMLTags(
-- 
2.43.0


From debaaf94c96469c37ec30a1e793e5548f5bc4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:33 +0000
Subject: [PATCH 05/35] fix: NotAny without a regex tries its expression

It called parse() with arguments that method does not take, and a bare except
turned that TypeError, its own ParseException and any KeyboardInterrupt into a
match.
---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..8a04e11 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -159,10 +159,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string) from None
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
+                self.expr._parse(string, start, do_actions=True)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
-- 
2.43.0


From b599eb5d5d9a7e1d3702f4791cac46f291a6ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:41 +0000
Subject: [PATCH 06/35] fix: SkipTo(fail_on) only takes a parse failure as no
 match

The bare except swallowed interrupts and errors of parse actions.
---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 8a04e11..c952861 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -465,7 +465,7 @@ class SkipTo(ParseEnhancement):
                 try:
                     fail._parse(string, loc)
                     break
-                except:
+                except ParseException:
                     pass
 
             if ignore:
-- 
2.43.0


From 14e1712736dea2ba3ca49cfee1842a197abead05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:57 +0000
Subject: [PATCH 07/35] fix: Optional gives every result its own copy of the
 default

Adding a name to a result, or editing its tokens in a parse action, changed the
default that later parses return.
---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index c952861..c2c7e87 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -404,7 +404,7 @@ class Optional(Many):
             results = self.expr._parse(string, start, do_actions)
             return ParseResults(self, results.start, results.end, [results], results.failures)
         except ParseException as pe:
-            return ParseResults(self, start, start, self.parser_config.default_value, [pe])
+            return ParseResults(self, start, start, list(self.parser_config.default_value), [pe])
 
     def __str__(self):
         if self.parser_name:
-- 
2.43.0


From ee3848e56188b40491277a8c56d8bcb99ee4af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:35 +0000
Subject: [PATCH 08/35] fix: PrecededBy looks behind with the whitespace it was
 defined with

It built its test expression while matching, with whatever whitespace was
current at that time.
---
 mo_parsing/enhancement.py | 9 +++++----
 mo_parsing/expressions.py | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index c2c7e87..fd1e8c6 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -21,8 +21,8 @@ from mo_parsing.utils import (
 from mo_parsing.utils import MAX_INT, is_forward
 
 Word: object
-(Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char,) = expect(
-    "Token", "NoMatch", "Literal", "Keyword", "Word", "CharsNotIn", "StringEnd", "Empty", "Char",
+(Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char, And,) = expect(
+    "Token", "NoMatch", "Literal", "Keyword", "Word", "CharsNotIn", "StringEnd", "Empty", "Char", "And",
 )
 
 _get = object.__getattribute__
@@ -861,11 +861,12 @@ class PrecededBy(LookAhead):
 
     zero_length = True
     __slots__ = []
-    Config = append_config(ParseEnhancement, "retreat", "exact")
+    Config = append_config(ParseEnhancement, "retreat", "exact", "whitespace")
 
     def __init__(self, expr, retreat=None):
         super(PrecededBy, self).__init__(expr)
         expr = self.expr
+        self.set_config(whitespace=whitespaces.CURRENT)
 
         if isinstance(expr, (Literal, Keyword, Char)):
             self.set_config(retreat=expr.min_length(), exact=True)
@@ -884,7 +885,7 @@ class PrecededBy(LookAhead):
             ret = self.expr._parse(string, loc)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
+            test_expr = And([self.expr, StringEnd()], self.parser_config.whitespace).streamline()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..6a985c6 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -850,6 +850,7 @@ class MatchAll(ParseExpression):
 
 
 export("mo_parsing.core", And)
+export("mo_parsing.enhancement", And)
 export("mo_parsing.core", Or)
 export("mo_parsing.core", MatchAll)
 export("mo_parsing.core", MatchFirst)
-- 
2.43.0


From af75a10d4eb357eeaaf1da71e5f92553e0fbd431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:43 +0000
Subject: [PATCH 09/35] fix: counted_array repeats with the whitespace it was
 defined with

The repetition is built while matching, and used whatever whitespace was current
at that time.
---
 mo_parsing/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 13b9b3b..91f8b1f 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -187,10 +187,11 @@ def counted_array(expr, int_expr=None):
         int_expr = Word(nums) / (lambda t: int(t[0]))
 
     array_expr = Forward()
+    whitespace = whitespaces.CURRENT
 
     def countFieldParseAction(t, l, s):
         n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespaces.CURRENT))
+        array_expr << Group(Many(expr, exact=n, whitespace=whitespace))
         return []
 
     int_expr = (
-- 
2.43.0


From 7721c51755ff083388d80d8be05423346305eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:18 +0000
Subject: [PATCH 10/35] fix: counted_array does not rename the int_expr it is
 given

set_parser_name works in place; apply it to the copy made for the parse action.
---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 91f8b1f..ed6d2e6 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -196,8 +196,8 @@ def counted_array(expr, int_expr=None):
 
     int_expr = (
         int_expr
-        .set_parser_name("array_len")
         .add_parse_action(countFieldParseAction, callDuringTry=True)
+        .set_parser_name("array_len")
     )
     return (int_expr + array_expr).set_parser_name("(len) " + text(expr) + "...")
 
-- 
2.43.0


From c79b4277134d897580c33b6c7b066125d2ae97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 11/35] fix: Or returns a result, or raises ParseException,
 when a re-parse falls short

When an alternative matched in the trial but was shorter, or rejected, the
second time, Or returned a tuple or None and the caller met an AttributeError.
---
 mo_parsing/expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 6a985c6..23a8ca0 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -439,7 +439,7 @@ class Or(ParseExpression):
             for loc, expr in matches:
                 if loc <= longest[0]:
                     # already have a longer match than this one will deliver, we are done
-                    return longest
+                    return longest[1]
 
                 try:
                     result = expr._parse(string, start, do_actions)
@@ -461,7 +461,9 @@ class Or(ParseExpression):
                         )
 
             if longest != (-1, None):
-                return longest
+                return longest[1]
+
+            raise ParseException(self, start, string, cause=failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From 9c07e6d25ffe3da316d6217ac2c78dc389374ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:57 +0000
Subject: [PATCH 12/35] fix: And completes a pending skip in a copy of the
 expression that ends with it

(x | a + ...) + b rewrote the shared left side, so using that left side in a
second sequence matched the first sequence's target.
---
 mo_parsing/expressions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 23a8ca0..0803713 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -193,15 +193,17 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
-            for i, e in enumerate(exprs[:-1]):
+            exprs = list(exprs)
+            for i, e in reversed(list(enumerate(exprs[:-1]))):
                 if (
                     isinstance(e, ParseExpression)
                     and e.exprs
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
-                    ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
-                    e.streamlined = False
+                    # e MAY BE USED ELSEWHERE
+                    exprs[i] = ee = e.copy()
+                    ee.exprs = e.exprs[:-1] + [e.exprs[-1] + exprs[i + 1]]
+                    ee.streamlined = False
                     exprs[i + 1] = None
 
         # streamline INDIVIDUAL EXPRESSIONS
-- 
2.43.0


From 32fb46764ff01e507f4263c38a0e756a0250e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 13/35] fix: infix_notation does not depend on object addresses

Alternatives were ordered by a set of elements hashed by address, and operators
were looked up by the id of objects that may be gone, so the operator tried
first, and even which operator is meant, could change from run to run.
---
 mo_parsing/infix.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..07ca67f 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -158,9 +158,9 @@ def infix_notation(
     def norm(op):
         if op == None:
             op = _no_op
-        output = all_op.get(id(op))
-        if output:
-            return output
+        known = all_op.get(id(op))
+        if known:
+            return known[1:]
 
         def record_self(tok):
             ParseResults(tok.type, tok.start, tok.end, [tok.type.parser_name], [])
@@ -170,7 +170,7 @@ def infix_notation(
         if is_suppressed:
             output = output.expr
         output = output / record_self
-        all_op[id(op)] = is_suppressed, output
+        all_op[id(op)] = op, is_suppressed, output  # op KEPT SO id IS NOT REUSED
         return is_suppressed, output
 
     op_list = []
@@ -246,7 +246,7 @@ def infix_notation(
     ])
     ops = Or([
         op_part / record_op(op_part)
-        for op_part in set(
+        for op_part in dict.fromkeys(
             op_part
             for expr, op, is_suppressed, arity, assoc, pa in op_list
             if arity > 1
-- 
2.43.0


From c70580eee7c43c2dbe1315bbf2f552dc355178d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 14/35] fix: entering, releasing and interrupting whitespace
 contexts

Releasing a context that is not current could release another one entered from
the same Whitespace; a failure while entering left the stack one too deep; an
interrupt between the two halves of the skip cache mixed up two strings.
---
 mo_parsing/whitespaces.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..e208b28 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -53,9 +53,10 @@ class Whitespace(ParserElement):
     def __enter__(self):
         global CURRENT
 
+        new_whitespace = self.copy()
         whitespace_stack.append(CURRENT)
-        CURRENT = new_whitespace = self.copy()
         self.copies.append(new_whitespace)
+        CURRENT = new_whitespace
         return new_whitespace
 
     use = __enter__
@@ -70,7 +71,7 @@ class Whitespace(ParserElement):
             CURRENT = whitespace_stack.pop()
             return
 
-        if self.parent:
+        if self.parent and self is CURRENT:
             self.parent.__exit__(exc_type, exc_val, exc_tb)
             self.parent = None
             return
@@ -149,6 +150,7 @@ class Whitespace(ParserElement):
                 return start
         else:
             num = len(string)
+            self.content = None  # IN CASE OF INTERRUPT
             self.skips = [-1] * num
             self.content = string
             if start >= num:
-- 
2.43.0


From c23466599b8840a91cc51e642efa4fda6fb39b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:50 +0000
Subject: [PATCH 15/35] fix: identify whitespace rules by number, not by
 address

A released Whitespace left its address as id on the copies made from it; another
Whitespace created at the same address was then taken for the same rules.
---
 mo_parsing/whitespaces.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index e208b28..76aa4c9 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -1,6 +1,7 @@
 # encoding: utf-8
 import re
 from collections import namedtuple
+from itertools import count
 
 from mo_future import is_text
 from mo_imports import expect, Expecting
@@ -15,11 +16,12 @@ CURRENT = None  # THE CURRENT DEFINED WHITESPACE
 NO_WHITESPACE = None  # NOTHING IS WHITESPACE ENGINE
 STANDARD_WHITESPACE = None  # SIMPLE WHITESPACE
 whitespace_stack = []
+_next_id = count()  # RULES THAT ARE DIFFERENT HAVE DIFFERENT ids, ALSO WHEN AN ADDRESS IS REUSED
 
 
 class Whitespace(ParserElement):
     def __init__(self, white=" \n\r\t"):
-        self.id = id(self)
+        self.id = next(_next_id)
         self.literal = Literal
         self.keyword_chars = alphanums + "_$"
         self.ignore_list = []
@@ -98,15 +100,15 @@ class Whitespace(ParserElement):
         es.append(exc)
 
     def set_literal(self, literal):
-        self.id = id(self)
+        self.id = next(_next_id)
         self.literal = literal
 
     def set_keyword_chars(self, chars):
-        self.id = id(self)
+        self.id = next(_next_id)
         self.keyword_chars = "".join(sorted(set(chars)))
 
     def set_whitespace(self, chars):
-        self.id = id(self)
+        self.id = next(_next_id)
         self.white_chars = "".join(sorted(set(chars)))
         self.content = None
         self.expr = None if isinstance(Empty, Expecting) else Empty()
@@ -117,7 +119,7 @@ class Whitespace(ParserElement):
         ADD TO THE LIST OF IGNORED EXPRESSIONS
         :param ignore_expr:
         """
-        self.id = id(self)
+        self.id = next(_next_id)
         for ignore_expr in ignore_exprs:
             ignore_expr = ignore_expr.suppress()
             self.ignore_list.append(ignore_expr)
-- 
2.43.0


From d975332cd136072dcc5bd11415f3f20d31669f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:59 +0000
Subject: [PATCH 16/35] fix: parse_file does not take an AttributeError from
 read() for a filename

The file-like object was then passed to open(), whose TypeError hid the error.
---
 mo_parsing/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 519dbc7..6adf822 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -764,10 +764,12 @@ class ParserElement(object):
         the entire file is opened, read, and closed before parsing.
         """
         try:
-            file_contents = file_or_filename.read()
+            read = file_or_filename.read
         except AttributeError:
             with open(file_or_filename, "r") as f:
                 file_contents = f.read()
+        else:
+            file_contents = read()
         return self.parse_string(file_contents, parse_all)
 
     def __eq__(self, other):
-- 
2.43.0


From 0b7ec53a1228fca56e07d52a339eb1c164a026ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:34 +0000
Subject: [PATCH 17/35] fix: parse actions may return something they keep

The list, or the result, that an action returned became part of the parse result
itself: names set on one parse result, and failures collected by one parse,
turned up in the next. An action returning its own token doubled the failures.
---
 mo_parsing/utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..c364fe5 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -338,12 +338,23 @@ def wrap_parse_action(func):
             elif isinstance(result, ParseResults):
                 if (result.start < token.start) or (token.end < result.end):
                     Log.error("Tokens must be ordered")
-                result.failures.extend(token.failures)
-                return result
+                if result is token:
+                    return token
+                # THE ACTION MAY RETURN THE SAME result AGAIN, DO NOT ADD TO IT
+                output = object.__new__(result.__class__)
+                ParseResults.__init__(
+                    output,
+                    result._type,
+                    result.start,
+                    result.end,
+                    list(result.tokens),
+                    result.failures + token.failures,
+                )
+                return output
 
             if isinstance(result, (list, tuple)):
                 return ParseResults(
-                    token.type, token.start, token.end, result, token.failures
+                    token.type, token.start, token.end, list(result), token.failures
                 )
             else:
                 return ParseResults(
-- 
2.43.0


From 4f9ec23233be921d4f9d7906c16d190f673e633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 18/35] fix: rendering a result does not depend on how deep the
 caller's stack is

ParseResults.__str__ returned '...' when called with more than 30 frames below
it, also when a parse action (like the one of commaSeparatedList) uses the text.
Count the nesting of the rendering itself.
---
 mo_parsing/results.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..5f76f1e 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -1,5 +1,5 @@
 # encoding: utf-8
-import inspect
+from threading import local
 
 from mo_dots import is_many, is_null, register_data, register_list, exists
 from mo_future import is_text, text, zip_longest, MutableMapping
@@ -20,6 +20,9 @@ Suppress, ParserElement, NO_PARSER, NO_RESULTS, Group, Dict, Token, Empty = expe
 )
 
 
+_rendering = local()  # HOW DEEP WE ARE IN ParseResults.__str__
+
+
 class ParseResults(object):
     __slots__ = ["_type", "start", "end", "tokens", "timing", "failures"]
 
@@ -264,14 +267,19 @@ class ParseResults(object):
         ]
 
     def __str__(self):
-        if len(inspect.stack(0)) > 30:
+        depth = getattr(_rendering, "depth", 0)
+        if depth > 30:
             return "..."
-        elif not self.tokens:
-            return ""
-        elif len(self.tokens) == 1:
-            return text(self.tokens[0])
-        else:
-            return "[" + ", ".join(text(v) for v in self.tokens) + "]"
+        _rendering.depth = depth + 1
+        try:
+            if not self.tokens:
+                return ""
+            elif len(self.tokens) == 1:
+                return text(self.tokens[0])
+            else:
+                return "[" + ", ".join(text(v) for v in self.tokens) + "]"
+        finally:
+            _rendering.depth = depth
 
     def _asStringList(self):
         for t in self:
-- 
2.43.0


From 9cab3c0c3cd1e918ecd48ba78b8c2a3f6f8f59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 19/35] fix: the text of a Forward does not depend on what was
 rendered before

A Forward rendered inside another was remembered with its own inside cut short,
so messages depended on the order of earlier renderings, other threads' included,
and names given later were ignored.
---
 mo_parsing/core.py        |  5 +++++
 mo_parsing/enhancement.py | 32 +++++++++++++++++++++-----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 6adf822..9e644c2 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -68,6 +68,7 @@ def add_reset_action(action):
 
 
 locker = RLock()
+naming = object()  # REPLACED WHEN NAMES CHANGE, FOR THOSE THAT REMEMBER RENDERINGS
 streamlined = {}
 
 
@@ -388,7 +389,9 @@ class ParserElement(object):
             Word(nums).parse_string("ABC")  # -> Exception: Expected W:(0123...) (at char 0), (line:1, col:1)
             Word(nums).set_parser_name("integer").parse_string("ABC")  # -> Exception: Expected integer (at char 0), (line:1, col:1)
         """
+        global naming
         self.parser_name = name
+        naming = object()
         return self
 
     def clear_parse_action(self):
@@ -831,6 +834,7 @@ def set_parser_names():
     """
     ASSIGN parser_name FOR All ParserElements FOUND IN CALLER
     """
+    global naming
     frame = sys._getframe(1)
     items = list(frame.f_locals.items())
     for k, v in items:
@@ -839,6 +843,7 @@ def set_parser_names():
                 v.parser_name = k.lower()
         except Exception:
             pass
+    naming = object()
 
 
 NO_PARSER = (
diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index fd1e8c6..49e1225 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -1,11 +1,12 @@
 # encoding: utf-8
 from collections import OrderedDict
+from threading import local
 
 from mo_dots import Null, is_null
 from mo_future import text, is_text
 from mo_imports import export, expect
 
-from mo_parsing import whitespaces
+from mo_parsing import core, whitespaces
 from mo_parsing.core import ParserElement
 from mo_parsing.exceptions import ParseException, RecursiveGrammarException
 from mo_parsing.results import ParseResults, ForwardResults, Annotation
@@ -504,6 +505,9 @@ class SkipTo(ParseEnhancement):
             return ParseResults(self, start, before_end, skip_result, [])
 
 
+_rendering = local()  # IS THIS THREAD IN Forward.__str__?
+
+
 class Forward(ParserElement):
     """Forward declaration of an expression to be defined later -
     used for recursive grammars, such as algebraic infix notation.
@@ -546,7 +550,7 @@ class Forward(ParserElement):
         self.expr = None
         self.used_by = []
 
-        self._str = None  # avoid recursion
+        self._str = None  # last rendering
         self._in_regex = None  # avoid recursion
         self._in_expecting = None  # avoid recursion
         self.__in_whitespace = False
@@ -572,7 +576,7 @@ class Forward(ParserElement):
         self.used_by.append(expr)
 
     def __lshift__(self, other):
-        self._str = ""
+        self._str = None
         if is_forward(self.expr):
             return self.expr << other
 
@@ -671,16 +675,22 @@ class Forward(ParserElement):
         if self.parser_name:
             return self.parser_name
 
-        if self._str:
-            return self._str
+        # A Forward INSIDE A Forward IS NOT EXPANDED: AVOIDS INFINITE RECURSION, AND
+        # THE TEXT DOES NOT DEPEND ON WHICH ONE WAS RENDERED FIRST
+        if getattr(_rendering, "forward", False):
+            return "Forward: ..."
+
+        naming = core.naming
+        if self._str and self._str[0] is naming:
+            return self._str[1]
 
-        # Avoid infinite recursion
-        self._str = "Forward: ..."
+        _rendering.forward = True
         try:
-            self._str = "Forward: " + text(self.expr)[:1000]
-        except Exception:
-            pass
-        return self._str
+            output = "Forward: " + text(self.expr)[:1000]
+        finally:
+            _rendering.forward = False
+        self._str = naming, output
+        return output
 
     def __call__(self, name):
         output = self.copy()
-- 
2.43.0


From 56818dc1787c12d3396ae2902606739b970c8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 20/35] fix: Debugger and Profiler do not change what they
 observe

Both replaced _parse with a copy that had drifted: parse actions were given the
start of the attempt instead of the start of the match, the roll back check and,
for the Profiler, the wrapping of failures were missing, and an interrupt ended
in UnboundLocalError. A silent Debugger could still print. Sessions ending in
another order than they began, as on two threads, left a dead session installed.
---
 mo_parsing/core.py    | 57 ++++++++++++++++++++++++++++------
 mo_parsing/debug.py   | 56 +++++++++++++--------------------
 mo_parsing/profile.py | 72 +++++++++++++++++++++----------------------
 3 files changed, 105 insertions(+), 80 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 9e644c2..4d39b7c 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -512,15 +512,19 @@ class ParserElement(object):
             )
             raise ParseException(self, start, string, cause=cause) from None
 
-        if do_actions or self.parser_config.callDuringTry:
-            for fn in self.parse_action:
-                next_result = fn(result, result.start, string)
-                if next_result.end < result.end:
-                    Log.error(
-                        "parse action {{name}} not allowed to roll back the end of parsing",
-                        name=fn.__name__
-                    )
-                result = next_result
+        if self.parse_action and (do_actions or self.parser_config.callDuringTry):
+            return self._run_actions(result, string)
+        return result
+
+    def _run_actions(self, result, string):
+        for fn in self.parse_action:
+            next_result = fn(result, result.start, string)
+            if next_result.end < result.end:
+                Log.error(
+                    "parse action {{name}} not allowed to roll back the end of parsing",
+                    name=fn.__name__
+                )
+            result = next_result
         return result
 
     def finalize(self):
@@ -846,6 +850,41 @@ def set_parser_names():
     naming = object()
 
 
+_plain_parse = ParserElement._parse
+_observers = []
+_observers_lock = RLock()
+
+
+def add_observer(owner, wrap):
+    """
+    PUT SOMETHING AROUND ParserElement._parse
+    :param owner: REQUIRED TO REMOVE IT AGAIN
+    :param wrap: FUNCTION ACCEPTING THE CURRENT _parse, RETURNING THE REPLACEMENT
+    """
+    with _observers_lock:
+        _observers.append((owner, wrap))
+        _set_parse()
+
+
+def remove_observer(owner):
+    """
+    REMOVE THE LAST OBSERVER OF owner, IN ANY ORDER RELATIVE TO OTHER owners
+    """
+    with _observers_lock:
+        for i in reversed(range(len(_observers))):
+            if _observers[i][0] is owner:
+                del _observers[i]
+                break
+        _set_parse()
+
+
+def _set_parse():
+    parse = _plain_parse
+    for _, wrap in _observers:
+        parse = wrap(parse)
+    ParserElement._parse = parse
+
+
 NO_PARSER = (
     ParserElement().set_parser_name("<nothing>")
 )  # USE THIS WHEN YOU DO NOT CARE ABOUT THE PARSER TYPE
diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..c610810 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -3,69 +3,57 @@ import sys
 
 from mo_future import text
 
-from mo_parsing.core import ParserElement
+from mo_parsing.core import add_observer, remove_observer
 from mo_parsing.utils import (
     quote,
     lineno,
     col,
     stack_depth,
     quote as plain_quote,
-    ParseException,
 )
 
 DEBUGGER = None
+_active = []
 _max_preamble = 60
 
 
 class Debugger(object):
     def __init__(self, silent=False):
-        self.previous_parse = None
-        self.was_debugging = None
         self.parse_count = 0
         self.max_stack_depth = 0
         self.silent = silent
 
     def __enter__(self):
         global DEBUGGER
-        self.was_debugging = DEBUGGER
+        add_observer(self, self._wrap)
+        _active.append(self)
         DEBUGGER = self
-        self.previous_parse = ParserElement._parse
-        ParserElement._parse = _debug_parse(self)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         global DEBUGGER
-        ParserElement._parse = self.previous_parse
-        DEBUGGER = self.was_debugging
+        remove_observer(self)
+        _active.remove(self)
+        DEBUGGER = _active[-1] if _active else None
 
+    def _wrap(self, parse):
+        return _debug_parse(self, parse)
 
-def _debug_parse(debugger):
+
+def _debug_parse(debugger, parse):
     def debug_parse(self, string, start, do_actions=True):
-        if not debugger.silent:
-            _try(self, start, string)
-        loc = start
-        try:
-            debugger.parse_count += 1
-            debugger.max_stack_depth = stackdepth()
-            tokens = self.parse_impl(string, loc, do_actions)
-        except ParseException as cause:
-            self.parser_config.fail_action and self.parser_config.fail_action(
-                self, start, string, cause
-            )
-            if not debugger.silent:
-                fail(self, start, string, cause)
-            raise ParseException(self, start, string, cause=cause) from None
-
-        if self.parse_action and (do_actions or self.parser_config.callDuringTry):
-            try:
-                for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
-            except Exception as cause:
-                fail(self, start, string, cause)
-                raise
-        if not debugger.silent:
-            match(self, loc, tokens.end, string, tokens)
+        debugger.parse_count += 1
+        debugger.max_stack_depth = max(debugger.max_stack_depth, stackdepth())
+        if debugger.silent:
+            return parse(self, string, start, do_actions)
 
+        _try(self, start, string)
+        try:
+            tokens = parse(self, string, start, do_actions)
+        except Exception as cause:
+            fail(self, start, string, cause)
+            raise
+        match(self, start, tokens.end, string, tokens)
         return tokens
 
     return debug_parse
diff --git a/mo_parsing/profile.py b/mo_parsing/profile.py
index 8d867fc..b0f38a5 100644
--- a/mo_parsing/profile.py
+++ b/mo_parsing/profile.py
@@ -3,7 +3,8 @@ from json import dumps as value2json
 
 from mo_dots import to_data
 
-from mo_parsing.core import ParserElement
+from mo_parsing.core import add_observer, remove_observer
+from mo_parsing.exceptions import ParseException
 from mo_parsing.utils import Log
 
 try:
@@ -22,15 +23,17 @@ class Profiler(object):
         :param file:
         """
         self.file = File(file).set_extension("tab")
-        self.previous_parse = None
+        self.timing = {}
 
     def __enter__(self):
-        timing.clear()
-        self.previous_parse = ParserElement._parse
-        ParserElement._parse = _profile_parse
+        self.timing.clear()
+        add_observer(self, self._wrap)
+
+    def _wrap(self, parse):
+        return _profile_parse(self.timing)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        ParserElement._parse = self.previous_parse
+        remove_observer(self)
         profile = jx.sort(
             [
                 {
@@ -44,7 +47,7 @@ class Profiler(object):
                     "per_parse": parse / (match + fail),
                     "per_overhead": (all - parse) / (match + fail + cache),
                 }
-                for parser, (cache, match, fail, parse, all) in timing.items()
+                for parser, (cache, match, fail, parse, all) in list(self.timing.items())
             ],
             {"total_parse": "desc"},
         )
@@ -53,39 +56,34 @@ class Profiler(object):
         ).write(_list2tab(profile))
 
 
-timing = {}
-
-
-def _profile_parse(self, string, start, do_actions=True):
-    all_start = process_time()
-    try:
+def _profile_parse(timing):
+    def profile_parse(self, string, start, do_actions=True):
+        # SAME AS ParserElement._parse, BUT WITH TIMING
+        match = 2
+        parse_start = parse_end = process_time()
         try:
-            # preloc = self.whitespace.skip(string, start)
-            preloc = start
-            parse_start = process_time()
-            tokens = self.parse_impl(string, preloc, do_actions)
+            try:
+                result = self.parse_impl(string, start, do_actions)
+            except ParseException as cause:
+                parse_end = process_time()
+                self.parser_config.fail_action and self.parser_config.fail_action(
+                    self, start, string, cause
+                )
+                raise ParseException(self, start, string, cause=cause) from None
+
             parse_end = process_time()
             match = 1
-        except Exception as cause:
-            parse_end = process_time()
-            match = 2
-            self.parser_config.fail_action and self.parser_config.fail_action(
-                self, start, string, cause
-            )
-            raise
-
-        if self.parse_action and (do_actions or self.parser_config.callDuringTry):
-            for fn in self.parse_action:
-                tokens = fn(tokens, start, string)
-
-        return tokens
-    finally:
-        timing_entry = timing.get(self)
-        if timing_entry is None:
-            timing_entry = timing[self] = [0, 0, 0, 0, 0]
-        timing_entry[match] += 1  # cache
-        timing_entry[3] += parse_end - parse_start  # parse time
-        timing_entry[4] += process_time() - all_start  # all time
+            if self.parse_action and (do_actions or self.parser_config.callDuringTry):
+                return self._run_actions(result, string)
+            return result
+        finally:
+            timing_entry = timing.get(self) or [0, 0, 0, 0, 0]
+            timing_entry[match] += 1
+            timing_entry[3] += parse_end - parse_start  # parse time
+            timing_entry[4] += process_time() - parse_start  # all time
+            timing[self] = timing_entry
+
+    return profile_parse
 
 
 def _list2tab(rows):
-- 
2.43.0


From 7722370cb98c76af7fb7e9823cdf545e5e9335bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:32 +0000
Subject: [PATCH 21/35] fix: compiling a Regex with groups does not change the
 current whitespace

The parse action for groups pushed a context on the global stack; Combine does
not use it.
---
 mo_parsing/regex.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 35c9450..fdbe860 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -105,12 +105,11 @@ def DEC():
 
 
 def name_token(tokens):
-    with NO_WHITESPACE:
-        n = tokens["name"]
-        v = tokens["value"]
-        if not n:
-            n = str(num_captures)
-        return Combine(v).set_token_name(n)
+    n = tokens["name"]
+    v = tokens["value"]
+    if not n:
+        n = str(num_captures)
+    return Combine(v).set_token_name(n)
 
 
 def repeat(tokens):
-- 
2.43.0


From 1f4c81d0f29aee16ced509a6091fe529be27dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:32 +0000
Subject: [PATCH 22/35] fix: preparing an expression gives the same every time,
 also after an interrupt

---
 mo_parsing/expressions.py | 41 +++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0803713..722b4fa 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -87,9 +87,11 @@ class ParseExpression(ParserElement):
             return output
 
     def streamline(self):
+        """
+        THE CALLER MARKS THE OUTPUT streamlined WHEN IT IS DONE
+        """
         if self.streamlined:
             return self
-        self.streamlined = True
 
         # collapse nested And's of the form And(And(And(a, b), c), d) to And(a, b, c, d)
         # but only if there are no parse actions or resultsNames on the nested And's
@@ -105,26 +107,30 @@ class ParseExpression(ParserElement):
                 Or,
                 MatchFirst,
             )  # TODO: not correct, but allows merging of the two to a single longer list
-        for e in self.exprs:
-            f = e.streamline()
-            same = same and f is e
-            if f in acc and clazz in (Or, MatchFirst):
-                same = False
-                continue
-            elif f.is_annotated():
-                acc.append(f)
-            elif isinstance(f, clazz):
-                same = False
-                acc.extend(f.exprs)
-            else:
-                acc.append(f)
+        self.streamlined = True  # AVOID INFINITE RECURSION
+        try:
+            for e in self.exprs:
+                f = e.streamline()
+                same = same and f is e
+                if f in acc and clazz in (Or, MatchFirst):
+                    same = False
+                    continue
+                elif f.is_annotated():
+                    acc.append(f)
+                elif isinstance(f, clazz):
+                    same = False
+                    acc.extend(f.exprs)
+                else:
+                    acc.append(f)
+        finally:
+            # NOT DONE, OR DONE WITH ANOTHER ELEMENT: THIS ONE IS STILL NOT PREPARED
+            self.streamlined = False
 
         if same:
             return self
 
         output = self.copy()
         output.exprs = acc
-        output.streamlined = True
         return output
 
     def __regex__(self):
@@ -383,8 +389,8 @@ class Or(ParseExpression):
 
         output.alternate = faster(output.exprs)
 
-        output.streamlined = True
         output.check_recursion()
+        output.streamlined = True
         return output
 
     @property
@@ -547,8 +553,8 @@ class MatchFirst(ParseExpression):
 
         output.alternate = faster(output.exprs)
 
-        output.streamlined = True
         output.check_recursion()
+        output.streamlined = True
         return output
 
     def check_recursion(self, seen=empty_tuple):
@@ -766,6 +772,7 @@ class MatchAll(ParseExpression):
                 for e in output.exprs
             ],
         )
+        output.streamlined = True
         return output
 
     def _min_length(self):
-- 
2.43.0


From 94a6c9a5055cd091b5531fd1c74a39af06fd90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:53 +0000
Subject: [PATCH 23/35] fix: append() on a copy of an expression does not
 change the original

ParseExpression.copy shared the list of parts, and append() changes that list in
place: the original expression got the appended part too.
---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 722b4fa..f6d6efc 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -71,7 +71,7 @@ class ParseExpression(ParserElement):
 
     def copy(self):
         output = ParserElement.copy(self)
-        output.exprs = self.exprs
+        output.exprs = list(self.exprs)
         return output
 
     def append(self, other):
-- 
2.43.0


From 330037eeb91e44ffcd8e34e70fcbd238efedd187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:13 +0000
Subject: [PATCH 24/35] fix: the result of a missing name is not shared by all
 results

---
 mo_parsing/results.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 5f76f1e..c534ea0 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -70,7 +70,7 @@ class ParseResults(object):
         if is_text(item):
             values = list(self._get_item_by_name(item))
             if len(values) == 0:
-                return NO_RESULTS
+                return _nothing()
             if len(values) == 1:
                 return values[0]
             # ENCAPSULATE IN A ParseResults FOR FURTHER NAVIGATION
@@ -90,13 +90,13 @@ class ParseResults(object):
         if isinstance(k, (slice, int)):
             Log.error("not supported")
 
-        if v is None:
+        if v is None or _is_nothing(v):
             v = NO_RESULTS
 
         for i, tok in enumerate(self.tokens):
             if isinstance(tok, ParseResults):
                 if tok.name == k:
-                    self.tokens[i] = v
+                    self.tokens[i] = _nothing() if v is NO_RESULTS else v
                     v = NO_RESULTS  # ERASE ALL OTHERS
                 elif isinstance(tok.type, Group):
                     continue
@@ -355,6 +355,15 @@ class ParseResults(object):
             return ""
 
 
+def _nothing():
+    # CALLER MAY CHANGE IT
+    return ParseResults(NO_PARSER, -1, 0, [], [])
+
+
+def _is_nothing(value):
+    return isinstance(value, ParseResults) and value.type is NO_PARSER and not value.tokens
+
+
 class ForwardResults(ParseResults):
     __slots__ = []
 
-- 
2.43.0


From 966748a3b34df0fee7415a3bef4263f5e510ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 25/35] fix: MatchAll leads with the whitespace it was built
 with, not the one current when finalized

---
 mo_parsing/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index f6d6efc..5166092 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -781,7 +781,7 @@ class MatchAll(ParseExpression):
 
     @property
     def whitespace(self):
-        return [e.whitespace for e in self.exprs]
+        return self.parser_config.whitespace
 
     def parse_impl(self, string, start, do_actions=True):
         end = start
-- 
2.43.0


From b8bfbf3fc740893f589b6673849cf6a1df55cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 26/35] fix: an expression being prepared does not look
 prepared to other threads

---
 mo_parsing/core.py        | 13 ++++++++++++-
 mo_parsing/enhancement.py |  4 ++--
 mo_parsing/expressions.py | 21 ++++++++++++++-------
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 4d39b7c..c4df23f 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -1,7 +1,7 @@
 # encoding: utf-8
 import sys
 from collections import namedtuple
-from threading import RLock
+from threading import RLock, local
 from typing import List
 
 from mo_future import text, first
@@ -72,6 +72,17 @@ naming = object()  # REPLACED WHEN NAMES CHANGE, FOR THOSE THAT REMEMBER RENDERI
 streamlined = {}
 
 
+class _Streamlining(local):
+    elements = ()  # WHAT THIS THREAD IS STREAMLINING
+
+
+_streamlining = _Streamlining()
+
+
+def is_streamlined(element):
+    return element.streamlined or any(e is element for e in _streamlining.elements)
+
+
 def _enter(func, *args):
     with locker:
         restores = []
diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 49e1225..dbd8e9c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -7,7 +7,7 @@ from mo_future import text, is_text
 from mo_imports import export, expect
 
 from mo_parsing import core, whitespaces
-from mo_parsing.core import ParserElement
+from mo_parsing.core import ParserElement, is_streamlined
 from mo_parsing.exceptions import ParseException, RecursiveGrammarException
 from mo_parsing.results import ParseResults, ForwardResults, Annotation
 from mo_parsing.utils import (
@@ -602,7 +602,7 @@ class Forward(ParserElement):
             return output
 
     def streamline(self):
-        if not self.expr or self.expr.streamlined:
+        if not self.expr or is_streamlined(self.expr):
             return self
 
         self.expr = self.expr.streamline()
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 5166092..b3593a7 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -7,7 +7,12 @@ from mo_future import Iterable, text, generator_types
 from mo_imports import export
 
 from mo_parsing import whitespaces
-from mo_parsing.core import ParserElement, _PendingSkip
+from mo_parsing.core import (
+    ParserElement,
+    _PendingSkip,
+    _streamlining,
+    is_streamlined,
+)
 from mo_parsing.enhancement import Optional, SkipTo, Many, LookBehind
 from mo_parsing.exceptions import (
     ParseException,
@@ -90,7 +95,7 @@ class ParseExpression(ParserElement):
         """
         THE CALLER MARKS THE OUTPUT streamlined WHEN IT IS DONE
         """
-        if self.streamlined:
+        if is_streamlined(self):
             return self
 
         # collapse nested And's of the form And(And(And(a, b), c), d) to And(a, b, c, d)
@@ -107,7 +112,9 @@ class ParseExpression(ParserElement):
                 Or,
                 MatchFirst,
             )  # TODO: not correct, but allows merging of the two to a single longer list
-        self.streamlined = True  # AVOID INFINITE RECURSION
+        # AVOID INFINITE RECURSION, THE MARK IS NOT FOR OTHER THREADS TO SEE
+        streamlining = _streamlining.elements
+        _streamlining.elements = streamlining + (self,)
         try:
             for e in self.exprs:
                 f = e.streamline()
@@ -124,7 +131,7 @@ class ParseExpression(ParserElement):
                     acc.append(f)
         finally:
             # NOT DONE, OR DONE WITH ANOTHER ELEMENT: THIS ONE IS STILL NOT PREPARED
-            self.streamlined = False
+            _streamlining.elements = streamlining
 
         if same:
             return self
@@ -372,7 +379,7 @@ class Or(ParseExpression):
         return min(e.min_length() for e in self.exprs)
 
     def streamline(self):
-        if self.streamlined:
+        if is_streamlined(self):
             return self
 
         output = ParseExpression.streamline(self)
@@ -538,7 +545,7 @@ class MatchFirst(ParseExpression):
         raise ParseException(self, start, string, cause=failures)
 
     def streamline(self):
-        if self.streamlined:
+        if is_streamlined(self):
             return self
 
         output = ParseExpression.streamline(self)
@@ -759,7 +766,7 @@ class MatchAll(ParseExpression):
         )
 
     def streamline(self):
-        if self.streamlined:
+        if is_streamlined(self):
             return self
         output = ParseExpression.streamline(self)
         output.set_config(
-- 
2.43.0


From 045426f3b496c35e7707f3922b4809dcfe541643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 27/35] fix: a counted_array used elsewhere does not remember
 the last count

---
 mo_parsing/helpers.py | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index ed6d2e6..187a533 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -18,6 +18,7 @@ from mo_parsing.enhancement import (
     ZeroOrMore,
     OpenDict,
     Many,
+    ParseEnhancement,
 )
 from mo_parsing.exceptions import ParseException
 from mo_parsing.expressions import And
@@ -42,6 +43,7 @@ from mo_parsing.utils import (
     nums,
     printables,
     Log,
+    append_config,
 )
 from mo_parsing.whitespaces import Whitespace, STANDARD_WHITESPACE, NO_WHITESPACE
 
@@ -160,6 +162,41 @@ unicode_string = Combine(
 ).set_parser_name("unicode string literal")
 
 
+class _CountedItems(ParseEnhancement):
+    """
+    THE ITEMS OF A counted_array, HOW MANY IS ONLY KNOWN DURING THE PARSE
+    """
+
+    __slots__ = ["count"]
+    Config = append_config(ParseEnhancement, "whitespace")
+
+    def __init__(self, expr, whitespace):
+        ParseEnhancement.__init__(self, expr)
+        self.set_config(whitespace=whitespace)
+        self.count = [0]
+
+    def copy(self):
+        output = ParseEnhancement.copy(self)
+        output.count = self.count
+        return output
+
+    def expecting(self):
+        return {}
+
+    def min_length(self):
+        return 0
+
+    def streamline(self):
+        return self
+
+    def parse_impl(self, string, start, do_actions=True):
+        items = Many(self.expr, exact=self.count[0], whitespace=self.parser_config.whitespace)
+        return Group(items).streamline()._parse(string, start, do_actions)
+
+    def __regex__(self):
+        Log.error("the number of items is not known")
+
+
 def counted_array(expr, int_expr=None):
     """Helper to define a counted list of expressions.
 
@@ -186,12 +223,10 @@ def counted_array(expr, int_expr=None):
     if int_expr is None:
         int_expr = Word(nums) / (lambda t: int(t[0]))
 
-    array_expr = Forward()
-    whitespace = whitespaces.CURRENT
+    array_expr = _CountedItems(expr, whitespaces.CURRENT)
 
     def countFieldParseAction(t, l, s):
-        n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespace))
+        array_expr.count[0] = t[0]
         return []
 
     int_expr = (
-- 
2.43.0


From c749c732bdb421818a254e51e64673a57957819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 28/35] fix: White does not match at the end of the string, it
 does not raise IndexError

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..227a671 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -600,7 +600,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
-- 
2.43.0


From 74ee4d64c15527bf7b190d163f6df7d3b54c7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:57 +0000
Subject: [PATCH 29/35] fix: what one thread is asking of a Forward or
 Whitespace does not mislead other threads

---
 mo_parsing/enhancement.py | 36 ++++++++++++++++--------------------
 mo_parsing/utils.py       | 12 ++++++++++++
 mo_parsing/whitespaces.py | 11 ++++++-----
 3 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index dbd8e9c..5155e21 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -19,7 +19,7 @@ from mo_parsing.utils import (
     regex_compile,
     wrap_parse_action,
 )
-from mo_parsing.utils import MAX_INT, is_forward
+from mo_parsing.utils import MAX_INT, asking, is_forward
 
 Word: object
 (Token, NoMatch, Literal, Keyword, Word, CharsNotIn, StringEnd, Empty, Char, And,) = expect(
@@ -540,9 +540,6 @@ class Forward(ParserElement):
         "expr",
         "used_by",
         "_str",
-        "_in_regex",
-        "_in_expecting",
-        "__in_whitespace",
     ]
 
     def __init__(self, expr=Null):
@@ -551,9 +548,6 @@ class Forward(ParserElement):
         self.used_by = []
 
         self._str = None  # last rendering
-        self._in_regex = None  # avoid recursion
-        self._in_expecting = None  # avoid recursion
-        self.__in_whitespace = False
         if expr:
             self << whitespaces.CURRENT.normalize(expr)
 
@@ -561,10 +555,6 @@ class Forward(ParserElement):
         output = ParserElement.copy(self)
         output.expr = self
         output._str = None
-        output._in_regex = None
-        output._in_expecting = None
-        output.__in_whitespace = False
-
         output.used_by = []
         return output
 
@@ -616,15 +606,17 @@ class Forward(ParserElement):
             self.expr.check_recursion(seen + (self,))
 
     def expecting(self):
-        if self._in_expecting:
+        question = "expecting", id(self)
+        before = asking.questions
+        if question in before:
             return {}
-        self._in_expecting = True
+        asking.questions = before | {question}
         try:
             if not self.expr:
                 return {}
             return self.expr.expecting()
         finally:
-            self._in_expecting = False
+            asking.questions = before
 
     def min_length(self):
         if self.min_length_cache is None and self.expr:
@@ -637,15 +629,17 @@ class Forward(ParserElement):
 
     @property
     def whitespace(self):
-        if self.__in_whitespace:
+        question = "whitespace", id(self)
+        before = asking.questions
+        if question in before:
             return None
 
         # Avoid infinite recursion by setting a temporary
-        self.__in_whitespace = True
+        asking.questions = before | {question}
         try:
             return self.expr.whitespace
         finally:
-            self.__in_whitespace = False
+            asking.questions = before
 
     def parse_impl(self, string, loc, do_actions=True):
         try:
@@ -659,17 +653,19 @@ class Forward(ParserElement):
             raise cause from None
 
     def __regex__(self):
-        if self._in_regex:
+        question = "regex", id(self)
+        before = asking.questions
+        if question in before:
             Log.error("recursion not supported")
 
         if not self.expr:
             Log.error("Forward is incomplete")
 
+        asking.questions = before | {question}
         try:
-            self._in_regex = True
             return self.expr.__regex__()
         finally:
-            self._in_regex = None
+            asking.questions = before
 
     def __str__(self):
         if self.parser_name:
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c364fe5..93bb596 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -9,6 +9,7 @@ import sys
 import warnings
 from collections import namedtuple
 from math import isnan
+from threading import local
 from types import FunctionType
 
 from mo_dots import is_null, Null, is_many
@@ -249,6 +250,17 @@ def stack_depth():
     return count
 
 
+class _Asking(local):
+    """
+    WHAT THIS THREAD IS ASKING, OF WHICH ELEMENT; TO DETECT RECURSION
+    """
+
+    questions = frozenset()
+
+
+asking = _Asking()
+
+
 def get_function_arguments(func):
     try:
         return func.__code__.co_varnames[: func.__code__.co_argcount]
diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index 76aa4c9..c4d04f6 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -8,7 +8,7 @@ from mo_imports import expect, Expecting
 
 from mo_parsing.core import ParserElement
 from mo_parsing.results import ParseResults
-from mo_parsing.utils import Log, indent, quote, regex_range, alphanums, regex_iso
+from mo_parsing.utils import Log, asking, indent, quote, regex_range, alphanums, regex_iso
 
 Literal, Token, Empty = expect("Literal", "Token", "Empty")
 
@@ -33,7 +33,6 @@ class Whitespace(ParserElement):
         self.expr = None
         self.parent = None
         self.copies = []
-        self._in_regex = False
         self.set_whitespace(white)
 
     def copy(self):
@@ -166,9 +165,11 @@ class Whitespace(ParserElement):
         return end
 
     def __regex__(self):
-        if self._in_regex:
+        question = "regex", id(self)
+        before = asking.questions
+        if question in before:
             return "*", ""
-        self._in_regex = True
+        asking.questions = before | {question}
         try:
             white = regex_range(self.white_chars)
             if not self.ignore_list:
@@ -180,7 +181,7 @@ class Whitespace(ParserElement):
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
             return "+", f"(?:{white}*(?:{ignored}))*{white}*"
         finally:
-            self._in_regex = False
+            asking.questions = before
 
     def __str__(self):
         output = ["{"]
-- 
2.43.0


From d95d2bb58bfe1fb89da87e85a52f0619f2d24da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 30/35] fix: a Forward does not hold the expressions that were
 made with it

---
 mo_parsing/enhancement.py | 10 +---------
 mo_parsing/expressions.py |  4 ----
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 5155e21..ec32b81 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -39,9 +39,7 @@ class ParseEnhancement(ParserElement):
 
     def __init__(self, expr):
         ParserElement.__init__(self)
-        self.expr = expr = whitespaces.CURRENT.normalize(expr)
-        if is_forward(expr):
-            expr.track(self)
+        self.expr = whitespaces.CURRENT.normalize(expr)
 
     def copy(self):
         output = ParserElement.copy(self)
@@ -538,14 +536,12 @@ class Forward(ParserElement):
 
     __slots__ = [
         "expr",
-        "used_by",
         "_str",
     ]
 
     def __init__(self, expr=Null):
         ParserElement.__init__(self)
         self.expr = None
-        self.used_by = []
 
         self._str = None  # last rendering
         if expr:
@@ -555,16 +551,12 @@ class Forward(ParserElement):
         output = ParserElement.copy(self)
         output.expr = self
         output._str = None
-        output.used_by = []
         return output
 
     @property
     def name(self):
         return self.type.expr.token_name
 
-    def track(self, expr):
-        self.used_by.append(expr)
-
     def __lshift__(self, other):
         self._str = None
         if is_forward(self.expr):
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index b3593a7..d6d4a2e 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -22,7 +22,6 @@ from mo_parsing.results import ParseResults
 from mo_parsing.tokens import Empty
 from mo_parsing.utils import (
     empty_tuple,
-    is_forward,
     regex_iso,
     Log,
     append_config,
@@ -50,9 +49,6 @@ class ParseExpression(ParserElement):
             exprs = [exprs]
 
         self.exprs = [whitespaces.CURRENT.normalize(e) for e in exprs]
-        for e in self.exprs:
-            if is_forward(e):
-                e.track(self)
 
     def expecting(self):
         output = OrderedDict()
-- 
2.43.0


From 6ffab8ad1976d90587e5d2b4d00c5adc4d81e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 31/35] fix: character sets are the same when two threads are
 the first to read one

---
 mo_parsing/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 93bb596..1c94557 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -407,15 +407,16 @@ class _lazyclassproperty(object):
     def __get__(self, obj, cls):
         if cls is None:
             cls = type(obj)
-        if not hasattr(cls, "_intern") or any(
-            cls._intern is getattr(superclass, "_intern", [])
-            for superclass in cls.__mro__[1:]
-        ):
-            cls._intern = {}
+        intern = cls.__dict__.get("_intern")
+        if intern is None:
+            cls._intern = intern = {}
         attrname = self.fn.__name__
-        if attrname not in cls._intern:
-            cls._intern[attrname] = self.fn(cls)
-        return cls._intern[attrname]
+        try:
+            return intern[attrname]
+        except KeyError:
+            # OTHER THREADS MAY BE DOING THE SAME, THEY GET THE SAME
+            value = intern[attrname] = self.fn(cls)
+            return value
 
 
 class unicode_set(object):
-- 
2.43.0


From b1b88c188204114d4ac34d97a1378c4643ee2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:12 +0000
Subject: [PATCH 32/35] fix: an expression is not prepared another way because
 memory, or the stack, ran out

---
 mo_parsing/enhancement.py | 2 ++
 mo_parsing/expressions.py | 4 ++++
 mo_parsing/utils.py       | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ec32b81..9c4e02c 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -141,6 +141,8 @@ class NotAny(LookAhead):
         try:
             prec, pattern = self.expr.__regex__()
             self.regex = regex_compile(f"(?!{pattern})")
+        except (MemoryError, RecursionError):
+            raise
         except Exception as c:
             self.regex = None
 
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index d6d4a2e..36786b0 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -617,6 +617,8 @@ def faster(exprs):
                 try:
                     e = Fast(acc)
                     alternating.append(e)
+                except (MemoryError, RecursionError):
+                    raise  # SAYS NOTHING ABOUT THE EXPRESSIONS
                 except Exception as c:
                     alternating.extend(out)
                 acc = []
@@ -634,6 +636,8 @@ def faster(exprs):
         try:
             e = Fast(acc)
             alternating.append(e)
+        except (MemoryError, RecursionError):
+            raise
         except Exception as cause:
             alternating.extend(out)
     return alternating
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 1c94557..06bfa15 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -60,6 +60,8 @@ def regex_compile(pattern):
     """REGEX COMPILE WITHOUT THE ON-A-SINGLE-LINE ASSUMPTION"""
     try:
         return re.compile(pattern, re.DOTALL)
+    except (MemoryError, RecursionError):
+        raise
     except Exception as cause:
         Log.error("could not compile {{pattern}}", pattern=pattern, cause=cause)
 
-- 
2.43.0


From adee658ff181cdd68d34cff99b170a25ada6c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:13 +0000
Subject: [PATCH 33/35] fix: repr of results near the end of the stack does not
 leave parts out

---
 mo_parsing/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index c534ea0..ffa827b 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -257,6 +257,8 @@ class ParseResults(object):
     def __repr__(self):
         try:
             return repr(self.tokens)
+        except (MemoryError, RecursionError):
+            raise  # NOT A TEXT WITH PARTS MISSING
         except Exception as e:
             Log.warning("problem", cause=e)
             return "[]"
-- 
2.43.0


From e854c113d88e5c96d2d8c9442d0f2edb343edc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:41 +0000
Subject: [PATCH 34/35] fix: setting or deleting a name in a copy or sum of
 results does not change the results it was made of

---
 mo_parsing/results.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index ffa827b..4f1dcac 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -102,8 +102,8 @@ class ParseResults(object):
                     continue
                 elif tok.name:
                     continue
-
-                tok.__setitem__(k, NO_RESULTS)  # ERASE ALL CHILDREN
+                else:
+                    self.tokens[i] = tok._without(k)  # ERASE ALL CHILDREN
 
         if v is not NO_RESULTS:
             tokens = self.tokens
@@ -114,6 +114,22 @@ class ParseResults(object):
             else:
                 tokens.append(Annotation(k, -1, 0, enlist(v)))
 
+    def _clone(self):
+        output = object.__new__(self.__class__)
+        output._type = self._type
+        output.start = self.start
+        output.end = self.end
+        output.tokens = list(self.tokens)
+        output.timing = self.timing
+        output.failures = self.failures
+        return output
+
+    def _without(self, k):
+        # OTHER RESULTS MAY HAVE THIS ONE TOO (COPIES, SUMS): DO NOT CHANGE IT
+        output = self._clone()
+        output[k] = NO_RESULTS
+        return output
+
     def __contains__(self, k):
         return any((r.name) == k for r in self.tokens)
 
@@ -377,7 +393,9 @@ class ForwardResults(ParseResults):
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
-        self.tokens[0][k] = v
+        result = self.tokens[0]._clone()
+        result[k] = v
+        self.tokens[0] = result
 
     def __bool__(self):
         return self.tokens[0].__bool__()
-- 
2.43.0


From 0f3ebcb0dd445ab0c88497b8d157a054ff70f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:08 +0000
Subject: [PATCH 35/35] fix: append() to alternatives that were already
 streamlined was ignored

---
 mo_parsing/expressions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 36786b0..eda892b 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -77,6 +77,8 @@ class ParseExpression(ParserElement):
 
     def append(self, other):
         self.exprs.append(other)
+        self.streamlined = False
+        self.min_length_cache = -1
         return self
 
     def leave_whitespace(self):
@@ -371,6 +373,10 @@ class Or(ParseExpression):
         output.alternate = self.alternate
         return output
 
+    def append(self, other):
+        self.alternate = self.exprs
+        return ParseExpression.append(self, other)
+
     def _min_length(self):
         return min(e.min_length() for e in self.exprs)
 
@@ -516,6 +522,10 @@ class MatchFirst(ParseExpression):
         output.alternate = self.alternate
         return output
 
+    def append(self, other):
+        self.alternate = self.exprs
+        return ParseExpression.append(self, other)
+
     def _min_length(self):
         if self.exprs:
             return min(e.min_length() for e in self.exprs)
-- 
2.43.0

