From 133edf163c141bd5dc29340a84e2e481380c02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 01/66] fix: StringStart returns a ParseResults

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 11ea5fa..ddd628d 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -697,7 +697,7 @@ class StringStart(Token):
             # see if entire string up to here is just whitespace and ignoreables
             # if loc != self.whitespace.skip(string, 0):
             raise ParseException(self, loc, string)
-        return []
+        return ParseResults(self, loc, loc, [], [])
 
     def min_length(self):
         return 0
-- 
2.43.0


From c64d6de44b05c6490b2b400bbd124700c98aa651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:33 +0000
Subject: [PATCH 02/66] fix: CharsNotIn honours its min, max and exact lengths

---
 mo_parsing/tokens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index ddd628d..d8e0571 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -514,11 +514,11 @@ class CharsNotIn(Token):
             elif min == 1:
                 suffix = "+"
             else:
-                suffix = "{" + str(min) + ":}"
+                suffix = "{" + str(min) + ",}"
         elif min == 1 and max == 1:
             suffix = ""
         else:
-            suffix = "{" + str(min) + ":" + str(max) + "}"
+            suffix = "{" + str(min) + "," + str(max) + "}"
 
         self.set_config(
             regex=regex_compile(regex + suffix),
-- 
2.43.0


From 2c3ee7ee2599f86009cdad0b4b2cc095a8d9a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:43 +0000
Subject: [PATCH 03/66] fix: CaselessLiteral matches punctuation (the pattern
 was escaped twice)

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index d8e0571..fe31d4e 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -262,7 +262,7 @@ class CaselessLiteral(Literal):
             Log.error("Literal must be at least one character")
         Token.__init__(self)
         self.set_config(
-            match=match, regex=regex_compile(regex_caseless(re.escape(match))),
+            match=match, regex=regex_compile(regex_caseless(match)),
         )
         self.parser_name = match
 
-- 
2.43.0


From ede69b7fd773ccab8d7c7aa9dd472f591063a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:11 +0000
Subject: [PATCH 04/66] fix: a maximum of zero repetitions is not an unlimited
 number (Word with max=1)

---
 mo_parsing/core.py   | 8 ++------
 mo_parsing/tokens.py | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 456af6f..e3cca03 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -610,13 +610,9 @@ class ParserElement(object):
         elif min_elements < 0:
             raise ValueError("cannot multiply ParserElement by negative value")
 
-        if max_elements == Ellipsis or not max_elements:
+        if max_elements is Ellipsis or max_elements is None:
             max_elements = MAX_INT
-        elif (
-            not isinstance(max_elements, int)
-            or max_elements < min_elements
-            or max_elements == 0
-        ):
+        elif not isinstance(max_elements, int) or max_elements < min_elements:
             raise TypeError(
                 "cannot multiply 'ParserElement' and ('%s', '%s') objects",
                 type(other[0]),
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index fe31d4e..26203f9 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -57,7 +57,7 @@ class Empty(Token):
         return self
 
     def __regex__(self):
-        return self.whitespace.__regex__()
+        return "*", "(?:)"
 
     def __str__(self):
         return self.parser_name or "Empty"
@@ -362,6 +362,7 @@ class Word(Token):
             body_chars = init_chars
         if exact:
             min = max = exact
+        max = max or None
 
         if min < 1:
             raise ValueError(
-- 
2.43.0


From 372a39c17aeafb57cadb8d7fb74981bfda0322e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:54 +0000
Subject: [PATCH 05/66] fix: NotAny decides by the parser itself when a regex
 can not (recursion, actions, sequences)

---
 mo_parsing/enhancement.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 47cd4b3..ffa6142 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -139,11 +139,12 @@ class NotAny(LookAhead):
 
     def __init__(self, expr):
         super(NotAny, self).__init__(expr)
-        try:
-            prec, pattern = self.expr.__regex__()
-            self.regex = regex_compile(f"(?!{pattern})")
-        except Exception as c:
-            self.regex = None
+        self.regex = None
+        if _is_plain(self.expr):
+            try:
+                self.regex = regex_compile(self.__regex__()[1])
+            except Exception:
+                pass
 
     def copy(self):
         output = ParseEnhancement.copy(self)
@@ -159,10 +160,10 @@ class NotAny(LookAhead):
             raise ParseException(self, start, string) from None
         else:
             try:
-                self.expr.parse(string, start, do_actions=True)
-                raise ParseException(self, start, string) from None
-            except:
+                self.expr._parse(string, start)
+            except ParseException:
                 return ParseResults(self, start, start, [], [])
+            raise ParseException(self, start, string) from None
 
     def streamline(self):
         output = ParseEnhancement.streamline(self)
@@ -181,7 +182,7 @@ class NotAny(LookAhead):
         return 0
 
     def __regex__(self):
-        return "*", self.regex.pattern
+        return "*", f"(?!{self.expr.__regex__()[1]})"
 
     def __str__(self):
         if self.parser_name:
@@ -189,6 +190,18 @@ class NotAny(LookAhead):
         return "~{" + str(self.expr) + "}"
 
 
+def _is_plain(expr):
+    """
+    RETURN True IF THE REGEX OF expr IS ENOUGH TO DECIDE IF IT MATCHES: NO PARSE ACTIONS THAT
+    MAY REFUSE, AND NO SEQUENCES, FOR WHICH A REGEX MAY BACKTRACK WHERE THE PARSER WILL NOT
+    """
+    if expr.parse_action:
+        return False
+    if expr.__class__.__name__ == "MatchFirst":
+        return all(_is_plain(e) for e in expr.exprs)
+    return isinstance(expr, Token)
+
+
 class Many(ParseEnhancement):
     __slots__ = []
     Config = append_config(ParseEnhancement, "whitespace", "min_match", "max_match", "end")
-- 
2.43.0


From 000dad009d5a0939f77de26c6874d5b223c95584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 06/66] fix: streamline keeps an Empty that carries parse
 actions or a name

---
 mo_parsing/enhancement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ffa6142..7d114cf 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -76,7 +76,7 @@ class ParseEnhancement(ParserElement):
             self.streamlined = True
             return self
 
-        if not expr or isinstance(expr, Empty) and not self.is_annotated():
+        if isinstance(expr, Empty) and not expr.is_annotated() and not self.is_annotated():
             return Empty()
 
         output = self.copy()
@@ -171,7 +171,7 @@ class NotAny(LookAhead):
             return NoMatch()
         if isinstance(output.expr, NoMatch):
             return Empty()
-        if isinstance(output.expr, Empty):
+        if isinstance(output.expr, Empty) and not output.expr.is_annotated():
             return NoMatch()
         return output
 
-- 
2.43.0


From cb655574f225f7098f0720c872a9b2cd01d82745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 07/66] fix: the regex of nested repetition, and of
 alternatives that may be empty

---
 mo_parsing/enhancement.py |  6 ++----
 mo_parsing/expressions.py | 12 ++----------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 7d114cf..904ad75 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -325,10 +325,8 @@ class Many(ParseEnhancement):
         else:
             suffix = "{" + text(self.parser_config.min_match) + "," + text(self.parser_config.max_match) + "}"
 
-        if end:
-            return "+", regex + suffix + end
-        else:
-            return "*", regex + suffix
+        # A QUANTIFIER CAN NOT DIRECTLY FOLLOW ANOTHER
+        return "+", regex + suffix + (end or "")
 
     def __call__(self, name):
         if not name:
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index e363941..9e31012 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -471,11 +471,7 @@ class Or(ParseExpression):
     def __regex__(self):
         return (
             "|",
-            "|".join(
-                regex_iso(*e.__regex__(), "|")
-                for e in self.exprs
-                if not isinstance(e, Empty)
-            ),
+            "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
         )
 
     def __str__(self):
@@ -564,11 +560,7 @@ class MatchFirst(ParseExpression):
     def __regex__(self):
         return (
             "|",
-            "|".join(
-                regex_iso(*e.__regex__(), "|")
-                for e in self.exprs
-                if not isinstance(e, Empty)
-            ),
+            "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
         )
 
     def __str__(self):
-- 
2.43.0


From c5a1ea23f38c46d981d29a837c10a36c99303448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 08/66] fix: repetition of an expression that matches nothing
 ends

---
 mo_parsing/enhancement.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 904ad75..d1990d3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -262,13 +262,14 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                if result.end == result.start:
+                    break  # NOTHING CONSUMED, THE NEXT ATTEMPT WILL BE THE SAME
                 end = result.end
-                if result.end - result.start:
-                    acc.append(result)
-                    failures.extend(result.failures)
-                    count += 1
-                    if count >= max:
-                        break
+                acc.append(result)
+                failures.extend(result.failures)
+                count += 1
+                if count >= max:
+                    break
 
         except ParseException as cause:
             failures.append(cause)
-- 
2.43.0


From b009f24841625596894c1df2df9f0967f2551b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:08 +0000
Subject: [PATCH 09/66] fix: White at the end of text, White is one token,
 minimum lengths of White and CloseMatch

---
 mo_parsing/tokens.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 26203f9..43a2b93 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -335,10 +335,13 @@ class CloseMatch(Token):
 
         raise ParseException(self, start, string)
 
+    def min_length(self):
+        return len(self.parser_config.match)
+
     def reverse(self):
-        return CloseMatch(self.parser_config.match[
-            ::-1, self.parser_config.max_mismatches
-        ])
+        return CloseMatch(
+            self.parser_config.match[::-1], self.parser_config.max_mismatches
+        )
 
 
 class Word(Token):
@@ -601,7 +604,7 @@ class White(Token):
         self.set_config(min_len=min, max_len=max, white_chars=white_chars)
 
     def parse_impl(self, string, start, do_actions=True):
-        if string[start] not in self.parser_config.white_chars:
+        if start >= len(string) or string[start] not in self.parser_config.white_chars:
             raise ParseException(self, start, string)
         end = start
         end += 1
@@ -614,9 +617,12 @@ class White(Token):
             raise ParseException(self, end, string)
 
         return ParseResults(
-            self, start, end, string[start:end], [ParseException(self, end, string)]
+            self, start, end, [string[start:end]], [ParseException(self, end, string)]
         )
 
+    def min_length(self):
+        return max(self.parser_config.min_len, 1)
+
     def reverse(self):
         return self
 
-- 
2.43.0


From 055a3a0ba589fa55fb93030c8383e2c674ac7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:12 +0000
Subject: [PATCH 10/66] fix: choosing alternatives by first characters agrees
 with trying them one by one

---
 mo_parsing/enhancement.py | 13 +++++++++++--
 mo_parsing/expressions.py | 11 +++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index d1990d3..649be5f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -121,6 +121,9 @@ class LookAhead(ParseEnhancement):
 
         return ParseResults(self, start, start, [result], result.failures)
 
+    def min_length(self):
+        return 0
+
     def __regex__(self):
         return "*", f"(?={self.expr.__regex__()[1]})"
 
@@ -452,6 +455,9 @@ class SkipTo(ParseEnhancement):
         )
         self.parser_name = str(self)
 
+    def expecting(self):
+        return {}  # ANYTHING CAN BE SKIPPED
+
     def min_length(self):
         return 0
 
@@ -635,12 +641,12 @@ class Forward(ParserElement):
             self._in_expecting = False
 
     def min_length(self):
-        if self.min_length_cache is None and self.expr:
+        if self.min_length_cache < 0 and self.expr:
             self.min_length_cache = 0  # BREAK CYCLE
             try:
                 return self.expr.min_length()
             finally:
-                self.min_length_cache = None
+                self.min_length_cache = -1
         return 0
 
     @property
@@ -913,6 +919,9 @@ class PrecededBy(LookAhead):
         ret.__class__ = Annotation
         return ParseResults(self, start, start, [ret], [])
 
+    def expecting(self):
+        return {}  # WHAT IS MATCHED IS BEHIND
+
     def __regex__(self):
         if self.parser_config.exact:
             return "*", f"(?<={self.expr.__regex__()[1]})"
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 9e31012..ff43ee8 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -587,7 +587,8 @@ def faster(exprs):
     out = []
     has_expecting = True
     for o in exprs:
-        p = o.expecting()
+        # AN ALTERNATIVE THAT CAN MATCH NOTHING EXPECTS NOTHING IN PARTICULAR
+        p = {k: [o] for k in o.expecting()} if o.min_length() else {}
         if has_expecting:
             if p:
                 acc.append(p)
@@ -639,11 +640,11 @@ class Fast(ParserElement):
 
         all_keys = set()
         lookup = OrderedDict()
-        for m in maps:
+        for i, m in enumerate(maps):
             for k, ee in m.items():
                 k = k.lower()
                 all_keys.add(k)
-                lookup.setdefault(k, []).extend(ee)
+                lookup.setdefault(k, []).extend((i, e) for e in ee)
 
         # patterns must be mutually exclusive to work
         items = list(lookup.items())
@@ -664,7 +665,9 @@ class Fast(ParserElement):
                     acc.extend(ee)
                     ee.clear()
             if acc:
-                compact.append((min_k, acc))
+                # ALTERNATIVES ARE TRIED IN THE ORDER GIVEN
+                acc.sort(key=itemgetter(0))
+                compact.append((min_k, [e for _, e in acc]))
         if len(maps) - max(len(v) for k, v in compact) <= 1:
             Log.error("not useful")
 
-- 
2.43.0


From f6b2f534b1a8f97894e3f06aef6dfdfc140062d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:35 +0000
Subject: [PATCH 11/66] fix: longest-match does not look inside a first-match
 alternative

---
 mo_parsing/expressions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ff43ee8..d0415bb 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -100,11 +100,6 @@ class ParseExpression(ParserElement):
         acc = []
         same = True
         clazz = self.__class__
-        if clazz == Or:
-            clazz = (
-                Or,
-                MatchFirst,
-            )  # TODO: not correct, but allows merging of the two to a single longer list
         for e in self.exprs:
             f = e.streamline()
             same = same and f is e
-- 
2.43.0


From 39b05303636205522c5d1e34f8a03c7fded71cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:58 +0000
Subject: [PATCH 12/66] fix: longest-match returns results in every case (one
 alternative, actions that change their mind)

---
 mo_parsing/expressions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index d0415bb..c8207ec 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -368,11 +368,9 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                output = Empty()
+                return Empty()
             if len(output.exprs) == 1:
-                output = output.exprs[0]
-                if not isinstance(output, ParseExpression):
-                    return output
+                return output.exprs[0]
 
         output.alternate = faster(output.exprs)
 
@@ -434,7 +432,7 @@ class Or(ParseExpression):
             for loc, expr in matches:
                 if loc <= longest[0]:
                     # already have a longer match than this one will deliver, we are done
-                    return longest
+                    return longest[1]
 
                 try:
                     result = expr._parse(string, start, do_actions)
@@ -456,7 +454,15 @@ class Or(ParseExpression):
                         )
 
             if longest != (-1, None):
-                return longest
+                return longest[1]
+
+            raise ParseException(
+                self,
+                start,
+                string,
+                msg="no defined alternatives to match",
+                cause=failures,
+            )
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From a4aca616a7adfeb0cc35bedf4bf7eda9efa9ebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 13/66] fix: Combine respects the parse actions of what it
 combines

---
 mo_parsing/enhancement.py | 2 +-
 mo_parsing/results.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 649be5f..ce6c7f3 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -730,7 +730,7 @@ class Combine(TokenConverter):
 
     def parse_impl(self, string, start, do_actions=True):
         try:
-            result = self.expr.parse_impl(string, start, do_actions=do_actions)
+            result = self.expr._parse(string, start, do_actions=do_actions)
             return ParseResults(
                 self, start, result.end, [result.as_string(sep=self.parser_config.separator)], result.failures,
             )
diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 0d343c6..038e867 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -282,7 +282,7 @@ class ParseResults(object):
                 yield t
 
     def as_string(self, sep=""):
-        return sep.join(self._asStringList())
+        return sep.join(text(s) for s in self._asStringList())
 
     def as_list(self):
         """
-- 
2.43.0


From fe6c2727d00cb98d295000a17bb8c491d90cc208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:39 +0000
Subject: [PATCH 14/66] fix: short IPv6 addresses are limited to seven parts

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 225de4f..f54aa3d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -852,7 +852,7 @@ _short_ipv6_address = (
     + "::"
     + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
 ).set_parser_name("short IPv6 address")
-_short_ipv6_address.add_condition(lambda t: sum(
+_short_ipv6_address = _short_ipv6_address.add_condition(lambda t: sum(
     1 for tt in t if _ipv6_part.matches(tt)
 ) < 8)
 _mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
-- 
2.43.0


From cb7411a407f081322723ed64672bd2dda836861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:11 +0000
Subject: [PATCH 15/66] fix: replaceHTMLEntity finds the entity

---
 mo_parsing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index f54aa3d..db19f6a 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -777,7 +777,7 @@ commonHTMLEntity = Regex(
 
 def replaceHTMLEntity(t):
     """Helper parser action to replace common HTML entities with their special characters"""
-    return _htmlEntityMap.get(t.entity)
+    return _htmlEntityMap.get(t[0][1:-1])
 
 
 # it's easy to get these comment structures wrong - they're very common, so may as well make them available
-- 
2.43.0


From 80679be9e03d90b950c80ba8f76e7af415cdec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:24 +0000
Subject: [PATCH 16/66] fix: matchOnlyAtCol takes the parameters parse actions
 are given

---
 mo_parsing/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index db19f6a..ae96c92 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -494,9 +494,11 @@ def matchOnlyAtCol(n):
     a specific column in the input text.
     """
 
-    def verify_col(strg, locn, toks):
-        if col(locn, strg) != n:
-            raise ParseException(strg, locn, "matched token not at column %d" % n)
+    def verify_col(tokens, loc, string):
+        if col(loc, string) != n:
+            raise ParseException(
+                tokens.type, loc, string, "matched token not at column %d" % n
+            )
 
     return verify_col
 
-- 
2.43.0


From c7f00335afb3dfd9960c21d3f4a38ad217497d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:34 +0000
Subject: [PATCH 17/66] fix: capture groups past the ninth are named by number

---
 mo_parsing/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 57489fe..3f352d3 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -308,7 +308,7 @@ class Regex(ParseEnhancement):
                 if pe <= s:
                     ann.append(g)
                 pe = e
-                ii = chr(i + ord("0"))
+                ii = str(i)
                 ann.append(Annotation(ii, s + start, e + start, [g]))
                 n = lookup.get(i)
                 if n:
-- 
2.43.0


From ddcf43e129d630a86d3b71dfbb930d5777539595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:11 +0000
Subject: [PATCH 18/66] fix: replace_with substitutes the parameters in the
 replacement

---
 mo_parsing/core.py  | 4 ++--
 mo_parsing/regex.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index e3cca03..41e5b61 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -531,9 +531,9 @@ class ParserElement(object):
 
         def replacer(tokens):
             acc = []
-            for s, n in zip(parts, parts[1:]):
+            for s, n in zip(parts[::2], parts[1::2]):
                 acc.append(s)
-                acc.append(text(tokens[n]))
+                acc.append(text(tokens[n[0]]))
             acc.append(parts[-1])
             return "".join(acc)
 
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 3f352d3..b7eae10 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -259,7 +259,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\" + Char(alphanums)("name") | "\\g<" + Word(alphas, alphanums)("name") + ">"
+    "\\g<" + Word(alphas, alphanums)("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
-- 
2.43.0


From cbb80ec7feea8eb22197ae274cb685008d743338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:42 +0000
Subject: [PATCH 19/66] fix: preparing a parser, and lazy results, are
 protected by the lock

---
 mo_parsing/core.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 41e5b61..f17fcf1 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -84,6 +84,19 @@ def entrypoint(func):
     return output
 
 
+def _locked(items):
+    """
+    THE ITEMS OF A GENERATOR ARE ASKED FOR AFTER THE entrypoint IS LEFT
+    """
+    while True:
+        with locker:
+            try:
+                item = next(items)
+            except StopIteration:
+                return
+        yield item
+
+
 def _verify_whitespace(whi: List):
     if whi is None:
         return None
@@ -107,18 +120,19 @@ def _verify_whitespace(whi: List):
 
 class Parser(object):
     def __init__(self, element):
-        self.element = element = element.streamline()
-        try:
-            self.whitespace = (
-                _verify_whitespace(element.whitespace)
-                or whitespaces.CURRENT
-                or whitespaces.STANDARD_WHITESPACE
-            )
-        except Exception as cause:
-            Log.error("problem", cause=cause)
+        with locker:
+            self.element = element = element.streamline()
+            try:
+                self.whitespace = (
+                    _verify_whitespace(element.whitespace)
+                    or whitespaces.CURRENT
+                    or whitespaces.STANDARD_WHITESPACE
+                )
+            except Exception as cause:
+                Log.error("problem", cause=cause)
 
-        with self.whitespace:
-            self.element = Group(element)
+            with self.whitespace:
+                self.element = Group(element)
 
         self.named = bool(element.token_name)
         self.streamlined = True
@@ -180,7 +194,7 @@ class Parser(object):
         :param overlap: IF MATCHES CAN OVERLAP
         :return: SEQUENCE OF ParseResults, start, end
         """
-        return (
+        return _locked(
             (t.tokens[0], s, e)
             for t, s, e in self._scan_string(
                 string, max_matches=max_matches, overlap=overlap
@@ -288,9 +302,9 @@ class Parser(object):
 
             ['This', ' this', '', ' this sentence', ' is badly punctuated', '']
         """
-        return self._split(
+        return _locked(self._split(
             string, maxsplit=maxsplit, include_separators=include_separators
-        )
+        ))
 
     def _split(self, string, maxsplit=MAX_INT, include_separators=False):
         last = 0
-- 
2.43.0


From e9a983cab8ee62512bc9987ca6f090c1a92ccb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 20/66] fix: MatchAll accepts repetitions with a minimum, once

---
 mo_parsing/expressions.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index c8207ec..3597d32 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -16,6 +16,7 @@ from mo_parsing.exceptions import (
 from mo_parsing.results import ParseResults
 from mo_parsing.tokens import Empty
 from mo_parsing.utils import (
+    MAX_INT,
     empty_tuple,
     is_forward,
     regex_iso,
@@ -717,6 +718,18 @@ class Fast(ParserElement):
             )
 
 
+def _min_instances(expr):
+    # A REPETITION WILL ENFORCE ITS OWN MINIMUM
+    return 0 if isinstance(expr, Many) and expr.parser_config.min_match == 0 else 1
+
+
+def _max_instances(expr):
+    # UNLIMITED REPETITION MAY BE INTERSPERSED WITH THE OTHERS
+    if isinstance(expr, Many) and expr.parser_config.max_match == MAX_INT:
+        return MAX_INT
+    return 1
+
+
 class MatchAll(ParseExpression):
     """
     Requires all given `ParseExpression` s to be found, but in
@@ -736,12 +749,8 @@ class MatchAll(ParseExpression):
         ParseExpression.__init__(self, exprs)
         self.set_config(
             whitespace=whitespaces.CURRENT,
-            min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1 for e in exprs
-            ],
-            max_match=[
-                e.parser_config.max_match if isinstance(e, Many) else 1 for e in exprs
-            ],
+            min_match=[_min_instances(e) for e in self.exprs],
+            max_match=[_max_instances(e) for e in self.exprs],
         )
 
     def streamline(self):
@@ -749,14 +758,8 @@ class MatchAll(ParseExpression):
             return self
         output = ParseExpression.streamline(self)
         output.set_config(
-            min_match=[
-                e.parser_config.min_match if isinstance(e, Many) else 1
-                for e in output.exprs
-            ],
-            max_match=[
-                e.parser_config.max_match if isinstance(e, Many) else 1
-                for e in output.exprs
-            ],
+            min_match=[_min_instances(e) for e in output.exprs],
+            max_match=[_max_instances(e) for e in output.exprs],
         )
         return output
 
-- 
2.43.0


From c58693dd27b47d482ff92cb0109539b42df1264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 21/66] fix: MatchAll accepts members that match nothing, and
 reports left recursion

---
 mo_parsing/expressions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 3597d32..0deea42 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -779,13 +779,16 @@ class MatchAll(ParseExpression):
         ))
         count = [0] * len(self.exprs)
         failures = []
+        empty = set()
         while todo:
+            empty = set()
             for i, (c, (e, mi, ma)) in enumerate(zip(count, todo)):
                 try:
                     result = e._parse(string, end)
                     failures.extend(result.failures)
                     loc = result.end
                     if loc == end:
+                        empty.add(id(e))  # FOUND, IF NOTHING ELSE IS
                         continue
                     end = self.parser_config.whitespace.skip(string, loc)
                     c2 = count[i] = c + 1
@@ -800,7 +803,7 @@ class MatchAll(ParseExpression):
                 break
 
         for c, (e, mi, ma) in zip(count, todo):
-            if c < mi:
+            if c < mi and id(e) not in empty:
                 raise ParseException(
                     self,
                     start,
@@ -813,7 +816,7 @@ class MatchAll(ParseExpression):
         missing = [
             e
             for e, mi in zip(self.exprs, self.parser_config.min_match)
-            if id(e) not in found and mi > 0
+            if id(e) not in found and id(e) not in empty and mi > 0
         ]
         if missing:
             missing = ", ".join(text(e) for e in missing)
@@ -841,6 +844,11 @@ class MatchAll(ParseExpression):
 
         return ParseResults(self, results[0].start, results[-1].end, results, failures)
 
+    def check_recursion(self, seen=empty_tuple):
+        seen_more = seen + (self,)
+        for e in self.exprs:
+            e.check_recursion(seen_more)
+
     def __str__(self):
         if self.parser_name:
             return self.parser_name
-- 
2.43.0


From 16b58494e7841ce8feb4ae0dc82f14e62a24c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 22/66] fix: scanning does not report a match more than once

---
 mo_parsing/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index f17fcf1..3be312d 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -214,8 +214,8 @@ class Parser(object):
             else:
                 matches += 1
                 yield tokens, tokens.start, tokens.end
-                if overlap or tokens.end <= end:
-                    end += 1
+                if overlap or tokens.end <= start:
+                    end = start + 1
                 else:
                     end = tokens.end
 
-- 
2.43.0


From c9e8bfa09650a2d933daef2c250fde0d16bf892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:23 +0000
Subject: [PATCH 23/66] fix: transform_string accepts groups and values

---
 mo_parsing/core.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 3be312d..20d20bc 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -252,12 +252,7 @@ class Parser(object):
             out.append(string[end:s])
             t = t.tokens[0]
             if t:
-                if isinstance(t, ParseResults):
-                    out.append("".join(t))
-                elif isinstance(t, list):
-                    out.append("".join(t))
-                else:
-                    out.append(t)
+                out.append(t.as_string())
             end = e
         out.append(string[end:])
         out = [o for o in out if o]
-- 
2.43.0


From b20ca3baba6924cbae58ba7cc4c2df524ebbe24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 24/66] fix: suppress() of a group leaves nothing behind

---
 mo_parsing/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 20d20bc..98d3857 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -711,7 +711,7 @@ class ParserElement(object):
         Suppresses the output of this `ParserElement`; useful to keep punctuation from
         cluttering up returned output.
         """
-        return self / _suppress_post_parse
+        return Suppress(self)
 
     def __str__(self):
         return self.parser_name
-- 
2.43.0


From 30b720a90e06dd833e361619cf5ca12669310d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:11 +0000
Subject: [PATCH 25/66] fix: names and groups are found through a Forward as
 they are without it

---
 mo_parsing/results.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 038e867..83b72ee 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -49,6 +49,7 @@ class ParseResults(object):
     def _get_item_by_name(self, name):
         # return open list of values for given name
         for tok in self.tokens:
+            tok = _definition(tok)
             if isinstance(tok, ParseResults):
                 if tok.name == name:
                     if isinstance(tok.type, Group):
@@ -204,6 +205,7 @@ class ParseResults(object):
     def items(self):
         output = {}
         for tok in self.tokens:
+            tok = _definition(tok)
             if isinstance(tok, ParseResults):
                 if isinstance(tok.type, Suppress):
                     continue
@@ -305,6 +307,9 @@ class ParseResults(object):
             if depth > 60:
                 Log.warning("deep!")
 
+            while isinstance(obj, ForwardResults):
+                obj = obj.tokens[0]
+
             if isinstance(obj, Annotation):
                 return []
             elif isinstance(obj, ParseResults):
@@ -355,6 +360,9 @@ class ForwardResults(ParseResults):
         return self.tokens[0].type
 
     def __getitem__(self, item):
+        if self.tokens[0].name and is_text(item):
+            # THE NAME OF THE DEFINITION IS VISIBLE HERE
+            return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
     def __setitem__(self, k, v):
@@ -370,7 +378,19 @@ class ForwardResults(ParseResults):
         yield from self.tokens[0]
 
     def items(self):
-        yield from self.tokens[0].items()
+        if self.tokens[0].name:
+            yield from ParseResults.items(self)
+        else:
+            yield from self.tokens[0].items()
+
+
+def _definition(token):
+    """
+    AN UNNAMED Forward STANDS FOR ITS DEFINITION
+    """
+    while isinstance(token, ForwardResults) and not token.name:
+        token = token.tokens[0]
+    return token
 
 
 def _flatten(token):
-- 
2.43.0


From a1ff0c6637d2299e63cc07297f6154efc55a771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:01 +0000
Subject: [PATCH 26/66] fix: CloseMatch ends where it matched, also past the
 start of text

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 43a2b93..732a566 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -327,7 +327,7 @@ class CloseMatch(Token):
                     if len(mismatches) > max_mismatches:
                         break
             else:
-                end = match_stringloc + 1
+                end = maxloc
                 results = ParseResults(self, start, end, [string[start:end]], [])
                 results["original"] = match
                 results["mismatches"] = mismatches
-- 
2.43.0


From ddc183a7d2259c4fc2e9a41453b398f3bf1e5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:48 +0000
Subject: [PATCH 27/66] fix: what a Regex may start with is read from the
 pattern, and letters without a simple case are not dispatched on

---
 mo_parsing/expressions.py | 15 ++++++++++
 mo_parsing/regex.py       | 63 +++++++++++++++++++++++++++++++++++++--
 mo_parsing/tokens.py      |  6 ++--
 3 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 0deea42..38f2b42 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -591,6 +591,8 @@ def faster(exprs):
     for o in exprs:
         # AN ALTERNATIVE THAT CAN MATCH NOTHING EXPECTS NOTHING IN PARTICULAR
         p = {k: [o] for k in o.expecting()} if o.min_length() else {}
+        if not all(_has_simple_case(k) for k in p):
+            p = {}
         if has_expecting:
             if p:
                 acc.append(p)
@@ -621,6 +623,19 @@ def faster(exprs):
     return alternating
 
 
+def _has_simple_case(key):
+    """
+    Fast IGNORES CASE, WHICH IS ONLY POSSIBLE IF EACH CHARACTER HAS ONE LOWER AND ONE UPPER
+    """
+    return all(
+        c in (c.lower(), c.upper())
+        and len(c.lower()) == 1
+        and c.lower().upper() == c.upper()
+        and c.upper().lower() == c.lower()
+        for c in key
+    )
+
+
 def _distinct(a, b):
     """
     ASSUME a != b
diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index b7eae10..c0f9a16 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -3,6 +3,7 @@
 # UNDER THE MIT LICENSE
 #
 # Contact: kyle@lahnakoski.com
+import re
 from collections import OrderedDict
 from string import whitespace
 
@@ -48,6 +49,11 @@ from mo_parsing.utils import (
 )
 from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE
 
+try:
+    from re import _parser as sre_parse
+except ImportError:
+    import sre_parse
+
 __all__ = ["Regex"]
 
 
@@ -356,10 +362,13 @@ class Regex(ParseEnhancement):
         return output
 
     def expecting(self):
-        return OrderedDict((k, [self]) for k in self.expr.expecting().keys())
+        # THE COMPILED PATTERN DECIDES, self.expr IS ONLY ITS APPROXIMATION
+        flags, parsed = _parse_pattern(self.regex)
+        return OrderedDict((c, [self]) for c in _first_chars(parsed, flags) or [])
 
     def min_length(self):
-        return self.expr.min_length()
+        _, parsed = _parse_pattern(self.regex)
+        return parsed.getwidth()[0]
 
     def __regex__(self):
         if self.regex:
@@ -370,5 +379,55 @@ class Regex(ParseEnhancement):
 
 _plain_group = Group(None)
 
+
+def _parse_pattern(regex):
+    return regex.flags, sre_parse.parse(regex.pattern, regex.flags)
+
+
+def _first_chars(parsed, flags):
+    """
+    RETURN THE CHARACTERS A MATCH MUST START WITH, None IF NOT KNOWN
+    """
+    if flags & re.IGNORECASE:
+        return None
+    for op, arg in parsed:
+        name = str(op)
+        if name in ("AT", "ASSERT", "ASSERT_NOT"):
+            continue  # NOTHING CONSUMED, THE NEXT DECIDES
+        elif name == "LITERAL":
+            return [unichr(arg)]
+        elif name == "IN":
+            output = []
+            for kind, chars in arg:
+                if str(kind) == "LITERAL":
+                    output.append(unichr(chars))
+                elif str(kind) == "RANGE":
+                    output.extend(unichr(i) for i in range(chars[0], chars[1] + 1))
+                else:
+                    return None
+            return output
+        elif name == "SUBPATTERN":
+            return _first_of(arg[3], (flags | arg[1]) & ~arg[2])
+        elif name == "BRANCH":
+            output = []
+            for branch in arg[1]:
+                chars = _first_of(branch, flags)
+                if chars is None:
+                    return None
+                output.extend(chars)
+            return output
+        elif name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT") and arg[0]:
+            return _first_of(arg[2], flags)
+        else:
+            return None
+    return None
+
+
+def _first_of(parsed, flags):
+    if parsed.getwidth()[0] == 0:
+        return None
+    return _first_chars(parsed, flags)
+
+
 export("mo_parsing.core", "regex_parameters", parameters)
 export("mo_parsing.tokens", Regex)
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 732a566..d8697ca 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -136,7 +136,7 @@ class Literal(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -220,7 +220,7 @@ class Keyword(Token):
         raise ParseException(self, start, string)
 
     def expecting(self):
-        return {self.parser_config.match.lower(): [self]}
+        return {self.parser_config.match: [self]}
 
     def _min_length(self):
         return len(self.parser_config.match)
@@ -375,7 +375,7 @@ class Word(Token):
 
         if body_chars == init_chars:
             if init_chars.__class__.__name__ == "Regex":
-                init_chars = init_chars.expecting().keys()
+                init_chars = init_chars.expr.expecting().keys()
             prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
-- 
2.43.0


From b74cc877bc430053dd8ae65dd6dcf4629805fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:57 +0000
Subject: [PATCH 28/66] fix: edges of character sets, keywords, caseless
 letters and the regex of LineStart

---
 mo_parsing/tokens.py | 11 +++++++----
 mo_parsing/utils.py  | 17 +++++++++--------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index d8697ca..e40a4d1 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -200,7 +200,7 @@ class Keyword(Token):
         else:
             pattern = re.escape(match)
 
-        non_word = "($|(?!" + regex_range(ident_chars) + "))"
+        non_word = "($|(?!" + regex_range(ident_chars) + "))" if ident_chars else ""
         self.set_config(
             ident_chars=ident_chars,
             match=match,
@@ -440,18 +440,21 @@ class Char(Token):
         Represent one character in a given include
         """
         Token.__init__(self)
+        nothing_left = include and not set(include) - set(exclude or ())
         include = set(include) if include else set()
         exclude = set(exclude) if exclude else set()
         include = "".join(sorted(include - exclude))
         exclude = "".join(sorted(exclude))
 
-        if not include:
+        if nothing_left:
+            regex = "(?!)"
+        elif not include:
             regex = regex_range(exclude, exclude=True)
         else:
             regex = regex_range(include)
 
         if as_keyword:
-            regex = r"\b%s\b" % self
+            regex = r"\b%s\b" % regex
         self.set_config(regex=regex_compile(regex), include=include, exclude=exclude)
 
     def parse_impl(self, string, start, do_actions=True):
@@ -652,7 +655,7 @@ class LineStart(Token):
         return LineEnd()
 
     def __regex__(self):
-        return "*", "^"
+        return "*", "(?m:^)"
 
 
 class LineEnd(Token):
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index c89a6e8..9f1eef3 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -80,12 +80,13 @@ def regex_caseless(literal):
     """
     RETURN REGEX FOR CASELESS VERSION OF GIVEN LITERAL (SO WE DO NOT NEED CASELESS MODE)
     """
-    lower = literal.lower()
-    upper = literal.upper()
-    return "".join(
-        f"[{re.escape(l)}{re.escape(u)}]" if l != u else re.escape(u)
-        for l, u in zip(lower, upper)
-    )
+    def one_char(c):
+        # IGNORE CASE CHANGES THAT CHANGE THE LENGTH
+        l, u = (cc if len(cc) == 1 else c for cc in (c.lower(), c.upper()))
+        chars = "".join(re.escape(cc) for cc in sorted({l, u, c}))
+        return f"[{chars}]" if l != u else re.escape(c)
+
+    return "".join(one_char(c) for c in literal)
 
 
 _escapes = {"\n": "\\n", "\r": "\\r", "\t": "\\t"}
@@ -107,8 +108,8 @@ def regex_range(s, exclude=False):
     start = None
     prev = None
     acc = ["[^"] if exclude else ["["]
-    for c in list(sorted(set(s))) + ["\a"]:
-        if prev and ord(prev) == ord(c) - 1:
+    for c in list(sorted(set(s))) + [None]:
+        if c and prev and ord(prev) == ord(c) - 1:
             if not start:
                 start = prev
         elif start:
-- 
2.43.0


From f7df0c84e065a1c12b3517f9132177bb75cb28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:16 +0000
Subject: [PATCH 29/66] fix: leading whitespace is skipped before a Regex
 whatever its pattern is made of

---
 mo_parsing/regex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index c0f9a16..8dd893e 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -340,6 +340,11 @@ class Regex(ParseEnhancement):
 
             return self / pf
 
+    @property
+    def whitespace(self):
+        # A TERMINAL, WHATEVER THE PATTERN IS MADE OF
+        return None
+
     def parse_impl(self, string, start, do_actions=True):
         found = self.regex.match(string, start)
         if found:
-- 
2.43.0


From 806a5b82b829c45f827470a6c93e489085db4efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:52 +0000
Subject: [PATCH 30/66] fix: located_expr reports where the match ends, not
 where the next part starts

---
 mo_parsing/helpers.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index ae96c92..f8ef3dd 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -395,8 +395,24 @@ def located_expr(expr):
         [[8, 'lksdjjf', 15]]
         [[18, 'lkkjj', 23]]
     """
-    locator = Empty() / (lambda t, l, s: l)
-    return Group(locator("locn_start") + Group(expr)("value") + locator("locn_end"))
+    locn_start = Empty()("locn_start")
+    locn_end = Empty()("locn_end")
+
+    def locate(token, index, string):
+        start, end = token.start, token.end
+        return ParseResults(
+            token.type,
+            start,
+            end,
+            [
+                ParseResults(locn_start, start, start, [start], []),
+                *token.tokens,
+                ParseResults(locn_end, end, end, [end], []),
+            ],
+            token.failures,
+        )
+
+    return Group(Group(expr)("value")) / locate
 
 
 def nested_expr(opener="(", closer=")", content=None, ignore_expr=quoted_string):
-- 
2.43.0


From c7db4aa8f7c90724015aa610e305a47a4c09f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:36 +0000
Subject: [PATCH 31/66] fix: suppress() of a suppressed expression with actions
 suppresses what they give

---
 mo_parsing/enhancement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index ce6c7f3..98351b4 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -839,7 +839,10 @@ class Suppress(TokenConverter):
         self.parse_action.append(_suppress_post_parse)
 
     def suppress(self):
-        return self
+        if self.parse_action[-1:] == [_suppress_post_parse]:
+            return self
+        # ACTIONS ADDED LATER MAY HAVE MADE TOKENS
+        return Suppress(self)
 
     def __regex__(self):
         return self.expr.__regex__()
-- 
2.43.0


From 2fe133969e7d50296523f6fa353c1838eeff5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:14 +0000
Subject: [PATCH 32/66] fix: left recursion is found whatever the order of
 definitions, and a Forward may be defined as another

---
 mo_parsing/core.py        |  6 ++++--
 mo_parsing/enhancement.py |  2 +-
 mo_parsing/expressions.py |  4 +++-
 mo_parsing/utils.py       | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index 98d3857..ca3c330 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -10,7 +10,7 @@ from mo_imports import export, expect
 from mo_parsing import whitespaces
 from mo_parsing.exceptions import ParseException
 from mo_parsing.results import ParseResults
-from mo_parsing.utils import Log, MAX_INT, wrap_parse_action, empty_tuple
+from mo_parsing.utils import Log, MAX_INT, wrap_parse_action, empty_tuple, all_forwards
 
 (
     SkipTo,
@@ -122,6 +122,8 @@ class Parser(object):
     def __init__(self, element):
         with locker:
             self.element = element = element.streamline()
+            for e in all_forwards(element):
+                e.check_recursion()  # WHEN DEFINED, THE OTHERS MAY NOT HAVE BEEN
             try:
                 self.whitespace = (
                     _verify_whitespace(element.whitespace)
@@ -459,7 +461,7 @@ class ParserElement(object):
         if self.min_length_cache >= 0:
             return self.min_length_cache
         min_ = self._min_length()
-        if self.streamlined:
+        if self.streamlined and min_:  # ZERO MAY MEAN A Forward IS NOT DEFINED YET
             self.min_length_cache = min_
         return min_
 
diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 98351b4..807dce8 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -594,7 +594,7 @@ class Forward(ParserElement):
         if is_forward(self.expr):
             return self.expr << other
 
-        while is_forward(other):
+        while is_forward(other) and other.expr is not None and not other.is_annotated() and not other.parse_action:
             other = other.expr
         norm = whitespaces.CURRENT.normalize(other)
         self.expr = norm.streamline()
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 38f2b42..7a505e2 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -18,6 +18,7 @@ from mo_parsing.tokens import Empty
 from mo_parsing.utils import (
     MAX_INT,
     empty_tuple,
+    all_forwards,
     is_forward,
     regex_iso,
     Log,
@@ -304,7 +305,8 @@ class And(ParseExpression):
         subRecCheckList = seen + (self,)
         for e in self.exprs:
             e.check_recursion(subRecCheckList)
-            if e.min_length():
+            if e.min_length() or any(f.expr is None for f in all_forwards(e)):
+                # IF NOT DEFINED YET, THEN CHECKED WHEN THE PARSER IS MADE
                 return
 
     def reverse(self):
diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 9f1eef3..6b4955e 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -231,6 +231,22 @@ def is_forward(expr):
     return expr.__class__.__name__ == "Forward"
 
 
+def all_forwards(expr):
+    """
+    RETURN EVERY Forward THAT CAN BE REACHED FROM expr
+    """
+    seen = {}
+    todo = [expr]
+    while todo:
+        e = todo.pop()
+        if e is None or id(e) in seen:
+            continue
+        seen[id(e)] = e
+        todo.append(getattr(e, "expr", None))
+        todo.extend(getattr(e, "exprs", []))
+    return [e for e in seen.values() if is_forward(e)]
+
+
 def is_backtracking(expr):
     """
     RETURN true IF THIS CAN BE EXPENSIVE BACKTRACKER
-- 
2.43.0


From 2364e9e5978470ec097d0c2b83ab639acfb41cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:23 +0000
Subject: [PATCH 33/66] fix: MatchAll parses its members once, with actions
 only when they are asked for, and ends where the last part ends

---
 mo_parsing/expressions.py | 96 +++++++++++++--------------------------
 1 file changed, 32 insertions(+), 64 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 7a505e2..adedf4a 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -735,11 +735,6 @@ class Fast(ParserElement):
             )
 
 
-def _min_instances(expr):
-    # A REPETITION WILL ENFORCE ITS OWN MINIMUM
-    return 0 if isinstance(expr, Many) and expr.parser_config.min_match == 0 else 1
-
-
 def _max_instances(expr):
     # UNLIMITED REPETITION MAY BE INTERSPERSED WITH THE OTHERS
     if isinstance(expr, Many) and expr.parser_config.max_match == MAX_INT:
@@ -756,17 +751,15 @@ class MatchAll(ParseExpression):
     """
 
     __slots__ = []
-    Config = append_config(ParseExpression, "min_match", "max_match", "whitespace")
+    Config = append_config(ParseExpression, "max_match", "whitespace")
 
     def __init__(self, exprs):
         """
         :param exprs: The expressions to be matched
-        :param mins: list of integers indincating any minimums
         """
         ParseExpression.__init__(self, exprs)
         self.set_config(
             whitespace=whitespaces.CURRENT,
-            min_match=[_min_instances(e) for e in self.exprs],
             max_match=[_max_instances(e) for e in self.exprs],
         )
 
@@ -775,7 +768,6 @@ class MatchAll(ParseExpression):
             return self
         output = ParseExpression.streamline(self)
         output.set_config(
-            min_match=[_min_instances(e) for e in output.exprs],
             max_match=[_max_instances(e) for e in output.exprs],
         )
         return output
@@ -789,54 +781,44 @@ class MatchAll(ParseExpression):
         return [e.whitespace for e in self.exprs]
 
     def parse_impl(self, string, start, do_actions=True):
-        end = start
-        match_order = []
-        todo = list(zip(
-            self.exprs, self.parser_config.min_match, self.parser_config.max_match
-        ))
-        count = [0] * len(self.exprs)
+        end = next_ = start
+        results = []
         failures = []
-        empty = set()
-        while todo:
-            empty = set()
-            for i, (c, (e, mi, ma)) in enumerate(zip(count, todo)):
+        todo = list(zip(self.exprs, self.parser_config.max_match))
+        count = [0] * len(todo)
+        empty = []
+        progress = True
+        while progress:
+            progress = False
+            empty = []
+            for i, (e, ma) in enumerate(todo):
+                if count[i] >= ma:
+                    continue
                 try:
-                    result = e._parse(string, end)
-                    failures.extend(result.failures)
-                    loc = result.end
-                    if loc == end:
-                        empty.add(id(e))  # FOUND, IF NOTHING ELSE IS
-                        continue
-                    end = self.parser_config.whitespace.skip(string, loc)
-                    c2 = count[i] = c + 1
-                    if c2 >= ma:
-                        del todo[i]
-                        del count[i]
-                    match_order.append(e)
-                    break
+                    result = e._parse(string, next_, do_actions)
                 except ParseException as pe:
                     failures.append(pe)
-            else:
+                    continue
+                failures.extend(result.failures)
+                if result.end == next_:
+                    empty.append((i, result))  # FOUND, IF NOTHING ELSE IS
+                    continue
+                count[i] += 1
+                results.append(result)
+                end = result.end
+                next_ = self.parser_config.whitespace.skip(string, end)
+                progress = True
                 break
 
-        for c, (e, mi, ma) in zip(count, todo):
-            if c < mi and id(e) not in empty:
-                raise ParseException(
-                    self,
-                    start,
-                    string,
-                    "Missing minimum (%i) more required elements (%s)" % (mi, e),
-                    cause=failures,
-                )
+        # ANYTHING ELSE MUST BE ABLE TO MATCH NOTHING (AND MAY HAVE DEFAULT VALUES)
+        for i, result in empty:
+            if not count[i]:
+                count[i] = 1
+                results.append(result)
 
-        found = set(id(m) for m in match_order)
-        missing = [
-            e
-            for e, mi in zip(self.exprs, self.parser_config.min_match)
-            if id(e) not in found and id(e) not in empty and mi > 0
-        ]
+        missing = [text(e) for c, e in zip(count, self.exprs) if not c]
         if missing:
-            missing = ", ".join(text(e) for e in missing)
+            missing = ", ".join(missing)
             raise ParseException(
                 self,
                 start,
@@ -845,21 +827,7 @@ class MatchAll(ParseExpression):
                 failures,
             )
 
-        # add any unmatched Optionals, in case they have default values defined
-        match_order += [e for e in self.exprs if id(e) not in found]
-
-        if not match_order:
-            return ParseResults(self, start, start, [], failures)
-
-        # TODO: CAN WE AVOID THIS RE-PARSE?
-        results = []
-        end = start
-        for e in match_order:
-            result = e._parse(string, end, do_actions)
-            end = self.parser_config.whitespace.skip(string, result.end)
-            results.append(result)
-
-        return ParseResults(self, results[0].start, results[-1].end, results, failures)
+        return ParseResults(self, start, end, results, failures)
 
     def check_recursion(self, seen=empty_tuple):
         seen_more = seen + (self,)
-- 
2.43.0


From 84a0c048417104f6c26d21fb82b9a2ef5c9dbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:35 +0000
Subject: [PATCH 34/66] fix: SkipTo fails on fail_on, ends when ignore matches
 nothing, and ... leaves the expressions it is used with alone

---
 mo_parsing/enhancement.py | 15 +++++++++------
 mo_parsing/expressions.py |  9 +++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 807dce8..36df455 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -450,7 +450,7 @@ class SkipTo(ParseEnhancement):
         self.set_config(
             include=include,
             fail=whitespaces.CURRENT.normalize(fail_on),
-            ignore=ignore,
+            ignore=whitespaces.CURRENT.normalize(ignore),
             whitespace=engine_ or whitespaces.CURRENT,
         )
         self.parser_name = str(self)
@@ -479,19 +479,22 @@ class SkipTo(ParseEnhancement):
             skip_end = loc
             loc = before_end = self.parser_config.whitespace.skip(string, loc)
             if fail:
-                # break if fail_on expression matches
+                # not a match if fail_on expression matches
                 try:
                     fail._parse(string, loc)
-                    break
-                except:
+                except ParseException:
                     pass
+                else:
+                    raise ParseException(self, start, string)
 
             if ignore:
                 # advance past ignore expressions
                 while 1:
                     try:
-                        loc = ignore._parse(string, loc).end
-                        skip_end = loc
+                        ignore_end = ignore._parse(string, loc).end
+                        if ignore_end == loc:
+                            break
+                        skip_end = loc = ignore_end
                         loc = before_end = self.parser_config.whitespace.skip(string, loc)
                     except ParseException:
                         break
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index adedf4a..378a6d6 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -160,15 +160,14 @@ class And(ParseExpression):
             for i, expr in enumerate(exprs):
                 if expr is Ellipsis:
                     if i < len(exprs) - 1:
-                        skipto_arg = (Empty() + exprs[i + 1]).exprs[-1]
-                        tmp.append(SkipTo(skipto_arg)("_skipped"))
+                        tmp.append(SkipTo(exprs[i + 1])("_skipped"))
                     else:
                         raise Exception(
                             "cannot construct And with sequence ending in ..."
                         )
                 else:
                     tmp.append(expr)
-            exprs[:] = tmp
+            exprs = tmp
         super(And, self).__init__(exprs)
         self.set_config(whitespace=whitespace or whitespaces.CURRENT)
 
@@ -190,6 +189,7 @@ class And(ParseExpression):
             for e in exprs[:-1]
         ):
             same = False
+            exprs = list(exprs)
             for i, e in enumerate(exprs[:-1]):
                 if (
                     isinstance(e, ParseExpression)
@@ -197,7 +197,8 @@ class And(ParseExpression):
                     and isinstance(e.exprs[-1], _PendingSkip)
                 ):
                     ee = e.exprs[-1] + exprs[i + 1]
-                    e.exprs[-1] = ee
+                    exprs[i] = e = e.copy()
+                    e.exprs = e.exprs[:-1] + [ee]
                     e.streamlined = False
                     exprs[i + 1] = None
 
-- 
2.43.0


From 569a1d6ff897bca67c6f67f6e009b418364bfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 35/66] fix: add_ignore adds all that it is given, also where
 nothing is whitespace, and & keeps the context of its parts

---
 mo_parsing/expressions.py |  5 ++++-
 mo_parsing/whitespaces.py | 11 +++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 378a6d6..cb9d1b8 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -110,7 +110,10 @@ class ParseExpression(ParserElement):
                 continue
             elif f.is_annotated():
                 acc.append(f)
-            elif isinstance(f, clazz):
+            elif isinstance(f, clazz) and (
+                clazz is not MatchAll
+                or f.parser_config.whitespace is self.parser_config.whitespace
+            ):
                 same = False
                 acc.extend(f.exprs)
             else:
diff --git a/mo_parsing/whitespaces.py b/mo_parsing/whitespaces.py
index f3cf1bf..c55f501 100644
--- a/mo_parsing/whitespaces.py
+++ b/mo_parsing/whitespaces.py
@@ -123,7 +123,7 @@ class Whitespace(ParserElement):
             self.content = None
             self.expr = None if isinstance(Empty, Expecting) else Empty()
             self.regex = re.compile(self.__regex__()[1], re.DOTALL)
-            return self
+        return self
 
     def backup(self):
         return Backup(self)
@@ -167,14 +167,13 @@ class Whitespace(ParserElement):
         self._in_regex = True
         try:
             white = regex_range(self.white_chars)
+            if white:
+                white += "*"
             if not self.ignore_list:
-                if not white:
-                    return "*", ""
-                else:
-                    return "*", white + "*"
+                return "*", white
 
             ignored = "|".join(regex_iso(*i.__regex__(), "|") for i in self.ignore_list)
-            return "+", f"(?:{white}*(?:{ignored}))*{white}*"
+            return "+", f"(?:{white}(?:{ignored}))*{white}"
         finally:
             self._in_regex = False
 
-- 
2.43.0


From 53b7d51b4d3748ffdff6184410326247b2f78e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 36/66] fix: infix_notation tells prefix from infix operators,
 reduces operands only, and matches complete ternaries only

---
 mo_parsing/infix.py | 177 +++++++++++++++++---------------------------
 1 file changed, 66 insertions(+), 111 deletions(-)

diff --git a/mo_parsing/infix.py b/mo_parsing/infix.py
index d5c9874..50e2c91 100644
--- a/mo_parsing/infix.py
+++ b/mo_parsing/infix.py
@@ -155,10 +155,11 @@ def infix_notation(
 
     all_op = {}
 
-    def norm(op):
+    def norm(op, kind):
         if op == None:
             op = _no_op
-        output = all_op.get(id(op))
+        key = kind, id(op)  # THE SAME OPERATOR MAY BE BOTH PREFIX AND INFIX
+        output = all_op.get(key)
         if output:
             return output
 
@@ -170,7 +171,7 @@ def infix_notation(
         if is_suppressed:
             output = output.expr
         output = output / record_self
-        all_op[id(op)] = is_suppressed, output
+        all_op[key] = is_suppressed, output
         return is_suppressed, output
 
     op_list = []
@@ -187,7 +188,7 @@ def infix_notation(
         op, arity, assoc, rest = oper_def[0], oper_def[1], oper_def[2], oper_def[3:]
         parse_actions = list(map(wrap_parse_action, enlist(rest[0]))) if rest else []
         if arity == 1:
-            is_suppressed, op = norm(op)
+            is_suppressed, op = norm(op, assoc)
             if assoc == RIGHT_ASSOC:
                 op_list.append((
                     Group(base_expr + op),
@@ -207,7 +208,7 @@ def infix_notation(
                     parse_actions,
                 ))
         elif arity == 2:
-            is_suppressed, op = norm(op)
+            is_suppressed, op = norm(op, None)
             op_list.append((
                 Group(base_expr + op + base_expr),
                 op,
@@ -217,7 +218,7 @@ def infix_notation(
                 parse_actions,
             ))
         elif arity == 3:
-            is_suppressed, op = zip(norm(op[0]), norm(op[1]))
+            is_suppressed, op = zip(norm(op[0], None), norm(op[1], None))
             op_list.append((
                 Group(base_expr + op[0] + base_expr + op[1] + base_expr),
                 op,
@@ -245,121 +246,66 @@ def infix_notation(
         if arity == 1 and assoc == LEFT_ASSOC
     ])
     ops = Or([
-        op_part / record_op(op_part)
-        for op_part in set(
-            op_part
+        op / record_op(op)
+        for op in set(
+            op
             for expr, op, is_suppressed, arity, assoc, pa in op_list
-            if arity > 1
-            for op_part in (op if isinstance(op, tuple) else [op])
+            if arity == 2
         )
     ])
 
-    def make_tree(tokens, loc, string):
-        flat_tokens = list(tokens)
+    def is_operand(token):
+        _, o = token
+        return o is base_expr or isinstance(o, tuple)
+
+    def find(flat_tokens, op, arity, assoc):
+        """
+        RETURN THE INDEX OF THE FIRST TOKEN, OF THE NEXT OPERATION TO REDUCE
+        """
+        if arity == 1:
+            shape = (op, is_operand) if assoc == RIGHT_ASSOC else (is_operand, op)
+        elif arity == 2:
+            shape = (is_operand, op, is_operand)
+        else:
+            shape = (is_operand, op[0], is_operand, op[1], is_operand)
+
+        todo = range(len(flat_tokens) - len(shape) + 1)
+        if assoc == RIGHT_ASSOC:
+            todo = reversed(todo)
+        for i in todo:
+            if all(
+                s(t) if s is is_operand else t[1] == s
+                for s, t in zip(shape, flat_tokens[i:])
+            ):
+                return i
+
+    def reduce(flat_tokens, string):
+        flat_tokens = list(flat_tokens)
         num = len(op_list)
         op_index = 0
         while len(flat_tokens) > 1 and op_index < num:
             expr, op, is_suppressed, arity, assoc, parse_actions = op_list[op_index]
-            if arity == 1:
-                if assoc == RIGHT_ASSOC:
-                    # PREFIX OPERATOR -3
-                    todo = list(reversed(list(enumerate(flat_tokens[:-1]))))
-                    for i, (r, o) in todo:
-                        if o == op:
-                            tok = flat_tokens[i + 1][0]
-                            if is_suppressed:
-                                result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
-                                )
-                            else:
-                                result = ParseResults(
-                                    expr, r.start, tok.end, (r, tok), []
-                                )
-                            break
-                    else:
-                        op_index += 1
-                        continue
-                else:
-                    # SUFFIX OPERATOR 3!
-                    todo = list(enumerate(flat_tokens[1:]))
-                    for i, (r, o) in todo:
-                        if o == op:
-                            tok = flat_tokens[i][0]
-                            if is_suppressed:
-                                result = ParseResults(
-                                    expr, tok.start, tok.end, (tok,), []
-                                )
-                            else:
-                                result = ParseResults(
-                                    expr, tok.start, r.end, (tok, r,), []
-                                )
-                            break
-                    else:
-                        op_index += 1
-                        continue
-            elif arity == 2:
-                todo = list(enumerate(flat_tokens[1:-1]))
-                if assoc == RIGHT_ASSOC:
-                    todo = list(reversed(todo))
-
-                for i, (r, o) in todo:
-                    if o == op:
-                        if is_suppressed:
-                            result = ParseResults(
-                                expr,
-                                flat_tokens[i][0].start,
-                                flat_tokens[i + 2][0].end,
-                                (flat_tokens[i][0], flat_tokens[i + 2][0]),
-                                [],
-                            )
-                        else:
-                            result = ParseResults(
-                                expr,
-                                flat_tokens[i][0].start,
-                                flat_tokens[i + 2][0].end,
-                                (flat_tokens[i][0], r, flat_tokens[i + 2][0]),
-                                [],
-                            )
-                        break
-                else:
-                    op_index += 1
-                    continue
-
-            else:  # arity==3
-                todo = list(enumerate(flat_tokens[1:-3]))
-                if assoc == RIGHT_ASSOC:
-                    todo = list(reversed(todo))
-
-                for i, (r0, o0) in todo:
-                    if o0 == op[0]:
-                        r1, o1 = flat_tokens[i + 3]
-                        if o1 == op[1]:
-                            seq = [
-                                flat_tokens[i][0],
-                                flat_tokens[i + 2][0],
-                                flat_tokens[i + 4][0],
-                            ]
-                            s0, s1 = is_suppressed
-                            if not s1:
-                                seq.insert(2, r1)
-                            if not s0:
-                                seq.insert(1, r0)
-
-                            result = ParseResults(
-                                expr, seq[0].start, seq[-1].end, seq, []
-                            )
-                            break
-                else:
-                    op_index += 1
-                    continue
-
+            i = find(flat_tokens, op, arity, assoc)
+            if i is None:
+                op_index += 1
+                continue
+
+            size = (0, 2, 3, 5)[arity]
+            found = flat_tokens[i : i + size]
+            if arity == 3:
+                suppressed = [o for o, s in zip(op, is_suppressed) if s]
+            else:
+                suppressed = [op] if is_suppressed else []
+            seq = [r for r, o in found if not any(o == s for s in suppressed)]
+            result = ParseResults(expr, seq[0].start, seq[-1].end, seq, [])
             for p in parse_actions:
-                result = p(result, -1, string)
-            offset = (0, 2, 3, 5)[arity]
-            flat_tokens[i : i + offset] = [(result, (expr,))]
+                result = p(result, result.start, string)
+            flat_tokens[i : i + size] = [(result, (expr,))]
             op_index = 0
+        return flat_tokens
 
-        result = flat_tokens[0][0]
+    def make_tree(tokens, loc, string):
+        result = reduce(tokens, string)[0][0]
         result.end = tokens.end
         result.failures = tokens.failures
         return result
@@ -368,6 +314,15 @@ def infix_notation(
     iso = lpar.suppress() + flat + rpar.suppress()
     atom = (base_expr | iso) / record_op(base_expr)
     decorated = ZeroOrMore(prefix_ops) + atom + ZeroOrMore(suffix_ops)
-    flat << ((decorated + ZeroOrMore(ops + decorated)) / make_tree).streamline()
+    # WHAT IS BETWEEN THE TWO OPERATORS OF A TERNARY IS COMPLETE
+    inner = flat / record_op(base_expr)
+    ternary = [
+        op[0] / record_op(op[0]) + inner + op[1] / record_op(op[1]) + decorated
+        for expr, op, is_suppressed, arity, assoc, pa in op_list
+        if arity == 3
+    ]
+    binary = [ops + decorated] if ops.exprs else []
+    more = MatchFirst(ternary + binary) if ternary + binary else NoMatch()
+    flat << ((decorated + ZeroOrMore(more)) / make_tree).streamline()
 
     return flat.streamline()
-- 
2.43.0


From 89d0965bd061386d0b31fbda36031a054937b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:53 +0000
Subject: [PATCH 37/66] fix: Regex reads {n,}, {,n} and spaces, and its groups
 and replacements are those of the match in its place

---
 mo_parsing/regex.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index 8dd893e..f24da88 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -45,6 +45,7 @@ from mo_parsing.utils import (
     Log,
     enlist,
     regex_compile,
+    MAX_INT,
     ParseException,
 )
 from mo_parsing.whitespaces import Whitespace, NO_WHITESPACE
@@ -129,8 +130,8 @@ def repeat(tokens):
             return Many(
                 operand,
                 NO_WHITESPACE,
-                min_match=int(operator["min"]),
-                max_match=int(operator["max"]),
+                min_match=int(operator["min"] or 0),
+                max_match=int(operator["max"]) if operator["max"] else MAX_INT,
             )
     elif mode in "*?":
         return ZeroOrMore(operand, NO_WHITESPACE)
@@ -205,9 +206,7 @@ regex = Forward()
 line_start = Literal("^") / (lambda: LineStart())
 line_end = Literal("$") / (lambda: LineEnd())
 word_edge = Literal("\\b") / (lambda: NotAny(any_wordchar))
-simple_char = Word(
-    printables, exclude=r".^$*+{}[]\|()"
-) / (lambda t: Literal(t.value()))
+simple_char = Char(exclude=r".^$*+?{}[]\|()") / (lambda t: Literal(t.value()))
 esc_char = ("\\" + AnyChar()) / (lambda t: Literal(t.value()[1]))
 
 with Whitespace():
@@ -265,7 +264,7 @@ regex << (
 regex = regex.finalize()
 
 parameters = (
-    "\\g<" + Word(alphas, alphanums)("name") + ">" | "\\" + Char(alphanums)("name")
+    "\\g<" + Word(alphanums + "_")("name") + ">" | "\\" + Char(alphanums)("name")
 ) / (lambda t: t["name"])
 NO_WHITESPACE.release()
 
@@ -299,26 +298,25 @@ class Regex(ParseEnhancement):
         NAMED GROUPS (eg (?P<name>...)
         """
 
-        def group_list(tokens):
+        def group_list(tokens, index, string):
             start, end = tokens.start, tokens.end
             # RE-MATCH  :(
-            sub_string = tokens.tokens[0]
-            found = tokens.type.regex.match(sub_string)
+            found = tokens.type.regex.match(string, start)
             lookup = dict(reversed(p) for p in found.re.groupindex.items())
             ann = []
             pe = 0
             for i, (s, e) in enumerate(found.regs[1:], start=1):
                 if s == -1:
                     continue  # NOT FOUND
-                g = sub_string[s:e]
+                g = string[s:e]
                 if pe <= s:
                     ann.append(g)
                 pe = e
                 ii = str(i)
-                ann.append(Annotation(ii, s + start, e + start, [g]))
+                ann.append(Annotation(ii, s, e, [g]))
                 n = lookup.get(i)
                 if n:
-                    ann.append(Annotation(n, s + start, e + start, [g]))
+                    ann.append(Annotation(n, s, e, [g]))
             return ParseResults(_plain_group, start, end, ann, [])
 
         return self / group_list
@@ -327,15 +325,15 @@ class Regex(ParseEnhancement):
         # MIMIC re.sub
         if is_text(replacement):
             # USE PYTHON REGEX
-            def pa(tokens):
-                return tokens.type.regex.sub(replacement, tokens[0])
+            def pa(tokens, index, string):
+                return tokens.type.regex.match(string, tokens.start).expand(replacement)
 
             output = self / pa
             return output
         else:
             # A FUNCTION
-            def pf(tokens):
-                regex_result = tokens.type.regex.match(tokens.tokens[0])
+            def pf(tokens, index, string):
+                regex_result = tokens.type.regex.match(string, tokens.start)
                 return replacement(regex_result)
 
             return self / pf
-- 
2.43.0


From a8fbf45d00574c0cfa552af6080cf1d3e3ccef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 38/66] fix: the regex of repetitions, options and skips keeps
 whitespace, stop and precedence

---
 mo_parsing/enhancement.py | 17 +++++++++++++----
 mo_parsing/tokens.py      |  6 ++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 36df455..e758993 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -312,7 +312,12 @@ class Many(ParseEnhancement):
     def __regex__(self):
         end = self.parser_config.end.pattern if self.parser_config.end else None
         prec, regex = self.expr.__regex__()
-        regex = regex_iso(prec, regex, "*")
+        white = self.parser_config.whitespace.__regex__()[1]
+        if white or end:
+            before = white + (f"(?!{end})" if end else "")
+            regex = f"(?:{before}{regex_iso(prec, regex, '+')})"
+        else:
+            regex = regex_iso(prec, regex, "*")
 
         if self.parser_config.max_match == MAX_INT:
             if self.parser_config.min_match == 0:
@@ -330,7 +335,7 @@ class Many(ParseEnhancement):
             suffix = "{" + text(self.parser_config.min_match) + "," + text(self.parser_config.max_match) + "}"
 
         # A QUANTIFIER CAN NOT DIRECTLY FOLLOW ANOTHER
-        return "+", regex + suffix + (end or "")
+        return "+", regex + suffix
 
     def __call__(self, name):
         if not name:
@@ -421,6 +426,9 @@ class Optional(Many):
         except ParseException as pe:
             return ParseResults(self, start, start, self.parser_config.default_value, [pe])
 
+    def __regex__(self):
+        return "+", regex_iso(*self.expr.__regex__(), "*") + "{0,1}"
+
     def __str__(self):
         if self.parser_name:
             return self.parser_name
@@ -464,10 +472,11 @@ class SkipTo(ParseEnhancement):
     def __regex__(self):
         prec, pattern = self.expr.__regex__()
         pattern = regex_iso(prec, pattern, "+")
+        white = regex_iso(*self.parser_config.whitespace.__regex__(), "+")
         if self.parser_config.include:
-            return "*", f"(.*?{pattern})"
+            return "*", f"(.*?{white}{pattern})"
         else:
-            return "+", f"(.*?)(?={pattern})"
+            return "+", f"(.*?){white}(?={pattern})"
 
     def parse_impl(self, string, start, do_actions=True):
         instrlen = len(string)
diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index e40a4d1..34f438b 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -376,7 +376,8 @@ class Word(Token):
         if body_chars == init_chars:
             if init_chars.__class__.__name__ == "Regex":
                 init_chars = init_chars.expr.expecting().keys()
-            prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
+            with whitespaces.NO_WHITESPACE:
+                prec, regexp = Char(init_chars, exclude=exclude)[min:max].__regex__()
         elif max is None or max == MAX_INT:
             with whitespaces.NO_WHITESPACE:
                 prec, regexp = (
@@ -549,7 +550,8 @@ class CharsNotIn(Token):
         return self
 
     def __regex__(self):
-        return "*", self.parser_config.regex.pattern
+        # INCLUDES A QUANTIFIER
+        return "+", self.parser_config.regex.pattern
 
     def __str__(self):
         return self.parser_config.regex.pattern
-- 
2.43.0


From 83de7d44ce2cb3ae849da733d988039afd877856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:26 +0000
Subject: [PATCH 39/66] fix: a repetition keeps the failures of the attempt
 that consumed nothing

---
 mo_parsing/enhancement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index e758993..1b46322 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -265,11 +265,11 @@ class Many(ParseEnhancement):
                         else:
                             raise ParseException(self, end, string, msg="found stopper too soon")
                 result = self.expr._parse(string, index, do_actions)
+                failures.extend(result.failures)
                 if result.end == result.start:
                     break  # NOTHING CONSUMED, THE NEXT ATTEMPT WILL BE THE SAME
                 end = result.end
                 acc.append(result)
-                failures.extend(result.failures)
                 count += 1
                 if count >= max:
                     break
-- 
2.43.0


From 2014cf43681b5ae011e815ef291e54c46f565686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 40/66] fix: the Debugger prints when silent, gives actions
 another location, and lets them roll back

---
 mo_parsing/debug.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index bb79046..b1912df 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -10,6 +10,7 @@ from mo_parsing.utils import (
     col,
     stack_depth,
     quote as plain_quote,
+    Log,
     ParseException,
 )
 
@@ -59,9 +60,16 @@ def _debug_parse(debugger):
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             try:
                 for fn in self.parse_action:
-                    tokens = fn(tokens, start, string)
+                    next_tokens = fn(tokens, tokens.start, string)
+                    if next_tokens.end < tokens.end:
+                        Log.error(
+                            "parse action {{name}} not allowed to roll back the end of parsing",
+                            name=fn.__name__,
+                        )
+                    tokens = next_tokens
             except Exception as cause:
-                fail(self, start, string, cause)
+                if not debugger.silent:
+                    fail(self, start, string, cause)
                 raise
         if not debugger.silent:
             match(self, loc, tokens.end, string, tokens)
-- 
2.43.0


From 5c8e63cc8c62a082a03bed432e45ad4f4bbbae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 41/66] fix: matchPreviousLiteral and matchPreviousExpr never
 looked at what was matched, or remembered every earlier parse; counted_array
 repeats with the whitespace it was made in

---
 mo_parsing/helpers.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index f8ef3dd..e2f0625 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -41,6 +41,7 @@ from mo_parsing.utils import (
     hexnums,
     nums,
     printables,
+    wrap_parse_action,
     Log,
 )
 from mo_parsing.whitespaces import Whitespace, STANDARD_WHITESPACE, NO_WHITESPACE
@@ -187,10 +188,11 @@ def counted_array(expr, int_expr=None):
         int_expr = Word(nums) / (lambda t: int(t[0]))
 
     array_expr = Forward()
+    whitespace = whitespaces.CURRENT
 
     def countFieldParseAction(t, l, s):
         n = t[0]
-        array_expr << Group(Many(expr, exact=n, whitespace=whitespaces.CURRENT))
+        array_expr << Group(Many(expr, exact=n, whitespace=whitespace))
         return []
 
     int_expr = (
@@ -204,7 +206,7 @@ def counted_array(expr, int_expr=None):
 def _flatten(L):
     ret = []
     for i in L:
-        if isinstance(i, list):
+        if isinstance(i, (list, ParseResults)):
             ret.extend(_flatten(i))
         else:
             ret.append(i)
@@ -228,23 +230,32 @@ def matchPreviousLiteral(expr):
     enabled.
     """
     rep = Forward()
+    whitespace = whitespaces.CURRENT
 
     def copyTokenToRepeater(t, l, s):
-        if t:
-            if len(t) == 1:
-                rep << t[0]
+        # flatten t tokens
+        tflat = _flatten(t)
+        if tflat:
+            if len(tflat) == 1:
+                rep << Literal(tflat[0])
             else:
-                # flatten t tokens
-                tflat = _flatten(t)
-                rep << And(Literal(tt) for tt in tflat)
+                rep << And([Literal(tt) for tt in tflat], whitespace)
         else:
             rep << Empty()
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    _add_action_to(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
 
+def _add_action_to(expr, action):
+    """
+    THE GIVEN EXPRESSION ITSELF MUST REMEMBER WHAT IT MATCHED, NOT A COPY OF IT
+    """
+    expr.parse_action = expr.parse_action + [wrap_parse_action(action)]
+    expr.set_config(callDuringTry=True)
+
+
 def matchPreviousExpr(expr):
     """Helper to define an expression that is indirectly defined from
     the tokens matched in a previous expression, that is, it looks for
@@ -270,11 +281,12 @@ def matchPreviousExpr(expr):
         def mustMatchTheseTokens(t, l, s):
             these_tokens = _flatten(t)
             if these_tokens != match_tokens:
-                raise ParseException("", 0, "")
+                raise ParseException(t.type, l, s, msg=f"expecting {match_tokens}")
 
-        rep.add_parse_action(mustMatchTheseTokens, callDuringTry=True)
+        rep.parse_action = [wrap_parse_action(mustMatchTheseTokens)]
 
-    expr.add_parse_action(copyTokenToRepeater, callDuringTry=True)
+    rep.set_config(callDuringTry=True)
+    _add_action_to(expr, copyTokenToRepeater)
     rep.set_parser_name("(prev) " + text(expr))
     return rep
 
-- 
2.43.0


From 9e9fcff6d7a99d5c08d735e6efaba8e2b73d173e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 42/66] fix: indented_block checked no columns while looking
 ahead, forgot or leaked its columns on failure and when an action parsed, and
 ended in an AttributeError

---
 mo_parsing/core.py    |  30 ++++++++---
 mo_parsing/helpers.py | 123 +++++++++++++++++++++---------------------
 2 files changed, 82 insertions(+), 71 deletions(-)

diff --git a/mo_parsing/core.py b/mo_parsing/core.py
index ca3c330..e3c280e 100644
--- a/mo_parsing/core.py
+++ b/mo_parsing/core.py
@@ -1,6 +1,7 @@
 # encoding: utf-8
 import sys
 from collections import namedtuple
+from contextlib import contextmanager
 from threading import RLock
 from typing import List
 
@@ -70,15 +71,28 @@ locker = RLock()
 streamlined = {}
 
 
+@contextmanager
+def _entered():
+    """
+    RESET GLOBAL STATE, AND PUT IT BACK: AN ACTION MAY HAVE CALLED, AND THAT PARSE GOES ON
+    """
+    with locker:
+        undo = []
+        for a in _reset_actions:
+            try:
+                undo.append(a())
+            except Exception as e:
+                Log.error("reset action failed", cause=e)
+        try:
+            yield
+        finally:
+            for u in undo:
+                u and u()
+
+
 def entrypoint(func):
     def output(*args, **kwargs):
-        with locker:
-            for a in _reset_actions:
-                try:
-                    a()
-                except Exception as e:
-                    Log.error("reset action failed", cause=e)
-
+        with _entered():
             return func(*args, **kwargs)
 
     return output
@@ -89,7 +103,7 @@ def _locked(items):
     THE ITEMS OF A GENERATOR ARE ASKED FOR AFTER THE entrypoint IS LEFT
     """
     while True:
-        with locker:
+        with _entered():
             try:
                 item = next(items)
             except StopIteration:
diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index e2f0625..35acc1a 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -691,17 +691,43 @@ def with_class(classname, namespace=""):
     return with_attribute(**{classattr: classname})
 
 
-_indent_stack = [(1, None, None)]
+_indent_stack = [1]  # COLUMNS OF THE BLOCKS BEING PARSED
 
 
 def reset_stack():
+    """
+    :return: FUNCTION TO PUT BACK WHAT THERE WAS, SINCE AN ACTION MAY PARSE
+    """
     global _indent_stack
-    _indent_stack = [(1, None, None)]
+    was = _indent_stack
+    _indent_stack = [1]
+
+    def put_back():
+        global _indent_stack
+        _indent_stack = was
+
+    return put_back
 
 
 add_reset_action(reset_stack)
 
 
+class IndentedBlock(Group):
+    """
+    A Group THAT FORGETS THE COLUMNS OPENED INSIDE, HOWEVER IT IS LEFT
+    """
+
+    __slots__ = []
+
+    def parse_impl(self, string, start, do_actions=True):
+        stack = _indent_stack
+        depth = len(stack)
+        try:
+            return Group.parse_impl(self, string, start, do_actions)
+        finally:
+            del stack[depth:]
+
+
 def indented_block(blockStatementExpr, indent=True):
     """Helper method for defining space-delimited indentation blocks,
     such as those used to define block statements in Python source code.
@@ -719,81 +745,52 @@ def indented_block(blockStatementExpr, indent=True):
 
     A valid block must contain at least one ``blockStatement``.
     """
-    PEER = Forward()
-    DEDENT = Forward()
-
-    def _reset_stack(t=None, i=None, s=None, c=None):
-        old_col, old_peer, old_dedent = _indent_stack.pop()
-        PEER << old_peer
-        DEDENT << old_dedent
-
-    def peer_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col != expected_col:
-                if cur_col > expected_col:
-                    raise ParseException(t.type, l, s, "illegal nesting")
-                raise ParseException(t.type, l, s, "not a peer entry")
-
-        return output
-
-    def dedent_stack(expected_col):
-        def output(t, l, s):
-            if l >= len(s):
-                return
-            cur_col = col(l, s)
-            if cur_col not in (i for i, _, _ in _indent_stack):
-                raise ParseException(s, l, "not an unindent")
-            if cur_col < _indent_stack[-1][0]:
-                old_col, old_peer, old_dedent = _indent_stack.pop()
-                PEER << old_peer
-                DEDENT << old_dedent
-
-        return output
+
+    def peer_stack(t, l, s):
+        if l >= len(s):
+            return
+        cur_col = col(l, s)
+        if cur_col > _indent_stack[-1]:
+            raise ParseException(t.type, l, s, "illegal nesting")
+        if cur_col < _indent_stack[-1]:
+            raise ParseException(t.type, l, s, "not a peer entry")
+
+    def dedent_stack(t, l, s):
+        if l >= len(s):
+            return
+        if col(l, s) not in _indent_stack:
+            raise ParseException(t.type, l, s, "not an unindent")
 
     def indent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col > _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
-        else:
+        if cur_col <= _indent_stack[-1]:
             raise ParseException(t.type, l, s, "not a subentry")
+        _indent_stack.append(cur_col)
 
     def nodent_stack(t, l, s):
         cur_col = col(l, s)
-        if cur_col == _indent_stack[-1][0]:
-            PEER << Empty() / peer_stack(cur_col)
-            DEDENT << Empty() / dedent_stack(cur_col)
-            _indent_stack.append((cur_col, PEER, DEDENT))
-        else:
+        if cur_col != _indent_stack[-1]:
             raise ParseException(t.type, l, s, "not a subentry")
+        _indent_stack.append(cur_col)
 
     ignore_list = whitespaces.CURRENT.ignore_list
     with Whitespace(whitespaces.CURRENT.white_chars) as e:
         e.add_ignore(*ignore_list)
 
         NL = OneOrMore(LineEnd().suppress())
-        INDENT = Empty() / indent_stack
-        NODENT = Empty() / nodent_stack
-
-        if indent:
-            sm_expr = Group(
-                Optional(NL)
-                + INDENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-        else:
-            sm_expr = Group(
-                Optional(NL)
-                + NODENT
-                + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
-                + DEDENT
-            )
-    return sm_expr.setFailAction(_reset_stack).set_parser_name("indented block")
+        INDENT = Empty().add_parse_action(
+            indent_stack if indent else nodent_stack, callDuringTry=True
+        )
+        PEER = Empty().add_parse_action(peer_stack, callDuringTry=True)
+        DEDENT = Empty().add_parse_action(dedent_stack, callDuringTry=True)
+
+        sm_expr = IndentedBlock(
+            Optional(NL)
+            + INDENT
+            + OneOrMore(PEER + Group(blockStatementExpr) + Optional(NL))
+            + DEDENT
+        )
+    return sm_expr.set_parser_name("indented block")
 
 
 anyOpenTag, anyCloseTag = makeHTMLTags(
-- 
2.43.0


From 6b3d3cdefa9ada8dfc2b2627392f1f02b31a891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 43/66] fix: actions added to a Forward changed it, or ran
 twice in its copies; MatchAll answered otherwise once a grammar around it was
 finalized

---
 mo_parsing/enhancement.py | 14 +++++---------
 mo_parsing/expressions.py |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index 1b46322..c6ebc73 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -585,7 +585,11 @@ class Forward(ParserElement):
 
     def copy(self):
         output = ParserElement.copy(self)
-        output.expr = self
+        if is_forward(self.expr):
+            output.expr = self.expr
+        else:
+            output.expr = self
+            output.parse_action = []  # self HAS THEM
         output._str = None
         output._in_regex = None
         output._in_expecting = None
@@ -613,14 +617,6 @@ class Forward(ParserElement):
         self.check_recursion()
         return self
 
-    def add_parse_action(self, action):
-        """
-        Add one or more parse actions to expression's list of parse actions. See `setParseAction`.
-        Also you can use `/` operator
-        """
-        self.parse_action.append(wrap_parse_action(action))
-        return self
-
     def leave_whitespace(self):
         with whitespaces.NO_WHITESPACE:
             output = self.copy()
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index cb9d1b8..7e91e3b 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -122,6 +122,7 @@ class ParseExpression(ParserElement):
         if same:
             return self
 
+        self.streamlined = False  # NOT THIS, THE OUTPUT IS
         output = self.copy()
         output.exprs = acc
         output.streamlined = True
-- 
2.43.0


From 274c92b2ed1b3c164ab921032dac7618018b2b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:40 +0000
Subject: [PATCH 44/66] fix: assigning to a name of results that was there lost
 it, deleting erased it in what shares tokens; reversed, in and keys read
 other contents

---
 mo_parsing/enhancement.py |  1 -
 mo_parsing/results.py     | 99 ++++++++++++++++++++++++++-------------
 2 files changed, 67 insertions(+), 33 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index c6ebc73..d965a1a 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -16,7 +16,6 @@ from mo_parsing.utils import (
     regex_iso,
     append_config,
     regex_compile,
-    wrap_parse_action,
 )
 from mo_parsing.utils import MAX_INT, is_forward
 
diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 83b72ee..35c84f6 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -1,7 +1,8 @@
 # encoding: utf-8
 import inspect
+from copy import copy
 
-from mo_dots import is_many, is_null, register_data, register_list, exists
+from mo_dots import is_many, is_null, register_data, register_list
 from mo_future import is_text, text, zip_longest, MutableMapping
 from mo_imports import expect, export
 from mo_parsing.exceptions import sort_causes
@@ -90,30 +91,45 @@ class ParseResults(object):
 
         if v is None:
             v = NO_RESULTS
+        if isinstance(v, ParseResults):
+            while isinstance(v, ForwardResults):
+                v = v.tokens[0]
+            start, end, values = v.start, v.end, v.tokens
+        else:
+            start, end, values = -1, 0, enlist(v)
 
-        for i, tok in enumerate(self.tokens):
-            if isinstance(tok, ParseResults):
-                if tok.name == k:
-                    self.tokens[i] = v
-                    v = NO_RESULTS  # ERASE ALL OTHERS
-                elif isinstance(tok.type, Group):
-                    continue
-                elif tok.name:
-                    continue
-
-                tok.__setitem__(k, NO_RESULTS)  # ERASE ALL CHILDREN
+        replacement = [] if v is NO_RESULTS else [values]
+        self.tokens = self._replace(k, replacement)
+        if replacement:
+            self._annotate(Annotation(k, start, end, values))
 
-        if v is not NO_RESULTS:
-            tokens = self.tokens
-            if isinstance(self, ForwardResults):
-                tokens = tokens[0].tokens
-            if isinstance(v, ParseResults):
-                tokens.append(Annotation(k, v.start, v.end, v.tokens))
-            else:
-                tokens.append(Annotation(k, -1, 0, enlist(v)))
-
-    def __contains__(self, k):
-        return any((r.name) == k for r in self.tokens)
+    def _replace(self, name, values):
+        """
+        :param name: ALL TOKENS OF THIS NAME ARE REMOVED
+        :param values: LIST OF ONE LIST OF VALUES, TAKEN BY THE FIRST OF THEM
+        :return: NEW LIST OF TOKENS; THE OLD TOKENS MAY BE SHARED
+        """
+        tokens = []
+        for tok in self.tokens:
+            if isinstance(tok, ParseResults):
+                if tok.name == name:
+                    if not values:
+                        continue
+                    new_tok = Annotation(name, tok.start, tok.end, values.pop())
+                    if not isinstance(tok, Annotation):
+                        new_tok.__class__ = ParseResults
+                    tok = new_tok
+                elif not tok.name and not isinstance(tok.type, Group):
+                    inner = tok._replace(name, values)
+                    if not inner and tok.tokens:
+                        continue
+                    tok = copy(tok)
+                    tok.tokens = inner
+            tokens.append(tok)
+        return tokens
+
+    def _annotate(self, annotation):
+        self.tokens.append(annotation)
 
     def length(self):
         return sum(1 for _ in self)
@@ -180,7 +196,7 @@ class ParseResults(object):
             self[key] = NO_RESULTS
 
     def __reversed__(self):
-        return reversed(self.tokens)
+        return reversed(list(self))
 
     def value(self):
         """
@@ -210,7 +226,10 @@ class ParseResults(object):
                 if isinstance(tok.type, Suppress):
                     continue
                 if tok.name:
-                    add(output, tok.name, [tok])
+                    if isinstance(tok.type, Group) or any(
+                        True for t in tok.tokens for _ in _flatten(t)
+                    ):
+                        add(output, tok.name, [tok])
                     continue
                 if isinstance(tok.type, Group):
                     continue
@@ -233,7 +252,7 @@ class ParseResults(object):
     def __contains__(self, item):
         if item is Ellipsis:
             return False
-        return exists(self[item])
+        return self[item] is not NO_RESULTS
 
     def __add__(self, other):
         # if not isinstance(other, ParseResults):
@@ -335,8 +354,9 @@ class ParseResults(object):
         Returns a new copy of a `ParseResults` object.
         """
         ret = ParseResults(
-            self.type, self.start, self.end, list(self.tokens), self.failures
+            self._type, self.start, self.end, list(self.tokens), self.failures
         )
+        ret.__class__ = self.__class__
         return ret
 
     def get_name(self):
@@ -365,16 +385,31 @@ class ForwardResults(ParseResults):
             return ParseResults.__getitem__(self, item)
         return self.tokens[0][item]
 
-    def __setitem__(self, k, v):
-        self.tokens[0][k] = v
+    def _replace(self, name, values):
+        definition = self.tokens[0]
+        if definition.name:
+            gone = definition.name == name and not values
+            tokens = ParseResults._replace(self, name, values)
+            if gone:
+                return [ParseResults(NO_PARSER, self.start, self.end, tokens, [])]
+            return tokens
+        definition = copy(definition)
+        definition.tokens = definition._replace(name, values)
+        return [definition]
+
+    def _annotate(self, annotation):
+        if self.tokens[0].name:
+            # NEXT TO THE NAMED DEFINITION, NOT IN IT
+            self.tokens.append(annotation)
+        else:
+            self.tokens[0]._annotate(annotation)
 
     def __bool__(self):
+        if self.tokens[0].name:
+            return ParseResults.__bool__(self)
         return self.tokens[0].__bool__()
 
     def __iter__(self):
-        if len(self.tokens) != 1:
-            Log.error("not expected")
-
         yield from self.tokens[0]
 
     def items(self):
-- 
2.43.0


From e88bf5ac4c7d1501b4947670596b0fb7ca02f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 45/66] fix: Regex refused inline flags and other extensions

---
 mo_parsing/regex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index f24da88..aa76b76 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -229,6 +229,8 @@ not_ahead = ("(?!" + regex + ")") / (lambda t: NotAny(t["value"]))
 behind = ("(?<=" + regex + ")") / (lambda t: LookBehind(t["value"]))
 not_behind = ("(?<!" + regex + ")") / (lambda t: Log.error("not supported"))
 non_capture = ("(?:" + regex + ")") / (lambda t: t["value"])
+flagged = ("(?" + Word("aiLmsux-") + ":" + regex + ")") / (lambda t: t["value"])
+extension = ("(?" + regex + ")") / (lambda t: t["value"])  # THE COMPILED PATTERN KNOWS BETTER
 # conditional = ("(?" + try_match + "|" + else_match + ")")
 # recursive = ("(?R)")
 # TODO: match previous capture (3)
@@ -251,7 +253,9 @@ term = (
     | behind
     | not_behind
     | non_capture
+    | flagged
     | named
+    | extension
     | group
 )
 
-- 
2.43.0


From 8cb7e1e8a07acdef6216b490966888578e4da12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:11 +0000
Subject: [PATCH 46/66] fix: a named definition of a Forward counted as present
 when it was empty

---
 mo_parsing/results.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 35c84f6..4474202 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -405,9 +405,8 @@ class ForwardResults(ParseResults):
             self.tokens[0]._annotate(annotation)
 
     def __bool__(self):
-        if self.tokens[0].name:
-            return ParseResults.__bool__(self)
-        return self.tokens[0].__bool__()
+        # WITHOUT ANNOTATIONS, THE NAME OF THE DEFINITION IS NOT ENOUGH
+        return len(self.tokens) > 1 or self.tokens[0].__bool__()
 
     def __iter__(self):
         yield from self.tokens[0]
-- 
2.43.0


From a7918157cd30b87ff34086f1170e926d9036bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:34 +0000
Subject: [PATCH 47/66] fix: QuotedString resolved escapes twice, ended at an
 esc_quote that does not begin with the quote, and crossed a carriage return;
 unicode_string allowed a space after the u

---
 mo_parsing/helpers.py | 53 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 35acc1a..c9f0477 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -93,18 +93,28 @@ def QuotedString(
     if multiline:
         anychar = AnyChar()
     else:
-        anychar = Char(exclude="\n")
+        anychar = Char(exclude="\r\n")
         excluded |= Char("\r\n")
 
     with whitespaces.NO_WHITESPACE:
         included = ~Literal(end_quote_char) + anychar
 
+        # IN ORDER OF PRECEDENCE, AS BELOW
+        escapes = []
+        if convert_whitespace_escape:
+            escapes.append(r"\\(?P<white>[tnfr])")
+        if esc_char:
+            escapes.append(re.escape(esc_char) + "(?P<char>.)")
+        if esc_quote:
+            escapes.append("(?P<quote>" + re.escape(esc_quote) + ")")
+        escapes = re.compile("|".join(escapes)) if escapes else None
+
         if esc_quote:
+            excluded |= Literal(esc_quote)
             included = Literal(esc_quote) | included
         if esc_char:
             excluded |= Literal(esc_char)
-            included = esc_char + Char(printables) | included
-            esc_char_replace_pattern = re.escape(esc_char) + "(.)"
+            included = esc_char + anychar | included
 
         prec, pattern = (
             Literal(quote_char) + ((~excluded + anychar) | included)[0:]
@@ -112,31 +122,23 @@ def QuotedString(
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
         output = Combine(Regex(pattern) + Literal(end_quote_char))
 
+    def unescape(match):
+        found = match.groupdict()
+        if found.get("white"):
+            return {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}[found["white"]]
+        if found.get("char"):
+            return found["char"]
+        return end_quote_char
+
     def post_parse(tokens):
         ret = tokens[0]
         if unquote_results:
             # strip off quotes
             ret = ret[len(quote_char) : -len(end_quote_char)]
 
-            if isinstance(ret, text):
-                # replace escaped whitespace
-                if "\\" in ret and convert_whitespace_escape:
-                    ws_map = {
-                        r"\t": "\t",
-                        r"\n": "\n",
-                        r"\f": "\f",
-                        r"\r": "\r",
-                    }
-                    for wslit, wschar in ws_map.items():
-                        ret = ret.replace(wslit, wschar)
-
-                # replace escaped characters
-                if esc_char:
-                    ret = re.sub(esc_char_replace_pattern, r"\g<1>", ret)
-
-                # replace escaped quotes
-                if esc_quote:
-                    ret = ret.replace(esc_quote, end_quote_char)
+            if escapes and isinstance(ret, text):
+                # EACH ESCAPE ONCE, FROM LEFT TO RIGHT
+                ret = escapes.sub(unescape, ret)
 
         return ParseResults(tokens.type, tokens.start, tokens.end, [ret], [])
 
@@ -156,9 +158,10 @@ quoted_string = Combine(
     Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
     | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
 ).set_parser_name("quoted_string using single or double quotes")
-unicode_string = Combine(
-    Literal("u") + quoted_string
-).set_parser_name("unicode string literal")
+with whitespaces.NO_WHITESPACE:
+    unicode_string = Combine(
+        Literal("u") + quoted_string
+    ).set_parser_name("unicode string literal")
 
 
 def counted_array(expr, int_expr=None):
-- 
2.43.0


From 7f569589ffcad25dab778cf177e02e0929226546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:46 +0000
Subject: [PATCH 48/66] fix: predefined quoted strings allowed line ends before
 the closing quote; a quoted string alone did not skip white before it

---
 mo_parsing/helpers.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index c9f0477..d6e288d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -47,6 +47,16 @@ from mo_parsing.utils import (
 from mo_parsing.whitespaces import Whitespace, STANDARD_WHITESPACE, NO_WHITESPACE
 
 
+class _Quoted(Combine):
+    """
+    A TERMINAL, WHATEVER IT IS MADE OF
+    """
+
+    @property
+    def whitespace(self):
+        return None
+
+
 def QuotedString(
     quote_char,
     esc_char=None,
@@ -120,7 +130,7 @@ def QuotedString(
             Literal(quote_char) + ((~excluded + anychar) | included)[0:]
         ).__regex__()
         # IMPORTANT: THE end_quote_char IS OUTSIDE THE Regex BECAUSE OF PATHOLOGICAL BACKTRACKING
-        output = Combine(Regex(pattern) + Literal(end_quote_char))
+        output = _Quoted(Regex(pattern) + Literal(end_quote_char))
 
     def unescape(match):
         found = match.groupdict()
@@ -145,21 +155,21 @@ def QuotedString(
     return (output / post_parse).streamline()
 
 
-dblQuotedString = Combine(
-    #       0         1         2         3         4         5
-    #       012345678901234567890123456789012345678901234567890123456789
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*')
-    + '"'
-).set_parser_name("string enclosed in double quotes")
-sglQuotedString = Combine(
-    Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
-).set_parser_name("string enclosed in single quotes")
-quoted_string = Combine(
-    Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
-    | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
-).set_parser_name("quoted_string using single or double quotes")
 with whitespaces.NO_WHITESPACE:
-    unicode_string = Combine(
+    dblQuotedString = _Quoted(
+        #       0         1         2         3         4         5
+        #       012345678901234567890123456789012345678901234567890123456789
+        Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*')
+        + '"'
+    ).set_parser_name("string enclosed in double quotes")
+    sglQuotedString = _Quoted(
+        Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    ).set_parser_name("string enclosed in single quotes")
+    quoted_string = _Quoted(
+        Regex(r'"(?:[^"\n\r\\]|(?:"")|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*') + '"'
+        | Regex(r"'(?:[^'\n\r\\]|(?:'')|(?:\\(?:[^x]|x[0-9a-fA-F]+)))*") + "'"
+    ).set_parser_name("quoted_string using single or double quotes")
+    unicode_string = _Quoted(
         Literal("u") + quoted_string
     ).set_parser_name("unicode string literal")
 
-- 
2.43.0


From 7ed53d15d8254ab325b2f7381b51249fb67546ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 49/66] fix: IPv6 addresses allowed white inside, comma lists
 lost inner white, the sign of a mixed number was not for its fraction, a zero
 denominator raised

---
 mo_parsing/helpers.py | 53 +++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index d6e288d..dbfc14d 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -840,9 +840,10 @@ with NO_WHITESPACE:
 
     pythonStyleComment = Regex(r"#[^\n]*").set_parser_name("Python style comment")
 
-_commasepitem = Combine(OneOrMore(
-    Word(printables, exclude=",") + Optional(Word(" \t") + ~Literal(",") + ~LineEnd())
-)).set_parser_name("comma_item") / (lambda t: text(t).strip())
+with NO_WHITESPACE:
+    _commasepitem = _Quoted(OneOrMore(
+        Word(printables, exclude=",") + Optional(Word(" \t") + ~Literal(",") + ~LineEnd())
+    )).set_parser_name("comma_item") / (lambda t: t[0].strip())
 commaSeparatedList = delimited_list(Optional(
     quoted_string | _commasepitem, default=""
 )).set_parser_name("commaSeparatedList")
@@ -858,11 +859,18 @@ signed_integer = Regex(r"[+-]?\d+").set_parser_name("signed integer") / convertT
 
 fraction = (
     signed_integer / convertToFloat + "/" + signed_integer / convertToFloat
-).set_parser_name("fraction") / (lambda t: t[0] / t[2])
+).add_condition(lambda t: t[2] != 0).set_parser_name("fraction") / (lambda t: t[0] / t[2])
+
+
+def _mixed(tokens, index, string):
+    # THE SIGN IS FOR ALL OF IT
+    whole, *fractions = tokens
+    return whole - sum(fractions) if string[tokens.start] == "-" else whole + sum(fractions)
+
 
 mixed_integer = (
     fraction | signed_integer + Optional(Optional("-").suppress() + fraction)
-).set_parser_name("fraction or mixed integer-fraction") / sum
+).set_parser_name("fraction or mixed integer-fraction") / _mixed
 
 real = Regex(r"[+-]?(?:\d+\.\d*|\.\d+)").set_parser_name("real number") / convertToFloat
 
@@ -883,24 +891,25 @@ ipv4_address = Regex(
     r"(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})(\.(25[0-5]|2[0-4][0-9]|1?[0-9]{1,2})){3}"
 ).set_parser_name("IPv4 address")
 
-_ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
-_full_ipv6_address = (
-    _ipv6_part + (":" + _ipv6_part) * 7
-).set_parser_name("full IPv6 address")
-_short_ipv6_address = (
-    Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-    + "::"
-    + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
-).set_parser_name("short IPv6 address")
-_short_ipv6_address = _short_ipv6_address.add_condition(lambda t: sum(
-    1 for tt in t if _ipv6_part.matches(tt)
-) < 8)
-_mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
-ipv6_address = Combine(
-    (
-        _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
+with NO_WHITESPACE:
+    _ipv6_part = Regex(r"[0-9a-fA-F]{1,4}").set_parser_name("hex_integer")
+    _full_ipv6_address = (
+        _ipv6_part + (":" + _ipv6_part) * 7
+    ).set_parser_name("full IPv6 address")
+    _short_ipv6_address = (
+        Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
+        + "::"
+        + Optional(_ipv6_part + (":" + _ipv6_part) * (0, 6))
+    ).set_parser_name("short IPv6 address")
+    _short_ipv6_address = _short_ipv6_address.add_condition(lambda t: sum(
+        1 for tt in t if _ipv6_part.matches(tt)
+    ) < 8)
+    _mixed_ipv6_address = ("::ffff:" + ipv4_address).set_parser_name("mixed IPv6 address")
+    ipv6_address = _Quoted(
+        (
+            _full_ipv6_address | _mixed_ipv6_address | _short_ipv6_address
+        ).set_parser_name("IPv6 address")
     ).set_parser_name("IPv6 address")
-).set_parser_name("IPv6 address")
 "IPv6 address (long, short, or mixed form)"
 
 mac_address = (
-- 
2.43.0


From 9c952d1b6b636dad3d78369a6c4c0d198946f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:07 +0000
Subject: [PATCH 50/66] fix: the text of results depended on how deep the
 caller was

---
 mo_parsing/results.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 4474202..2abdb2d 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -1,5 +1,4 @@
 # encoding: utf-8
-import inspect
 from copy import copy
 
 from mo_dots import is_many, is_null, register_data, register_list
@@ -285,14 +284,23 @@ class ParseResults(object):
         ]
 
     def __str__(self):
-        if len(inspect.stack(0)) > 30:
+        return self._as_text(0)
+
+    def _as_text(self, depth):
+        # THE DEPTH OF THE RESULTS, WHATEVER THE DEPTH OF THE CALLER
+        if depth > 30:
             return "..."
-        elif not self.tokens:
+
+        values = [
+            v._as_text(depth + 1) if isinstance(v, ParseResults) else text(v)
+            for v in self.tokens
+        ]
+        if not values:
             return ""
-        elif len(self.tokens) == 1:
-            return text(self.tokens[0])
+        elif len(values) == 1:
+            return values[0]
         else:
-            return "[" + ", ".join(text(v) for v in self.tokens) + "]"
+            return "[" + ", ".join(values) + "]"
 
     def _asStringList(self):
         for t in self:
@@ -468,7 +476,7 @@ class Annotation(ParseResults):
             Log.error("expecting a list")
         ParseResults.__init__(self, Empty()(name), start, end, value, [])
 
-    def __str__(self):
+    def _as_text(self, depth):
         return "{" + text(self.name) + ": " + text(self.tokens) + "}"
 
     def __repr__(self):
-- 
2.43.0


From 07ad4a283bde1d9ad7077ea257dd4ff38a1cc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:25 +0000
Subject: [PATCH 51/66] fix: recursion after & or SkipTo(include=True) was
 refused as if they could match nothing

---
 mo_parsing/enhancement.py | 2 +-
 mo_parsing/expressions.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index d965a1a..a591362 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -466,7 +466,7 @@ class SkipTo(ParseEnhancement):
         return {}  # ANYTHING CAN BE SKIPPED
 
     def min_length(self):
-        return 0
+        return self.expr.min_length() if self.parser_config.include else 0
 
     def __regex__(self):
         prec, pattern = self.expr.__regex__()
diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 7e91e3b..19ff0d1 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -778,8 +778,7 @@ class MatchAll(ParseExpression):
         return output
 
     def _min_length(self):
-        # TODO: MAY BE TOO CONSERVATIVE, WE MAY BE ABLE TO PROVE self CAN CONSUME A CHARACTER
-        return min(e.min_length() for e in self.exprs)
+        return sum(e.min_length() for e in self.exprs)  # ALL ARE REQUIRED
 
     @property
     def whitespace(self):
-- 
2.43.0


From c28b4a2f9ee2ed46c65b02998c70b4df0b393161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:23 +0000
Subject: [PATCH 52/66] fix: originalTextFor included the whitespace that
 follows, and gave names other values

---
 mo_parsing/helpers.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index dbfc14d..eb01629 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -373,19 +373,17 @@ def originalTextFor(expr, as_string=True):
         ['<b> bold <i>text</i> </b>']
         ['<i>text</i>']
     """
-    loc_marker = Empty() / (lambda _, l: l)
-    match_expr = (
-        loc_marker("_original_start") + Group(expr) + loc_marker("_original_end")
-    )
-    match_expr = match_expr / extract_text
-    return match_expr
+    return Group(expr) / extract_text
 
 
 def extract_text(tokens, loc, string):
-    start, d, end = tokens
+    start, end = tokens.start, tokens.end
     content = string[start:end]
-    annotations = [Annotation(k, v[0].start, v[-1].end, v) for k, v in d.items()]
-    return ParseResults(d.type, start, end, [content] + annotations, [])
+    annotations = [
+        Annotation(k, v[0].start, v[-1].end, list(tokens._get_item_by_name(k)))
+        for k, v in tokens.items()
+    ]
+    return ParseResults(tokens.type, start, end, [content] + annotations, [])
 
 
 def ungroup(expr):
-- 
2.43.0


From b18bacc8239865a00cd9702a17d97e67f7cf876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 53/66] fix: ungroup did not open groups, and dropped tokens

---
 mo_parsing/helpers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index eb01629..0c0027a 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -390,7 +390,21 @@ def ungroup(expr):
     """Helper to undo mo_parsing's default grouping of And expressions,
     even if all but one are non-empty.
     """
-    return TokenConverter(expr) / (lambda t: t[0])
+    return TokenConverter(expr) / _open_groups
+
+
+def _open_groups(tokens):
+    return list(_opened(tokens.tokens))
+
+
+def _opened(tokens):
+    for t in tokens:
+        if not isinstance(t, ParseResults) or t.name:
+            yield t
+        elif isinstance(t.type, Group):
+            yield from t.tokens
+        else:
+            yield from _opened(t.tokens)
 
 
 def located_expr(expr):
-- 
2.43.0


From e8785c67eedefb02dc9f982bbe141679f6ebcb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 54/66] fix: with_attribute refused attributes without value

---
 mo_parsing/helpers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/helpers.py b/mo_parsing/helpers.py
index 0c0027a..631c5c1 100644
--- a/mo_parsing/helpers.py
+++ b/mo_parsing/helpers.py
@@ -655,7 +655,7 @@ def with_attribute(**attr):
 
     def pa(tokens, loc, string):
         for name, expected_value in attr.items():
-            if name not in tokens:
+            if name not in tokens and not _exists(tokens, name):
                 raise ParseException(
                     tokens.type, loc, string, f"is expecting {name} attribute"
                 )
@@ -677,6 +677,20 @@ def with_attribute(**attr):
 with_attribute.ANY_VALUE = object()
 
 
+def _exists(tokens, name):
+    """
+    AN ATTRIBUTE WITHOUT A VALUE EXISTS TOO
+    """
+    for t in tokens.tokens:
+        if isinstance(t, ParseResults):
+            if t.name:
+                if t.name == name:
+                    return True
+            elif not isinstance(t.type, Group) and _exists(t, name):
+                return True
+    return False
+
+
 def with_class(classname, namespace=""):
     """Simplified version of `with_attribute` when
     matching on a div class - made difficult because ``class`` is
-- 
2.43.0


From 61a028ab65ea4dd0ce4779e55558bb5750e6589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:01 +0000
Subject: [PATCH 55/66] fix: what a look-behind matches ends where it looks
 back from, whatever the whitespace in force while parsing

---
 mo_parsing/enhancement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index a591362..bd6538f 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -912,14 +912,14 @@ class PrecededBy(LookAhead):
             ret = self.expr._parse(string, loc)
         else:
             # retreat specified a maximum lookbehind window, iterate
-            test_expr = self.expr + StringEnd()
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
             for offset in range(self.parser_config.retreat, start + 1):
                 try:
-                    ret = test_expr._parse(instring_slice, start - offset)
-                    break
+                    ret = self.expr._parse(instring_slice, start - offset)
+                    if ret.end == start:
+                        break
                 except ParseException as cause:
                     last_cause = cause
             else:
-- 
2.43.0


From 78a82b4284132722159ccacdb07274450e07045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 56/66] fix: a look-behind looks back no further than its
 retreat says

---
 mo_parsing/enhancement.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/enhancement.py b/mo_parsing/enhancement.py
index bd6538f..d578d58 100644
--- a/mo_parsing/enhancement.py
+++ b/mo_parsing/enhancement.py
@@ -889,11 +889,12 @@ class PrecededBy(LookAhead):
 
     zero_length = True
     __slots__ = []
-    Config = append_config(ParseEnhancement, "retreat", "exact")
+    Config = append_config(ParseEnhancement, "retreat", "exact", "max_retreat")
 
     def __init__(self, expr, retreat=None):
         super(PrecededBy, self).__init__(expr)
         expr = self.expr
+        self.set_config(max_retreat=MAX_INT if retreat is None else retreat)
 
         if isinstance(expr, (Literal, Keyword, Char)):
             self.set_config(retreat=expr.min_length(), exact=True)
@@ -915,7 +916,8 @@ class PrecededBy(LookAhead):
             instring_slice = string[:start]
             last_cause = ParseException(self, start, string)
 
-            for offset in range(self.parser_config.retreat, start + 1):
+            furthest = min(start, self.parser_config.max_retreat)
+            for offset in range(self.parser_config.retreat, furthest + 1):
                 try:
                     ret = self.expr._parse(instring_slice, start - offset)
                     if ret.end == start:
-- 
2.43.0


From a91bc88ad7fdde728dffe08d2a211e606566f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:07 +0000
Subject: [PATCH 57/66] fix: a keyword ends before a line end only if that is
 not one of its characters

---
 mo_parsing/tokens.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/tokens.py b/mo_parsing/tokens.py
index 34f438b..a806c7d 100644
--- a/mo_parsing/tokens.py
+++ b/mo_parsing/tokens.py
@@ -200,7 +200,7 @@ class Keyword(Token):
         else:
             pattern = re.escape(match)
 
-        non_word = "($|(?!" + regex_range(ident_chars) + "))" if ident_chars else ""
+        non_word = "(?!" + regex_range(ident_chars) + ")" if ident_chars else ""
         self.set_config(
             ident_chars=ident_chars,
             match=match,
-- 
2.43.0


From c0b971d8c743c5c92daa3840a22c171bb48fc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:17 +0000
Subject: [PATCH 58/66] fix: built-in functions as parse actions are given the
 tokens only

---
 mo_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 6b4955e..5f5bdfa 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -323,7 +323,7 @@ def line(loc, string):
 
 def wrap_parse_action(func):
     if func in singleArgBuiltins:
-        spec = inspect.getfullargspec(func)
+        spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif func.__class__.__name__ == "staticmethod":
         func = func.__func__
         spec = inspect.getfullargspec(func)
-- 
2.43.0


From 697afb37a1e5e17d3a2a73bcc74360749db0ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:39 +0000
Subject: [PATCH 59/66] fix: a class whose instances can be called is made by
 the parse action, not called

---
 mo_parsing/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mo_parsing/utils.py b/mo_parsing/utils.py
index 5f5bdfa..f07cee5 100644
--- a/mo_parsing/utils.py
+++ b/mo_parsing/utils.py
@@ -333,7 +333,6 @@ def wrap_parse_action(func):
         spec = inspect.FullArgSpec(["value"], None, None, None, [], None, {})
     elif isinstance(func, type):
         spec = inspect.getfullargspec(func.__init__)
-        func = func.__call__
     elif isinstance(func, FunctionType):
         spec = inspect.getfullargspec(func)
     elif hasattr(func, "__call__"):
-- 
2.43.0


From 16cd117be610e8f8019e9274affc184bf6ae3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 60/66] fix: capture_groups() gives no text twice when one
 group has several others inside

---
 mo_parsing/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo_parsing/regex.py b/mo_parsing/regex.py
index aa76b76..455d401 100644
--- a/mo_parsing/regex.py
+++ b/mo_parsing/regex.py
@@ -315,7 +315,7 @@ class Regex(ParseEnhancement):
                 g = string[s:e]
                 if pe <= s:
                     ann.append(g)
-                pe = e
+                    pe = e
                 ii = str(i)
                 ann.append(Annotation(ii, s, e, [g]))
                 n = lookup.get(i)
-- 
2.43.0


From 0821e362eb9e24b67b2f49261728b84cbedacb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:44 +0000
Subject: [PATCH 61/66] fix: a choice of no alternatives matches nothing,
 MatchAll of nothing can be finalized

---
 mo_parsing/expressions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index 19ff0d1..c66e526 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -14,7 +14,7 @@ from mo_parsing.exceptions import (
     ParseSyntaxException,
 )
 from mo_parsing.results import ParseResults
-from mo_parsing.tokens import Empty
+from mo_parsing.tokens import Empty, NoMatch
 from mo_parsing.utils import (
     MAX_INT,
     empty_tuple,
@@ -97,6 +97,8 @@ class ParseExpression(ParserElement):
         # but only if there are no parse actions or resultsNames on the nested And's
         # (likewise for Or's and MatchFirst's)
         if not self.is_annotated() and not self.exprs:
+            if isinstance(self, (Or, MatchFirst)):
+                return NoMatch()  # THERE IS NO ALTERNATIVE TO MATCH
             return Empty(self.parser_name)
 
         acc = []
@@ -178,7 +180,7 @@ class And(ParseExpression):
     def streamline(self):
         if self.streamlined:
             return self
-        if not self.exprs:
+        if not self.exprs and not self.is_annotated():
             return Empty(self.parser_name)
         if len(self.exprs) == 1 and not self.is_annotated():
             return self.exprs[0].streamline()
@@ -364,7 +366,7 @@ class Or(ParseExpression):
         return output
 
     def _min_length(self):
-        return min(e.min_length() for e in self.exprs)
+        return min((e.min_length() for e in self.exprs), default=0)
 
     def streamline(self):
         if self.streamlined:
@@ -376,7 +378,7 @@ class Or(ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                return Empty()
+                return NoMatch()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
@@ -538,11 +540,11 @@ class MatchFirst(ParseExpression):
 
         output = ParseExpression.streamline(self)
 
-        if isinstance(output, Empty):
+        if not isinstance(output, ParseExpression):
             return output
         if not output.is_annotated():
             if len(output.exprs) == 0:
-                return Empty()
+                return NoMatch()
             if len(output.exprs) == 1:
                 return output.exprs[0]
 
@@ -772,6 +774,8 @@ class MatchAll(ParseExpression):
         if self.streamlined:
             return self
         output = ParseExpression.streamline(self)
+        if not isinstance(output, MatchAll):
+            return output
         output.set_config(
             max_match=[_max_instances(e) for e in output.exprs],
         )
-- 
2.43.0


From 7eff193e04bcf1af8cb3529267ee949e6ba1201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:47 +0000
Subject: [PATCH 62/66] fix: And of one expression never returned, And of a
 generator forgot its expressions

---
 mo_parsing/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index c66e526..ef52c48 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -161,6 +161,10 @@ class And(ParseExpression):
                 self.parser_name = "-"
 
     def __init__(self, exprs, whitespace=None):
+        if isinstance(exprs, ParserElement):
+            exprs = [exprs]
+        elif isinstance(exprs, Iterable):
+            exprs = list(exprs)  # GENERATORS CAN BE READ ONLY ONCE
         if exprs and Ellipsis in exprs:
             tmp = []
             for i, expr in enumerate(exprs):
-- 
2.43.0


From 1624bf9feb4d19907bb4e64d2825b65e0f5767f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:34 +0000
Subject: [PATCH 63/66] fix: the regular expression of a choice of no
 alternatives matches nothing

---
 mo_parsing/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo_parsing/expressions.py b/mo_parsing/expressions.py
index ef52c48..dbb9422 100644
--- a/mo_parsing/expressions.py
+++ b/mo_parsing/expressions.py
@@ -484,6 +484,8 @@ class Or(ParseExpression):
             e.check_recursion(seen_more)
 
     def __regex__(self):
+        if not self.exprs:
+            return NoMatch().__regex__()
         return (
             "|",
             "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
@@ -573,6 +575,8 @@ class MatchFirst(ParseExpression):
         return whitespaces.CURRENT.normalize(other) | self
 
     def __regex__(self):
+        if not self.exprs:
+            return NoMatch().__regex__()
         return (
             "|",
             "|".join(regex_iso(*e.__regex__(), "|") for e in self.exprs),
-- 
2.43.0


From 26d0e038cec321bf66c765d043417ba1bbfbbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:23 +0000
Subject: [PATCH 64/66] fix: the sum of results has their items when one is of
 a recursive group

---
 mo_parsing/results.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mo_parsing/results.py b/mo_parsing/results.py
index 2abdb2d..3668fed 100644
--- a/mo_parsing/results.py
+++ b/mo_parsing/results.py
@@ -261,7 +261,7 @@ class ParseResults(object):
             Group(self.type + other.type),
             self.start,
             other.end,
-            self.tokens + other.tokens,
+            _content(self) + _content(other),
             self.failures + other.failures,
         )
 
@@ -435,6 +435,15 @@ def _definition(token):
     return token
 
 
+def _content(result):
+    """
+    THE TOKENS THAT ITERATION SHOWS
+    """
+    while isinstance(result, ForwardResults) and not result.tokens[0].name:
+        result = result.tokens[0]
+    return result.tokens
+
+
 def _flatten(token):
     """
     FLATTEN SOME, LEAVING ANY IMPORTANT FEATURES (names or groups)
-- 
2.43.0


From d6ed834785b308c39bd9402b2d2fb18b13652a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 65/66] fix: under the Profiler actions get the position of
 their match, and failures their causes

---
 mo_parsing/profile.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mo_parsing/profile.py b/mo_parsing/profile.py
index 8d867fc..71e5db1 100644
--- a/mo_parsing/profile.py
+++ b/mo_parsing/profile.py
@@ -4,6 +4,7 @@ from json import dumps as value2json
 from mo_dots import to_data
 
 from mo_parsing.core import ParserElement
+from mo_parsing.exceptions import ParseException
 from mo_parsing.utils import Log
 
 try:
@@ -66,17 +67,27 @@ def _profile_parse(self, string, start, do_actions=True):
             tokens = self.parse_impl(string, preloc, do_actions)
             parse_end = process_time()
             match = 1
-        except Exception as cause:
+        except ParseException as cause:
             parse_end = process_time()
             match = 2
             self.parser_config.fail_action and self.parser_config.fail_action(
                 self, start, string, cause
             )
+            raise ParseException(self, start, string, cause=cause) from None
+        except Exception as cause:
+            parse_end = process_time()
+            match = 2
             raise
 
         if self.parse_action and (do_actions or self.parser_config.callDuringTry):
             for fn in self.parse_action:
-                tokens = fn(tokens, start, string)
+                next_tokens = fn(tokens, tokens.start, string)
+                if next_tokens.end < tokens.end:
+                    Log.error(
+                        "parse action {{name}} not allowed to roll back the end of parsing",
+                        name=fn.__name__,
+                    )
+                tokens = next_tokens
 
         return tokens
     finally:
-- 
2.43.0


From 875be7f5b57ffebbc870c615e749de3e7d99b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:44 +0000
Subject: [PATCH 66/66] fix: a Debugger or Profiler entered again while inside
 itself leaves nothing behind

---
 mo_parsing/debug.py   | 9 +++------
 mo_parsing/profile.py | 6 +++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/mo_parsing/debug.py b/mo_parsing/debug.py
index b1912df..c9be727 100644
--- a/mo_parsing/debug.py
+++ b/mo_parsing/debug.py
@@ -20,24 +20,21 @@ _max_preamble = 60
 
 class Debugger(object):
     def __init__(self, silent=False):
-        self.previous_parse = None
-        self.was_debugging = None
+        self.previous = []  # WHAT EACH ENTERING REPLACED, LAST IS INNERMOST
         self.parse_count = 0
         self.max_stack_depth = 0
         self.silent = silent
 
     def __enter__(self):
         global DEBUGGER
-        self.was_debugging = DEBUGGER
+        self.previous.append((ParserElement._parse, DEBUGGER))
         DEBUGGER = self
-        self.previous_parse = ParserElement._parse
         ParserElement._parse = _debug_parse(self)
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         global DEBUGGER
-        ParserElement._parse = self.previous_parse
-        DEBUGGER = self.was_debugging
+        ParserElement._parse, DEBUGGER = self.previous.pop()
 
 
 def _debug_parse(debugger):
diff --git a/mo_parsing/profile.py b/mo_parsing/profile.py
index 71e5db1..ee93727 100644
--- a/mo_parsing/profile.py
+++ b/mo_parsing/profile.py
@@ -23,15 +23,15 @@ class Profiler(object):
         :param file:
         """
         self.file = File(file).set_extension("tab")
-        self.previous_parse = None
+        self.previous_parse = []  # WHAT EACH ENTERING REPLACED, LAST IS INNERMOST
 
     def __enter__(self):
         timing.clear()
-        self.previous_parse = ParserElement._parse
+        self.previous_parse.append(ParserElement._parse)
         ParserElement._parse = _profile_parse
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        ParserElement._parse = self.previous_parse
+        ParserElement._parse = self.previous_parse.pop()
         profile = jx.sort(
             [
                 {
-- 
2.43.0

