From 70ff591161bc17e7a69625f23e7a4d0bfe89b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 01/23] fix: reduce huge total weights with integer arithmetic

1@roll(400, 6) raised OverflowError: the limiter converted totals beyond the float range to float.
---
 src/randvar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..21eccd3 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -444,12 +444,12 @@ class _rdict:
     return d.to_tuples()
 
 
-def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
+def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // sum_limit)  # integers only; sum_ can be too large for a float
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum ~2^{sum_.bit_length()}, NORMALIZING BY ~2^{normalizing_const.bit_length()} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From 8b432938829af83ebb7e97c3589ba1a4e566b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 02/23] fix: compute order statistics on the die's own weight
 scale

get_cdf() builds a new RV, which divides out a common factor of the cumulative weights (and may drop
outcomes under RV_IGNORE_ZERO_PROBS), so selecting from a die with non-reduced weights failed or was wrong.
---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 21eccd3..b3f6785 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x), on the same scale as self.probs
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From 0fccced8d95e381d47ff10f54527aaddd287f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 03/23] fix: rolling no longer renames the rolled die or cached
 pools

roll(1, d) wrote the display name on d itself and roll(n, d) on the cached pool, so str() of dice obtained
earlier changed.
---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..c4984c2 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL!  (copy: the rolled object may be d itself or shared through the cache)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From 5d67dc683090787586a5c86164aed8435a246def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 04/23] fix: a random number of dice is a single die of its own

1@roll(roll(2), 6), and passing it to a sequence parameter, used the law of one d6 instead of the rolled die.
---
 src/roller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index c4984c2..00cfb9e 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -73,9 +73,7 @@ def _roll(n: Union[int, MetaSeq, RV], d: Union[int, MetaSeq, RV]) -> MetaRV:
   if isinstance(n, RV):
     assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'
     dies = tuple(roll(int(v), d) for v in n.vals)
-    result = RV.from_rvs(rvs=dies, weights=n.probs)
-    result.set_source(1, d)
-    return result
+    return RV.from_rvs(rvs=dies, weights=n.probs)
   return _roll_int_rv(n, d)
 
 
-- 
2.43.0


From ebb8da241a3bb46d80d8cdd443b68843f1715324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 05/23] fix: cached rolls no longer depend on earlier settings
 or outcome types

roll(2, d) returned a pool computed under other RV_TRUNC / RV_IGNORE_ZERO_PROBS settings, or with float
outcomes for an int die (1 == 1.0), when such a die had been rolled before.
---
 src/roller.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 00cfb9e..f221d5e 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -4,6 +4,7 @@ import random
 import math
 
 from .typings import T_ifsr, MetaRV, MetaSeq
+from .settings import SETTINGS
 from . import factory
 from .randvar import RV
 from . import blackrv
@@ -87,14 +88,16 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  # 1 == 1.0 and the settings used by the RV constructor change the result, thus both are part of the key
+  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From bf0b708ff766a48b69abe3227d87b78475a2ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 06/23] fix: release the function depth when a call raises

---
 src/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..5d93c83 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -151,8 +151,10 @@ def max_func_depth():
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 31069f788a77b6d9ce511a22b819e700cdff0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:31 +0000
Subject: [PATCH 07/23] fix: equal text outcomes have equal hashes

The hash depended on the order in which labels were added, so 'a'+'b' and 'b'+'a' were kept apart.
---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..4f65614 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[k] for k in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From 3542951ef7dbf85da7281ec25f048292027fb506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 08/23] fix: restore the function depth also when the call
 resets the settings

---
 src/decorators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index 5d93c83..8efa4d5 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -150,11 +150,12 @@ def max_func_depth():
           print(msg)
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
-      SETTINGS['INTERNAL_CURR_DEPTH'] += 1
+      depth = SETTINGS['INTERNAL_CURR_DEPTH']
+      SETTINGS['INTERNAL_CURR_DEPTH'] = depth + 1
       try:
         res = func(*args, **kwargs)
       finally:
-        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+        SETTINGS['INTERNAL_CURR_DEPTH'] = depth
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From 9aba5b1363ca4fc92317f3a0928a66bf96d7f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 09/23] fix: compiling no longer empties the caller's flags

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..c10653f 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -26,7 +26,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})  # copy, flags are popped below
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From 1c41749bc0a3702a6046270f66be9156339ffed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 10/23] fix: keep backslashes in texts

'named "a\"' compiled to a syntax error and "a\tb" to a tab.
---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index c10653f..6160585 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -107,7 +107,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
+                    str_list.append(x.replace('\\', '\\\\').replace('\r', '\\r').replace('{', '{{').replace('}', '}}'))  # escape backslashes, carriage returns and curly braces
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0


From 320da8fe5ca99628401749ee23c3a83e8074cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 11/23] fix: numbers with leading zeros compile to valid python

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 6160585..254d948 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -118,7 +118,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return node.val.lstrip('0') or '0'  # python rejects leading zeros
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From 0b2911442083db76b1a1844c862b2469e96d621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 12/23] fix: true div can be called with
 COMPILER_FLAG_NON_LOCAL_SCOPE

That flag adds an argument to every call; the other library functions already ignore extra arguments.
---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..883ff20 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From e0ab1a39a59e6d5c49b84de44ec857847480b9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 13/23] fix: library functions stay callable when a user
 function collides

'function: roll X {...} output [highest 1 of 2d6]' was rejected as an unknown function.
---
 src/parser/python_resolver.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 254d948..539b976 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -88,6 +88,12 @@ class PythonResolver:
         assert self.result_text is not None, 'No text generated. Call resolve() first'
         return self.result_text
 
+    def _python_func_name(self, words: 'list[str]') -> str:
+        name = '_'.join(words)
+        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT and name not in CONST['function library']:  # library functions are never renamed
+            name = 'f_' + name
+        return name
+
     def _indent_resolve(self, node: Union['Node', 'str']) -> str:
         """Given a node, resolve it and indent it. node to indent: if/elif/else, loop, function"""
         return self._indent_str(self.resolve_node(node))
@@ -152,8 +158,6 @@ class PythonResolver:
             nameargs, code = node
             assert isinstance(nameargs, Node) and nameargs.type == NodeType.FUNCNAME_DEF, f'Error in parsing fuction node: {node}'
             func_name, func_args, func_arg_names = [], [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                func_name.append('f')
             for x in nameargs:  # nameargs is a list of strings and expressions e.g. [attack 3d6 if crit 6d6 and double crit 12d6]
                 assert isinstance(x, str) or (isinstance(x, Node) and x.type in (NodeType.PARAM, NodeType.PARAM_WITH_DTYPE)), f'Error in parsing function node: {node}'
                 if isinstance(x, str):
@@ -174,7 +178,7 @@ class PythonResolver:
                 fix_dups_in_args(func_args, func_arg_names)
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 func_args.append('vars')
-            func_name = '_'.join(func_name)
+            func_name = self._python_func_name(func_name)
             self._defined_functions.add(func_name)
             self._user__defined_functions.append(func_name)
             func_decorator = CONST['func_decorator']
@@ -262,8 +266,6 @@ class PythonResolver:
             return f'{CONST["range"]}({l}, {r})'
         elif node.type == NodeType.CALL:
             name, args = [], []
-            if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:
-                name.append('f')
             for x in node:
                 if isinstance(x, Node) and x.type == NodeType.CALL_EXPR:  # expression
                     args.append(self.resolve_node(x.val))
@@ -274,7 +276,7 @@ class PythonResolver:
                     assert False, f'Unknown node in call: {x}, parent: {node}'
             if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
                 args.append('vars')
-            name = '_'.join(name)
+            name = self._python_func_name(name)
             self._called_functions.add(name)
             return f'{name}({", ".join(args)})' if args else f'{name}()'
 
-- 
2.43.0


From f534ce1e4b0eab12498571ff72261521e099bc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 14/23] fix: user functions cannot replace get_seq, len or
 vars, nor be python keywords

---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 539b976..8d82ec2 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,4 @@
+import keyword
 import logging
 from typing import Union
 
@@ -17,7 +18,7 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist))
 
 
 class PythonResolver:
-- 
2.43.0


From f31ff30c806b3c4a3cef0a0b2ce0771498e59e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 15/23] fix: functions may repeat an untyped parameter

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 8d82ec2..32cd3c5 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -294,5 +294,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From db096416a01aa0b5eea542e0050d148f7d15f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 16/23] fix: generated python groups operators as anydice does

2^3^2 was evaluated as 2^(3^2), -2^2 as -(2^2), 'A=1 & B=2' as the chain A == (1 & B) == 2 and 1<2<3 as a
chained comparison. Operands are parenthesized where python would regroup them.
---
 src/parser/python_resolver.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 32cd3c5..49ebc82 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -21,6 +21,12 @@ CONST = {
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars', *keyword.kwlist))
 
 
+# precedence of the operators in the generated python; everything else (calls, names, parenthesized text) binds tightest
+_PREC_COMPARE, _PREC_OR, _PREC_AND, _PREC_ADD, _PREC_MUL, _PREC_UNARY, _PREC_POWER, _PREC_ATOM = range(8)
+_OP_PREC = {'=': _PREC_COMPARE, '!=': _PREC_COMPARE, '<': _PREC_COMPARE, '>': _PREC_COMPARE, '<=': _PREC_COMPARE, '>=': _PREC_COMPARE,
+            '|': _PREC_OR, '&': _PREC_AND, '+': _PREC_ADD, '-': _PREC_ADD, '*': _PREC_MUL, '/': _PREC_MUL, '@': _PREC_MUL, '^': _PREC_POWER}
+
+
 class PythonResolver:
     def __init__(self, root: Node, flags=None):
         assert self._check_nested_str(root), f'Expected nested strings/None/Node from yacc, got {root}'
@@ -103,6 +109,19 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _python_prec(self, node: 'Node'):
+        """Precedence of the operator at the top of the python text of the node"""
+        if node.type == NodeType.UNARY and not (node.vals[0] == '!' and self._COMPILER_FLAG_OPERATOR_ON_INT):
+            return _PREC_UNARY
+        if node.type == NodeType.EXPR_OP and node.vals[0] != '@' and not (node.vals[0] in ('&', '|') and self._COMPILER_FLAG_OPERATOR_ON_INT):
+            return _OP_PREC.get(node.vals[0], _PREC_ATOM)
+        return _PREC_ATOM
+
+    def _operand(self, node: 'Node', min_prec) -> str:
+        """Resolve an operand and parenthesize it if python would otherwise group it differently than anydice"""
+        text = self.resolve_node(node)
+        return text if self._python_prec(node) >= min_prec else f'({text})'
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -231,6 +250,7 @@ class PythonResolver:
         elif node.type == NodeType.EXPR_OP:
             op, left, right = node
             assert isinstance(op, str), f'Unknown operator {op}'
+            prec = _OP_PREC.get(op)
             op = {'=': '==', '^': '**', '/': '//'}.get(op, op)
             if op == 'dm':
                 return f'{CONST["roll"]}({self.resolve_node(left)})'
@@ -239,20 +259,22 @@ class PythonResolver:
             elif op == '@':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"]["@"]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'({self.resolve_node(left)} {op} {self.resolve_node(right)})'  # wrap in parentheses to take precedence over multiplication
+                return f'({self._operand(left, prec)} {op} {self._operand(right, prec + 1)})'  # wrap in parentheses to take precedence over multiplication
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._operand(left, prec)} {op} {self._operand(right, prec + 1)}'
+            elif op == '**' or prec == _PREC_COMPARE:  # right associative and chained in python but left associative in anydice
+                return f'{self._operand(left, prec + 1)} {op} {self._operand(right, prec + 1)}'
             else:  # all other operators
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._operand(left, prec)} {op} {self._operand(right, prec + 1)}'
         elif node.type == NodeType.UNARY:
             op, expr = node
             if op == '!':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"]["~"]}({self.resolve_node(expr)})'
-                return f'~{self.resolve_node(expr)}'
-            return f'{op}{self.resolve_node(expr)}'
+                return f'~{self._operand(expr, _PREC_UNARY)}'
+            return f'{op}{self._operand(expr, _PREC_UNARY)}'
         elif node.type == NodeType.HASH:  # len
             if self._COMPILER_FLAG_OPERATOR_ON_INT:
                 return f'{CONST["oplib"]["len"]}({self.resolve_node(node.val)})'
-- 
2.43.0


From e40002579f7927d1d65bb09c79964c15a1cdc311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 17/23] fix: a call may start with another call

'[[f] g]' raised IndexError: the inner call was taken for the list of elements.
---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..7f19b0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -606,7 +606,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 25af84242e6d19d528cede6cc19871d84a08428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 18/23] fix: selecting several positions honours the position
 order setting

With "lowest first" 1@3d6 is the lowest die, but {1,2}@3d6 was still the sum of the two highest.
---
 src/randvar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/randvar.py b/src/randvar.py
index b3f6785..7373fcf 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -236,6 +236,8 @@ class RV(MetaRV):
       k = other._seq[0]
       assert isinstance(k, int), 'unsupported operand type(s) for @: float and RV'
       return self._source_die._get_kth_order_statistic(self._source_roll, k)
+    if SETTINGS["position order"] == "lowest first":  # rolls are expanded highest first
+      other = factory.get_seq([self._source_roll - k + 1 for k in other._seq])
     return _sum_at(self, other)  # type: ignore  anydice_casting
 
   def _get_kth_order_statistic(self, draws: int, k: int):
-- 
2.43.0


From 4f4f9a742b818fe1520b5ae5ab69079e30b473b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 19/23] fix: a cut no longer removes the outcome 0 whatever its
 probability

RV([0, 1], [1, 1]).get_vals_probs(0.1) dropped the outcome 0 (probability 0.5): the initial (0, 0) of the
accumulation was taken for an outcome to cut.
---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 7373fcf..dad1dfe 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 11b14a769ad3959deab20efc90f359284713597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 20/23] fix: a float passed to a sequence parameter becomes a
 sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index 8efa4d5..998a2e2 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 163672f219da26edb43f60d4d4a96d1edfd59212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 21/23] fix: digits of negative numbers and truth values can be
 selected

Seq(1, 2)@-12 and 1@(1=1) raised ValueError.
---
 src/seq.py   | 2 +-
 src/utils.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seq.py b/src/seq.py
index 1360e05..d5de50c 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -52,7 +52,7 @@ class Seq(Iterable, MetaSeq):
       return other.__rmatmul__(self)
     # access at indices in other ( self @ other )
     if isinstance(other, (int, float)):
-      other = Seq([int(d) for d in str(other)])  # SEQ @ int  thus convert int to sequence using base 10
+      other = Seq([int(d) for d in str(abs(other))])  # SEQ @ int  thus convert int to sequence using base 10
     if not isinstance(other, Seq):
       other = Seq(other)
     assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'
diff --git a/src/utils.py b/src/utils.py
index 883ff20..04c30a7 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -32,7 +32,8 @@ def factorial(n: int):
 # to handle special cases of operators on int
 def mymatmul(a, b):
     if isinstance(a, int) and isinstance(b, int):  # special case for int @ int
-        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0
+        digits = str(abs(b))  # no sign, and bools as 0/1
+        return int(digits[a - 1]) if (0 <= a - 1 < len(digits)) else 0
     return a @ b
 
 
-- 
2.43.0


From a9e6d23c7cfc0feec36126fd266b2d450962c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:34 +0000
Subject: [PATCH 22/23] fix: sequences of texts can be indexed and summed

1@{"a", "b"} raised AttributeError.
---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 4f65614..7662ec2 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -105,6 +105,8 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From ae3700ec7e5b0b09ac1e6c4658c6a8044209b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:08 +0000
Subject: [PATCH 23/23] fix: texts may contain null characters

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 49ebc82..95c6f7b 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -133,7 +133,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('\\', '\\\\').replace('\r', '\\r').replace('{', '{{').replace('}', '}}'))  # escape backslashes, carriage returns and curly braces
+                    str_list.append(x.replace('\\', '\\\\').replace('\r', '\\r').replace('\0', '\\x00').replace('{', '{{').replace('}', '}}'))  # escape backslashes, carriage returns, nulls and curly braces
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0

