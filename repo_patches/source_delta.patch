From 212b73a960b36d957f70ab4f046eb0104ded6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 01/78] fix: matrix_transpose in the SMT library recursed
 forever on non-empty matrices, making every goal that used it provable

---
 metalift/utils/list-axioms.smt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
-- 
2.43.0


From 521ee6d2237c81e9f5a99c65060dd1d6de8982be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 02/78] fix: FnDecl.toSMT raised AttributeError for every
 declaration with parameters

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..ab718ec 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From f56ab843a5ec196e8c4dd50b9c3f33658af72317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 03/78] fix: print negative integer literals as SMT-LIB terms

---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab718ec..dfc8116 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,9 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            # SMT-LIB numerals are unsigned
+            return "(- %s)" % -self.args[0]
         else:
             return str(self.args[0])
 
-- 
2.43.0


From 517f7c417e2e694b98025445a1d588d45bccda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 04/78] fix: to_python dropped the grouping of nested operators

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index dfc8116..37a475e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1951,7 +1951,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2007,7 +2007,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2102,7 +2102,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2133,7 +2133,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2164,7 +2164,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2195,7 +2195,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2226,7 +2226,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2253,7 +2253,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2281,7 +2281,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2305,7 +2305,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From 2a175016611b23708d03b30f8ebbc473a30af9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 05/78] fix: print list equality in Python as an operator, not
 as a call to an undefined function

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 37a475e..adbb6c7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2574,6 +2574,8 @@ class Call(Expr):
             return f"[*{processed_args[0]}, {processed_args[1]}]"
         elif self.name() in {"list_empty", "matrix_empty"}:
             return "[]"
+        elif self.name() in {"list_eq", "matrix_eq"}:
+            return f"({processed_args[0]} == {processed_args[1]})"
         elif self.name() in {"list_tail", "matrix_tail"}:
             return f"{processed_args[0]}[{processed_args[1]}:]"
         elif self.name() in {"list_take", "matrix_take"}:
-- 
2.43.0


From 931dd393ff097963edc4af50af9c4e89432906e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 06/78] fix: tupleGet of a conditional or of a call result
 could not be printed to SMT

---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index adbb6c7..b49e2dd 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2535,10 +2535,7 @@ class Call(Expr):
                     )
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
-                elif (
-                    isinstance(self.args[idx + 1], Var)
-                    and get_origin(self.args[idx + 1].type) == Tuple
-                ):
+                elif get_origin(self.args[idx + 1].type) == Tuple:
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                     retVal.append(f"tuple{length}_get{index}")
                 else:
-- 
2.43.0


From 99ca726e99638094c11df72d007e24ad80228000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 07/78] fix: simplifying a condition with three equalities on
 one variable raised KeyError

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index b49e2dd..01dbeba 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -512,7 +512,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -520,7 +520,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From 9442f0bc4895f045e271e19dd9ffef52076ecdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 08/78] fix: substitution replaced the variable a let binds

---
 metalift/ir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 01dbeba..fd98641 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -536,6 +536,10 @@ class Expr:
                 return mappings[self.args[0]]
             else:
                 return self
+        elif isinstance(self, Let):
+            # the bound variable is not a free occurrence
+            free = {k: v for k, v in mappings.items() if k != self.v().args[0]}
+            return Let(self.v(), self.e().rewrite(mappings), self.e2().rewrite(free))
         else:
             return self.map_args(
                 lambda a: a.rewrite(mappings) if isinstance(a, Expr) else a
-- 
2.43.0


From bd882d77ae308cf4bb436391135ef8d51a4df52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 09/78] fix: the equality optimiser used stale variable counts
 and dropped needed equalities

---
 metalift/ir.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index fd98641..32281be 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -580,6 +580,16 @@ class Expr:
 
             self = self.rewrite(rewrites)
 
+            # the substitution moved uses from one variable to others
+            rewritten_counts: Dict[str, int] = {}
+            self.count_variable_uses(rewritten_counts)
+            for key in set(local_counts) | set(rewritten_counts):
+                counts[key] = (
+                    counts.get(key, 0)
+                    + rewritten_counts.get(key, 0)
+                    - local_counts.get(key, 0)
+                )
+
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
             if isinstance(a, Expr)
-- 
2.43.0


From 668e5edbc84eeecaa2acbaddf268bf4eef8bf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 10/78] fix: the equality optimiser substituted in negated
 implications, which can make an invalid condition valid

---
 metalift/ir.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 32281be..6c9ce9e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -546,7 +546,10 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        positive: bool = True,
     ) -> "Expr":
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
@@ -559,7 +562,8 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and positive:
+            # only there may a variable take the value its equality demands
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -590,8 +594,15 @@ class Expr:
                     - local_counts.get(key, 0)
                 )
 
+        if isinstance(self, Implies):
+            return Implies(
+                self.args[0].optimize_useless_equality(counts, new_vars, False),
+                self.args[1].optimize_useless_equality(counts, new_vars, positive),
+            ).simplify()
+
+        positive = positive and isinstance(self, (And, Or))
         return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
+            lambda a: a.optimize_useless_equality(counts, new_vars, positive)
             if isinstance(a, Expr)
             else a
         ).simplify()
-- 
2.43.0


From baca37ef9b186248c24285bed8a34393e6e8df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 11/78] fix: literals True and 1 (and False and 0) compared
 equal

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 6c9ce9e..65ce773 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -309,6 +309,8 @@ class Expr:
                 # or self.type.erase() #TODO: add them back
                 # != other.type.erase()
                 or len(self.args) != len(other.args)
+                # Python compares True == 1, but these are different literals
+                or (isinstance(self, Lit) and type(self.args[0]) != type(other.args[0]))
             ):
                 return False
             else:
-- 
2.43.0


From a8667c7281ae187fb07332c54c2664b39a584683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:40 +0000
Subject: [PATCH 12/78] fix: the Rosette library dropped empty rows when
 prepending to a matrix

---
 metalift/utils/utils.rkt | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metalift/utils/utils.rkt b/metalift/utils/utils.rkt
index bdcde6f..cc73300 100644
--- a/metalift/utils/utils.rkt
+++ b/metalift/utils/utils.rkt
@@ -211,9 +211,7 @@
 )
 
 (define (matrix-prepend i l)
-  (if (list? i)
-    (if (> (length i ) 0)
-    (append (list i) l) (append l i)) (append (list i) l) ))
+  (append (list i) l))
 
 (define (matrix-take-noerr l i)
   (if (<= i 0) (list) (if (&& (>= i 0) (< i (length l))) (take l i) l )))
@@ -268,7 +266,7 @@
 )
 
 (define-bounded (matrix-transpose-noerr matrix)
-  (if (< (matrix-length matrix) 1)
+  (if (< (length (matrix-ref-noerr matrix 0)) 1)
     (matrix-empty)
     (matrix-prepend (firsts matrix) (matrix-transpose-noerr (rests matrix)))
   )
@@ -310,9 +308,7 @@
 )
 
 (define (tensor3d-prepend i l)
-  (if (list? i)
-    (if (> (length i ) 0)
-    (append (list i) l) (append l i)) (append (list i) l) ))
+  (append (list i) l))
 
 (define (tensor3d-append l i)
 (append l (list i)))
-- 
2.43.0


From 63ead6f69b44f16eb1f915d3eee0815f11cf0cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 13/78] fix: length, append and prepend of nested lists used
 the functions for flat lists

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 65ce773..257fb70 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1129,7 +1129,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1195,7 +1196,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1204,7 +1206,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From e1686d400c1ee379b058c146f2ea5aea804c1925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 14/78] fix: != on lists and sets, and == and != on tuples,
 returned a Python bool

---
 metalift/ir.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 257fb70..1112318 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1241,6 +1241,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1699,6 +1702,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return (self == s).Not()
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
@@ -1755,6 +1761,12 @@ class Tuple(Generic[TupleContainedT], Object):
         if isinstance(index, slice):
             raise Exception("slicing operation not supported on tuples!")
 
+    def __eq__(self, other: "Tuple") -> Bool:  # type: ignore
+        return Bool(Eq(self.src, other.src))
+
+    def __ne__(self, other: "Tuple") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     @property
     def length(self) -> int:
         return len(self.containedT)
-- 
2.43.0


From 63f059da05797bff84c29684939c5b0f0ab4c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 15/78] fix: Bool.And and Bool.Or failed on plain Python
 booleans

---
 metalift/ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1112318..2a97bdd 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -895,12 +895,14 @@ class Bool(Object):
     def And(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(And(*get_object_exprs(self, *args)))  # type: ignore
+        bools = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(And(*get_object_exprs(self, *bools)))
 
     def Or(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
-        return Bool(Or(*get_object_exprs(self, *args)))  # type: ignore
+        bools = [Bool(arg) if isinstance(arg, bool) else arg for arg in args]
+        return Bool(Or(*get_object_exprs(self, *bools)))
 
     def Not(self) -> "Bool":
         return Bool(Not(self.src))
-- 
2.43.0


From 9995a2406a39080b98c0da68f754ea7c717ef6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 16/78] fix: tuple objects made from an expression got a wrong
 type and could not be indexed

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2a97bdd..9ad0eef 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -687,7 +687,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From b481f3d245727f368b744d7958294b0bdb8d9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 17/78] fix: a slice with neither bound built a call with a
 missing argument

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 9ad0eef..1c6e540 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1139,6 +1139,8 @@ class List(Generic[T], Object):
             index = Int(index)
         if isinstance(index, slice):
             (start, stop, step) = (index.start, index.stop, index.step)
+            if start is None and stop is None and step is None:
+                return create_object(self.type, self.src)
             if stop is None and step is None:
                 if isinstance(start, int):
                     start = Int(start)
-- 
2.43.0


From 614ac67b1a4ef22fb1e69cc60add04b4cd701dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 18/78] fix: set membership called an undefined function with
 swapped arguments

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1c6e540..b44aa53 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1700,7 +1700,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From 411aa61027a4856e18c3c2f8b703d1397a677a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 19/78] fix: every analysed Python function shared one state
 with all functions analysed before it

---
 metalift/frontend/python.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..622736e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,15 +106,15 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
-        self.has_returned = has_returned if not has_returned else has_returned
+        self.precond = precond if precond is not None else []
+        self.vars = vars if vars is not None else {}
+        self.asserts = asserts if asserts is not None else []
+        self.has_returned = has_returned
 
     def read(self, var: str) -> Object:
         if var in self.vars:
-- 
2.43.0


From a9101da38ea4098f2dcabd79678f4bd6b5e26911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 20/78] fix: a chained comparison kept only its last comparison

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 622736e..0f2a719 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -686,8 +686,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From cdec46be3ce9387eaa55d3e55d5d04d1e587b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 21/78] fix: conditions generated inside a branch were dropped
 when others existed already

---
 metalift/frontend/python.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0f2a719..c27e69d 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -626,9 +626,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        self.state.asserts = ObjectSet(c_state.asserts + a_state.asserts).objects()
 
         if c_state.has_returned and a_state.has_returned:
             return
-- 
2.43.0


From cfa793a71415ff559817e7b674fa26b5fb5ae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 22/78] fix: what holds after a conditional with an early
 return or a loop was forgotten

---
 metalift/frontend/python.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index c27e69d..cfe4b32 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                break  # the rest of the block is unreachable
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -629,12 +631,23 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         self.state.asserts = ObjectSet(c_state.asserts + a_state.asserts).objects()
 
         if c_state.has_returned and a_state.has_returned:
+            self.state.has_returned = True
             return
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            # keep what the branches learned beyond their condition (e.g. from loops)
+            num_conds = len(self.state.precond)
+            c_conds = c_state.precond[num_conds:]
+            a_conds = a_state.precond[num_conds:]
+            if len(c_conds) > 1 or len(a_conds) > 1:
+                self.state.precond.append(
+                    or_objects(and_objects(*c_conds), and_objects(*a_conds))
+                )
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
-- 
2.43.0


From b31a02aafb25acaa1bc0e13ded5fd28d10fff269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 23/78] fix: nested loops and returns in loops were dropped,
 and loops reused variable names

---
 metalift/frontend/python.py | 47 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index cfe4b32..435f23e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -504,11 +504,15 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
-            self.driver.add_var_object(new_value)
+        for var in writes:
+            new_value = self.driver.fresh_object(to_object_type(var[1]), var[0])
             self.state.write(var[0], new_value)
 
+        cond = cast(Bool, o.expr.accept(self))
+        inv_holds = inv.call(self.state)
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cond, inv_holds]
+
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -516,7 +520,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -527,24 +531,19 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
+        # keep the conditions of nested loops and returns in the body
+        body_state = body_visitor.state
+        self.state.asserts = body_state.asserts
+
         # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        if not body_state.has_returned:
+            self.state.asserts.append(
+                implies(and_objects(*body_state.precond), inv.call(body_state))
+            )
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
-        self.state.precond.append(
-            and_objects(cast(Bool, cond).Not(), inv.call(self.state))
-        )
+        self.state.precond.append(and_objects(cond.Not(), inv_holds))
 
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
@@ -858,6 +857,16 @@ class Driver:
         for var_object in var_objects:
             self.add_var_object(var_object)
 
+    # creates an object for a variable that is not used yet
+    def fresh_object(self, type: ObjectT, name: str) -> Object:
+        fresh_name, num = name, 0
+        while fresh_name in self.var_tracker.var_to_type:
+            num += 1
+            fresh_name = f"{name}_{num}"
+        obj = create_object(type, fresh_name)
+        self.add_var_object(obj)
+        return obj
+
     def analyze(
         self,
         filepath: str,
-- 
2.43.0


From 62a3466a566d329dc8d2a10192426d983d2eed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 24/78] fix: loops were rejected when any module used a
 variable name with another type

---
 metalift/frontend/python.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 435f23e..9f5b400 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -445,15 +445,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def visit_operator_assignment_stmt(self, o: OperatorAssignmentStmt) -> None:
         raise NotImplementedError()
 
+    # only looks at the names used in the analyzed function, as other functions can
+    # use the same names with other types
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
-        return r
+        visitor = RWVarsVisitor(types)
+        self.ast.body.accept(visitor)
+        return {(v, t) for v, t in visitor.reads | visitor.writes if v in vars}
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
-- 
2.43.0


From 4be2c1ffe75e22865192defd198b5a63ba2df911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 25/78] fix: calling an analysed function assumed its
 postcondition with the arguments out of order

---
 metalift/frontend/python.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9f5b400..9256e59 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -999,10 +999,9 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
-        self.driver.add_var_object(ret_val)
+        ret_val = self.driver.fresh_object(object_type, f"{self.name}_rv")
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 8be89e64d6d22fc718a5782b106496f4772570eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:44 +0000
Subject: [PATCH 26/78] fix: list and set updates changed the wrong variable
 when it had another name or an alias

---
 metalift/frontend/python.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9256e59..53b3402 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -201,6 +201,23 @@ class RWVarsVisitor(TraverserVisitor):
             a.accept(self)
 
 
+# Finds the variables that can refer to the same object as another variable
+class AliasVisitor(TraverserVisitor):
+    names: Set[str]
+
+    def __init__(self) -> None:
+        self.names = set()
+
+    def visit_assignment_stmt(self, o: AssignmentStmt) -> None:
+        rvalue = o.rvalue
+        for val in rvalue.items if isinstance(rvalue, mypyTupleExpr) else [rvalue]:
+            if isinstance(val, NameExpr):
+                self.names.add(val.name)
+                self.names.update(
+                    lval.name for lval in o.lvalues if isinstance(lval, NameExpr)
+                )
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -778,6 +795,17 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return 0 - cast(Int, expr)
         raise Exception(f"Unsupported unary operator '{o.op}'")
 
+    # the variable that holds the list or set an append, add or remove call updates
+    def updated_var(self, o: CallExpr) -> str:
+        callee_expr = o.callee.expr  # type: ignore
+        if not isinstance(callee_expr, NameExpr):
+            raise Exception("Can only update lists and sets that are variables!")
+        aliases = AliasVisitor()
+        self.ast.body.accept(aliases)
+        if callee_expr.name in aliases.names:
+            raise Exception(f"Updating {callee_expr.name}, which can have aliases!")
+        return callee_expr.name
+
     def visit_call_expr(self, o: CallExpr) -> Object:
         if is_func_call_with_name(o, "len"):
             assert len(o.args) == 1
@@ -792,7 +820,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
+            var_name = self.updated_var(o)
             list_after_append = callee_expr.append(elem_to_append)
             self.state.write(var_name, list_after_append)
             return list_after_append
@@ -814,7 +842,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self.state.write(self.updated_var(o), set_after_modification)
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
-- 
2.43.0


From 2adaea31a99c68813c47dbe3ca90b10745bf8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 27/78] fix: appending to an argument also changed the argument
 the postcondition speaks about

---
 metalift/frontend/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 53b3402..b327078 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -821,7 +821,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
             var_name = self.updated_var(o)
-            list_after_append = callee_expr.append(elem_to_append)
+            # append changes the object in place, but the argument of the analyzed fn
+            # (or of its postcondition) that it can be must keep its value
+            list_after_append = copy.copy(callee_expr).append(elem_to_append)
             self.state.write(var_name, list_after_append)
             return list_after_append
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
-- 
2.43.0


From 31980b7d4ed8be5416b1fea691927c01fba4fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 28/78] fix: LLVM loops modifying the same variable shared one
 symbolic value

---
 metalift/frontend/llvm.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..de1c349 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1181,12 +1181,14 @@ class VCVisitor:
         header_loops = self.find_header_loops(block.name)
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
+            # another loop can modify the same vars, so each loop havocs to its own values
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                value = self.driver.fresh_object(havoc.type, havoc.var_name())
+                self.write_var_to_block(block.name, havoc.var_name(), value)
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                value = self.driver.fresh_object(havoc.type, havoc.var_name())
+                self.store_var_to_block(block.name, havoc.var_name(), value)
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
@@ -1538,6 +1540,16 @@ class Driver:
         for var_object in var_objects:
             self.add_var_object(var_object)
 
+    # creates an object for a variable that is not used yet
+    def fresh_object(self, type: ObjectT, name: str) -> Object:
+        fresh_name, num = name, 0
+        while fresh_name in self.var_tracker.var_to_type:
+            num += 1
+            fresh_name = f"{name}_{num}"
+        obj = create_object(type, fresh_name)
+        self.add_var_object(obj)
+        return obj
+
     def analyze(
         self,
         llvm_filepath: str,
-- 
2.43.0


From 1734914cda6f25aabf3deafe309e86d230062180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 29/78] fix: the postcondition of an LLVM function returning a
 vector ignored the vector's value

---
 metalift/frontend/llvm.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index de1c349..3dd7e74 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1406,14 +1406,9 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
-            # This is because for list type, at first we assume it's an int list. We only infer the
-            # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
+            ret_val = self.load_var_from_block(
                 block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            )
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From bca2ca20cfad32300704dd8bd540a49694e60321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 30/78] fix: listAppend in an LLVM function also changed the
 list it appends to

---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 3dd7e74..a166153 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -151,7 +151,8 @@ def list_append(
     *args: ValueRef,
 ) -> ReturnValue:
     assert len(args) == 2
-    lst = state.read_or_load_operand(args[0])
+    # append changes the object in place, but the list it is called on keeps its value
+    lst = copy.copy(state.read_or_load_operand(args[0]))
     value = state.read_or_load_operand(args[1])
     return ReturnValue(
         lst.append(value),  # type: ignore
-- 
2.43.0


From babfe8286d9dbd4d19aeb0d7009b734426d9fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 31/78] fix: push_back gave every vector the type of a vector
 of vectors

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a166153..d30c8fa 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -227,7 +227,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From 1882c7c14f541fc3157517264089d1107e5a79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 32/78] fix: set_contains in an LLVM function made the analysis
 fail

---
 metalift/frontend/llvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d30c8fa..e781f27 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -35,6 +35,7 @@ from metalift.ir import (
     get_object_exprs,
     implies,
     is_pointer_type,
+    ite,
     make_tuple_type,
     parse_type_ref_to_obj,
 )
@@ -101,7 +102,8 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    # the in operator would give a Python bool, and the modelled function returns an int
+    return ReturnValue(ite(s.__contains__(item), Int(1), Int(0)), None)  # type: ignore
 
 
 def new_list(
-- 
2.43.0


From a627a16f8f91ac28e5b58346fe8a7e431de030be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 33/78] fix: local sets and tuples of LLVM functions started as
 an undeclared variable

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index b44aa53..f781122 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1661,7 +1661,7 @@ class Set(Generic[T], Object):
 
     @staticmethod
     def default_value() -> "Set[Int]":
-        return Set(Int)
+        return Set.empty(Int)
 
     def add(self, value: Object) -> "Set":  # type: ignore
         if value.type != self.containedT:
@@ -1777,7 +1777,7 @@ class Tuple(Generic[TupleContainedT], Object):
 
     @staticmethod
     def default_value() -> "Tuple[tuple[Int, Int]]":
-        return Tuple((Int, Int), None)  # type: ignore
+        return make_tuple(Int(0), Int(0))
 
     @staticmethod
     def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-- 
2.43.0


From f72631187212938cbed40eba306c0515f5a4cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 34/78] fix: calls to functions without a model were ignored in
 LLVM functions

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index e781f27..2034b54 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1488,6 +1488,9 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~"):
+            # the call can change its arguments, so it cannot be ignored
+            raise Exception(f"Call to function {fn_name}, which has no model")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0


From 6bd83efdf9c10724b777d760f2fbfe6391e0242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:55 +0000
Subject: [PATCH 35/78] fix: writes through pointers and references were lost
 in LLVM functions

---
 metalift/frontend/llvm.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 2034b54..1881c14 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -915,6 +915,11 @@ class VCVisitor:
 
         self.primitive_var_types = {}
         self.pointer_var_types = {}
+        # names of the pointers that no other pointer to the same memory is named in the state
+        self.owned_pointers: Set[str] = {arg.var_name() for arg in fn_args}
+        if fn_sret_arg is not None:
+            self.owned_pointers.add(fn_sret_arg.var_name())
+        self.local_pointers: Set[str] = set()
 
     # Helper functions
     # Helper functions for reading and writing variables
@@ -1283,6 +1288,13 @@ class VCVisitor:
 
         # o.name is the register name
         self.store_var_to_block(block_name, o.name, default_val)
+        self.owned_pointers.add(o.name)
+        self.local_pointers.add(o.name)
+
+    def check_owned_pointer(self, op: ValueRef) -> None:
+        # The state has one value per pointer name, so memory another pointer names cannot be written
+        if op.name not in self.owned_pointers:
+            raise Exception(f"Cannot write through pointer {op.name}")
 
     def visit_load_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
@@ -1299,7 +1311,10 @@ class VCVisitor:
         if not ops[0].type.is_pointer:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
         else:
+            if ops[0].name in self.local_pointers:
+                raise Exception(f"Cannot store the address of variable {ops[0].name}")
             value_to_store = self.load_operand_from_block(block_name, ops[0])
+        self.check_owned_pointer(ops[1])
         self.store_operand_to_block(block_name, ops[1], value_to_store)
 
     def visit_add_instruction(self, block_name: str, o: ValueRef) -> None:
@@ -1460,6 +1475,8 @@ class VCVisitor:
             raw_fn_name = get_raw_fn_name_from_call_instruction(o)
             full_demangled_name = get_full_demangled_name(raw_fn_name)
 
+            if fn_name == "push_back":
+                self.check_owned_pointer(ops[0])
             rv = fn_models[fn_name](blk_state, {}, full_demangled_name, *ops[:-1])
 
             if rv.val is not None and o.name != "":
-- 
2.43.0


From f18bef8d35902bb7fa7e8dffa5218b5ac4ca283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 36/78] fix: tuple variables could not be declared for
 synthesis

---
 metalift/rosette_translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..a0cb67f 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,8 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        # the arguments of Tuple[tuple[A, B]] are those of the inner tuple
+        for i, t in enumerate(typing.get_args(typing.get_args(v.type)[0])):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From b5fb72290517ead765fb4f465b8fe0b776cd1c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 37/78] fix: with list bound 1 a matrix variable had no rows

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index a0cb67f..f4d2585 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 2592ff611f9bf3458413acde5644808a15263208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 38/78] fix: tensor axioms at index 0 contradicted the
 definitions

---
 metalift/utils/tenspiler/axioms.py | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..df74a3a 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,7 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +178,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +188,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +196,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +204,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +216,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From 16e6340895afe0a5485f106f6dffbd38cbe23726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 39/78] fix: reduction axioms spoke about elements outside the
 vector

---
 metalift/utils/tenspiler/axioms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index df74a3a..f1861e3 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -104,7 +104,7 @@ def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index >= 0, index <= max_pos, max_pos < data.len()),
         call_reduce_sum(data[: index + 1])
         == call_reduce_sum(data[:index]) + data[index],
     )
@@ -112,7 +112,7 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index > 0, index <= max_pos, max_pos < data.len()),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
-- 
2.43.0


From 87f3e83a57a94d6407dc2780aeac7cc2daf26266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 40/78] fix: matrix_vec_mul axiom was false for rows of another
 width

---
 metalift/utils/tenspiler/axioms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index f1861e3..5e7271d 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -168,7 +168,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index > 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), b.len() > 0, x[0].len() == b.len()
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
-- 
2.43.0


From 3c8f09dcb5f79f820ea83e772b96da0a07c2a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 41/78] fix: the definition of matrix_transpose never
 terminated

---
 llmlift_scripts/dsl.py                       | 6 +++++-
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index e55ab78..3472e10 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -141,7 +141,11 @@ def matrix_selection_two_args(
 
 
 def matrix_transpose(matrix: List[List[int]]) -> List[List[int]]:
-    return [] if len(matrix) < 1 else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    return (
+        []
+        if len(matrix) < 1 or len(matrix[0]) < 1
+        else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    )
 
 
 def matrix_vec_mul(matrix_x: List[List[int]], x: List[int]) -> List[int]:
diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 83ef34af4a87257236b73978ea8c34d68a317b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 42/78] fix: integer_sqrt_helper in the Python definitions
 halved the wrong operand

---
 llmlift_scripts/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index 3472e10..1445dfe 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -20,7 +20,7 @@ def integer_sqrt_helper(n: int, guess: int) -> int:
         else (
             guess
             if guess == (n // guess)
-            else integer_sqrt_helper(n, (guess + (n // guess) // 2))
+            else integer_sqrt_helper(n, ((guess + (n // guess)) // 2))
         )
     )
 
-- 
2.43.0


From c5789b76b40bde00bb1fe47500102967aa73cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 43/78] fix: functions passed on to other functions were not
 specialised in the SMT file

---
 metalift/smt_util.py | 113 +++++++++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 52 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..4c76e44 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -45,57 +45,43 @@ def get_direct_in_calls(
     (matrix_selection_two_args, select_two_args_arg), but we want in_calls to have (selection_two_args, select_two_args_arg) as well.
     """
 
-    def get_fn_direct_in_calls(
-        *,
-        expr: Expr | Any,
-        fn_call: str,
-        in_call: str,
-        direct_in_calls: list[tuple[str, str]],
+    def get_applied_and_passed(
+        expr: Expr | Any, fn_params: set[str], applied: list[str], passed_to: list[str]
     ) -> Expr:
         if not isinstance(expr, Expr):
             return expr
-        if isinstance(expr, Call):
-            if any(is_fn_decl_type(arg.type) for arg in expr.arguments()):
-                # Then this is a higher order function
-                fn_call = expr.name()
-            for arg in expr.arguments():
-                arg.map_args(
-                    lambda arg: get_fn_direct_in_calls(
-                        expr=arg,
-                        fn_call=expr.name(),
-                        in_call=in_call,
-                        direct_in_calls=direct_in_calls,
-                    )
-                )
-        elif isinstance(expr, CallValue):
-            direct_in_calls.append((fn_call, in_call))
+        if isinstance(expr, CallValue):
+            applied.append(expr.value().name())
+        elif isinstance(expr, Call) and any(
+            is_fn_decl_type(arg.type) and arg.name() in fn_params
+            for arg in expr.arguments()
+        ):
+            passed_to.append(expr.name())
         return expr.map_args(
-            lambda expr: get_fn_direct_in_calls(
-                expr=expr,
-                fn_call=fn_call,
-                in_call=in_call,
-                direct_in_calls=direct_in_calls,
-            )
+            lambda arg: get_applied_and_passed(arg, fn_params, applied, passed_to)
         )
 
-    fn_name_to_in_calls: dict[str, set[str]] = {}
-    for fn_name, in_call in in_calls:
-        if fn_name not in fn_name_to_in_calls:
-            fn_name_to_in_calls[fn_name] = set()
-        fn_name_to_in_calls[fn_name].add(in_call)
-
+    fn_name_to_decl = {fn_decl.name(): fn_decl for fn_decl in fn_decls}
     direct_in_calls: list[tuple[str, str]] = []
-    for fn_decl in fn_decls:
-        relevant_in_calls = fn_name_to_in_calls.get(fn_decl.name(), set())
-        for in_call in relevant_in_calls:
-            fn_decl.map_args(
-                lambda expr: get_fn_direct_in_calls(
-                    expr=expr,
-                    fn_call=fn_decl.name(),
-                    in_call=in_call,
-                    direct_in_calls=direct_in_calls,
-                )
-            )
+    seen: set[tuple[str, str]] = set()
+    remaining = list(in_calls)
+    while len(remaining) > 0:
+        fn_name, in_call = remaining.pop()
+        if (fn_name, in_call) in seen or fn_name not in fn_name_to_decl:
+            continue
+        seen.add((fn_name, in_call))
+        fn_decl = fn_name_to_decl[fn_name]
+        fn_params = {
+            arg.name() for arg in fn_decl.arguments() if is_fn_decl_type(arg.type)
+        }
+        applied: list[str] = []
+        passed_to: list[str] = []
+        get_applied_and_passed(fn_decl.body(), fn_params, applied, passed_to)
+        # Functions that receive the function this function receives
+        callees = set(passed_to) - {fn_name}
+        remaining.extend((callee, in_call) for callee in callees)
+        if len(applied) > 0 and len(callees) == 0:
+            direct_in_calls.append((fn_name, in_call))
     return direct_in_calls
 
 
@@ -395,6 +381,25 @@ def toSMT(
                     cand.set_body(new_body)
                 inv_and_ps[idx] = cand
 
+            # The same holds for the condition and for the functions in the target language
+            # that call them with a specific function.
+            for (fn_name, in_call), new_fn_name in in_calls_to_renamed_fn_name.items():
+                for idx, t in enumerate(target_lang):
+                    if isinstance(t, Axiom) or any(
+                        is_fn_decl_type(arg.type) and arg.name() == in_call
+                        for arg in t.arguments()
+                    ):
+                        continue
+                    target_lang[idx] = replace_fn_name_with_in_call(
+                        expr=t,
+                        new_fn_name=new_fn_name,
+                        fn_name=fn_name,
+                        in_call=in_call,
+                    )
+                vc = replace_fn_name_with_in_call(
+                    expr=vc, new_fn_name=new_fn_name, fn_name=fn_name, in_call=in_call
+                )
+
             new_in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
             for idx, t in enumerate(target_lang):
                 if isinstance(t, Axiom):
@@ -416,34 +421,38 @@ def toSMT(
                         continue
                     if t.name() not in fn_callers:
                         continue
+                    new_args = filter_args(t.arguments())
+                    if len(new_args) == len(t.arguments()):
+                        continue
                     new_body = filter_body(
                         fun_def=t.body(),
                         new_fn_call=new_fn_name,
                         fn_call=fn_name,
-                        in_call=None,
+                        in_call=in_call,
                     )
 
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
+                    new_caller_name = f"{t.name()}_{new_fn_name}"
                     new_body = filter_body(
                         fun_def=new_body,
-                        new_fn_call=new_fn_name,
+                        new_fn_call=new_caller_name,
                         fn_call=t.name(),
-                        in_call=None,
+                        in_call=in_call,
                     )
-                    new_args = filter_args(t.arguments())
 
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
+                    new_in_calls_to_renamed_fn_name[
+                        (t.name(), in_call)
+                    ] = new_caller_name
                     rewritten_fn_decls.add(t)
                     fn_decls.append(
                         FnDeclRecursive(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
                         )
                         if isinstance(t, FnDeclRecursive)
                         else FnDecl(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
-- 
2.43.0


From 120be4d6756b31f0a72720d4c714c3483379aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 44/78] fix: target functions were written before the
 synthesized functions they call

---
 metalift/smt_util.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 4c76e44..26d3a54 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -308,8 +308,6 @@ def toSMT(
             out.write(resources.read_text(utils, "list-axioms.smt"))
             # out.write(resources.read_text(utils, "map-axioms.smt"))
 
-        early_candidates_names = set()
-
         fn_decls: list[FnDecl | FnDeclRecursive] = []
         axioms: list[Axiom] = []
         target_lang = topological_sort(target_lang)
@@ -334,7 +332,6 @@ def toSMT(
                 for i in direct_in_calls:
                     if i[0] == t.name():
                         rewritten_fn_decls.add(t)
-                        early_candidates_names.add(i[1])
                         # If we are doing the first round, then it means we are rewritting
                         # functions that have direct calls to the inlined function. An example
                         # of such a function is selection_two_args.
@@ -468,23 +465,16 @@ def toSMT(
             elif isinstance(t, Axiom):
                 axioms.append(t)
             else:
-                out.write("\n" + t.toSMT() + "\n")
+                fn_decls.append(filter_fn_args(t))
 
         vc = filter_fn_args(vc)
 
-        early_candidates: list[FnDeclRecursive | Synth] = []
-        candidates: list[FnDeclRecursive | Synth] = []
-        for cand in inv_and_ps:
-            cand = filter_fn_args(cand)
-            if cand.name() in early_candidates_names:
-                early_candidates.append(cand)
-            else:
-                candidates.append(cand)
-        candidates = topological_sort(candidates)
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in early_candidates]))
-        out.write("\n\n".join(["\n%s\n" % inlined.toSMT() for inlined in fn_decls]))
+        # Target functions, their rewritten versions and the synthesized functions may call
+        # each other, so each is written after the ones it calls.
+        candidates = [filter_fn_args(cand) for cand in inv_and_ps]
+        for fn in topological_sort([*fn_decls, *candidates]):
+            out.write("\n%s\n" % fn.toSMT())
         out.write("\n\n".join(["\n%s\n" % axiom.toSMT() for axiom in axioms]))
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in candidates]))
 
         declarations: typing.List[tuple[str, ObjectT]] = []
         for v in vars:
-- 
2.43.0


From 9b9e3969addde33de0ac54b4f859ab9ffb2666f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 45/78] fix: a variable named like a function counted as a call
 of it in the SMT file order

---
 metalift/smt_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 26d3a54..a6ba398 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -88,10 +88,9 @@ def get_direct_in_calls(
 def get_dependent_fn_names(
     expr: Any, all_fn_names: List[str], dependent_fn_names: List[str]
 ) -> None:
-    if isinstance(expr, str) and expr in all_fn_names:
-        dependent_fn_names.append(expr)
-        return
-    elif isinstance(expr, Expr):
+    if isinstance(expr, Expr):
+        if isinstance(expr, Call) and expr.name() in all_fn_names:
+            dependent_fn_names.append(expr.name())
         for arg in expr.args:
             get_dependent_fn_names(arg, all_fn_names, dependent_fn_names)
 
-- 
2.43.0


From 2da9e8aa09437aa9ccf1cacf9c056b5a3d2dc26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 46/78] fix: tupleGet in a Rosette solution could not be read

---
 metalift/synthesize_rosette.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..93021c5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -41,7 +41,6 @@ from metalift.ir import (
     Synth,
     Target,
     TupleExpr,
-    TupleGet,
     Var,
     get_fn_return_type,
     get_list_element_type,
@@ -365,9 +364,14 @@ def to_expr(
                 arg_eval.append(to_expr(ast[alen], fnsType, varType, choices))
             return TupleExpr(*arg_eval)
         elif ast[0] == "tupleGet":
-            return TupleGet(
-                to_expr(ast[1], fnsType, varType, choices),
-                to_expr(ast[2], fnsType, varType, choices),
+            tuple_expr = to_expr(ast[1], fnsType, varType, choices)
+            index = to_expr(ast[2], fnsType, varType, choices)
+            (containedT,) = typing.get_args(tuple_expr.type)
+            return Call(
+                "tupleGet",
+                typing.get_args(containedT)[index.args[0]],
+                tuple_expr,
+                index,
             )
         elif ast[0] == "set-create":
             return Call(ast[0], mlSet[Int])
-- 
2.43.0


From d55d30db0fa6319c0eff17c41f0b9ec04d6472e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 47/78] fix: let in a Rosette solution was misread or could not
 be read

---
 metalift/synthesize_rosette.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 93021c5..77441c5 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -61,6 +61,8 @@ from tests.python.utils.utils import codegen
 def generate_ast(expr: str) -> Union[Any, pp.ParseResults]:
     s_expr = pp.nestedExpr(opener="(", closer=")")
     parser = pp.ZeroOrMore(s_expr)
+    # Racket writes the bindings of a let in brackets
+    expr = expr.replace("[", "(").replace("]", ")")
     try:
         ast = parser.parseString(expr, parseAll=True).asList()
     except:
-- 
2.43.0


From e0cbf142c6ef937debb6cc2da0eb4d5b81c7469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 48/78] fix: list-append in a Rosette solution could not be
 read

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 77441c5..60fd02a 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -171,7 +171,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From 17123fe487a9decc9ae9ba6af5b55cac0adeac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 49/78] fix: rows and empty matrices in a Rosette solution were
 read with the wrong type

---
 metalift/synthesize_rosette.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 60fd02a..c7e731b 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -40,6 +40,7 @@ from metalift.ir import (
     Sub,
     Synth,
     Target,
+    Tensor3D,
     TupleExpr,
     Var,
     get_fn_return_type,
@@ -162,9 +163,9 @@ def to_expr(
         elif ast[0] == "list-empty":
             return Call("list_empty", mlList[Int])
         elif ast[0] == "matrix-empty":
-            return Call("matrix_empty", mlList[mlList[Int]])
+            return Call("matrix_empty", Matrix[Int])
         elif ast[0] == "tensor3d-empty":
-            return Call("tensor3d_empty", mlList[mlList[mlList[Int]]])
+            return Call("tensor3d_empty", Tensor3D[Int])
         elif ast[0] == "list-append":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             elem = to_expr(ast[2], fnsType, varType, choices)
@@ -231,7 +232,9 @@ def to_expr(
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                mlList[Int]
+                if typing.get_origin(list_expr.type) == Matrix
+                else get_list_element_type(list_expr.type),
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From 3cb0b848ab8e5a5ac1f5c46ae3f63e8160015863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 50/78] fix: slices of tensors in a Rosette solution could not
 be read

---
 metalift/synthesize_rosette.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index c7e731b..fdfd370 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -318,6 +318,15 @@ def to_expr(
                 to_expr(ast[2], fnsType, varType, choices),
                 to_expr(ast[3], fnsType, varType, choices),
             )
+        elif ast[0] in {"tensor3d-slice-noerr", "tensor3d-slice-with-length-noerr"}:
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                ast[0][: -len("-noerr")].replace("-", "_"),
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "vec-slice-with-length-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
-- 
2.43.0


From ac633b5c4577e78ad20f25b21a089828f6445c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 51/78] fix: writing the SMT file renamed functions in the
 candidates that are returned

---
 metalift/smt_util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index a6ba398..15f8109 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -310,6 +310,8 @@ def toSMT(
         fn_decls: list[FnDecl | FnDeclRecursive] = []
         axioms: list[Axiom] = []
         target_lang = topological_sort(target_lang)
+        # The caller keeps the candidates as they were synthesized.
+        inv_and_ps = list(inv_and_ps)
 
         direct_calls = get_direct_calls(
             [fn_decl for fn_decl in target_lang if not isinstance(fn_decl, Axiom)]
@@ -368,13 +370,12 @@ def toSMT(
                     fn_name,
                     in_call,
                 ), new_fn_name in in_calls_to_renamed_fn_name.items():
-                    new_body = replace_fn_name_with_in_call(
-                        expr=cand.body(),
+                    cand = replace_fn_name_with_in_call(
+                        expr=cand,
                         new_fn_name=new_fn_name,
                         fn_name=fn_name,
                         in_call=in_call,
                     )
-                    cand.set_body(new_body)
                 inv_and_ps[idx] = cand
 
             # The same holds for the condition and for the functions in the target language
-- 
2.43.0


From 3a75ed3b5c85e4c5ad91b38b1ebe53e67ad5c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 52/78] fix: LLMLift accepted candidates the SMT solver did not
 prove

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 7412bfb41ad5d5ab48b4c69a949f5516ed8bcab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 53/78] fix: an alternative of an alternative was returned as a
 choice

Rosette prints no definition for a function that leaves nothing to choose,
and the candidate is then built by taking the first alternative.  When that
alternative was itself a choice it stayed one, so the candidate had no
meaning and the verifier rejected the file.
---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f781122..128dcba 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3050,7 +3050,7 @@ class Choose(Expr):
         return retT
 
     def chooseArbitrarily(self) -> "Expr":
-        return self.args[0]  # type: ignore
+        return self.args[0].chooseArbitrarily()  # type: ignore
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Choose(self)
-- 
2.43.0


From 746ec62c3d5903477bdd789bc262ea012481534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 54/78] fix: synthesize waited forever when Rosette exited
 without a solution

---
 metalift/synthesize_rosette.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index fdfd370..5bfa9da 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -655,6 +655,11 @@ def synthesize(
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                # Rosette is gone, nobody will write this solution anymore
+                raise SynthesisFailed(
+                    f"Synthesis failed: Rosette exited with code {exit_code}"
+                )
             continue
 
         with open(curr_sol_file, "r") as f:
-- 
2.43.0


From 0925af2694c228bc70b8fe933668adea420ef67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 55/78] fix: SyGuS files could not be written

Removing function arguments from the functions to synthesize goes through
Expr.map_args, which did not know Synth, so synthesize_cvc5.synthesize always
failed before it started the synthesizer.
---
 metalift/ir.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 128dcba..b55b209 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -178,6 +178,10 @@ class Expr:
                 f(self.body()),
                 *[f(a) for a in self.arguments()],
             )
+        elif isinstance(self, Synth):
+            return Synth(
+                self.name(), f(self.body()), *[f(a) for a in self.arguments()]
+            )
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
         else:
-- 
2.43.0


From 15eb795bc86cee53649479d8a47f79532b03f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 56/78] fix: SyGuS synthesis waited forever when the
 synthesizer ended without a solution

---
 metalift/synthesize_cvc5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..9926841 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -298,7 +298,8 @@ def synthesize(
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if line == "" or "fail" in line:
+                # the synthesizer is gone or gave up
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
-- 
2.43.0


From 891abdc564149c06ad37b3849c6bdff196c942f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 57/78] fix: SyGuS candidates misread or unreadable

Tuple selectors and functions without arguments could not be read, and a
function whose name is part of "sygus-candidate" was read a second time.
---
 metalift/synthesize_cvc5.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 9926841..e944b98 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -32,7 +32,7 @@ from metalift.ir import (
     Or,
 )
 from metalift.ir import Set as mlSet
-from metalift.ir import Sub, Synth, TupleGet, Var, get_fn_return_type, make_tuple_type
+from metalift.ir import Sub, Synth, TupleExpr, Var, get_fn_return_type
 from metalift.smt_util import toSMT
 from metalift.synthesis_common import (
     SynthesisFailed,
@@ -84,8 +84,8 @@ def generateCandidates(
     ast = generateAST(line)
     for ce in invAndPs:
         name = ce.name()
-        for a in ast[0]:
-            if name in a:
+        for a in ast[0][1:]:
+            if name == a[0]:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
@@ -166,8 +166,12 @@ def toExpr(
         elif ast[0].startswith("tuple"):
             if "_get" in ast[0]:
                 n = int(ast[0].split("_get")[1])
-                return TupleGet(
-                    toExpr(ast[1], funName, returnType, varType, letVars),
+                tuple_expr = toExpr(ast[1], funName, returnType, varType, letVars)
+                (containedT,) = typing.get_args(tuple_expr.type)
+                return Call(
+                    "tupleGet",
+                    typing.get_args(containedT)[n],
+                    tuple_expr,
                     IntLit(n),
                 )
             else:
@@ -176,15 +180,7 @@ def toExpr(
                     arg_eval.append(
                         toExpr(ast[alen], funName, returnType, varType, letVars)
                     )
-                return Call(
-                    "tuple%d" % (len(ast) - 1),
-                    make_tuple_type(
-                        arg_eval[0].type,
-                        arg_eval[1].type,
-                        *[e.type for e in arg_eval[2:]],
-                    ),
-                    *arg_eval,
-                )
+                return TupleExpr(*arg_eval)
         elif ast[0] == "as" and ast[1] == "set.empty":
             return Call("set-create", mlSet[Int])  # TODO: parse the type
         elif ast[0] == "set.insert":
@@ -224,6 +220,9 @@ def toExpr(
             return BoolLit(True)
         elif ast in letVars:
             return letVars[ast]
+        elif ast not in varType and ast in funName:
+            # a function without arguments
+            return Call(ast, get_fn_return_type(returnType[funName.index(ast)]))
         else:
             return Var(ast, varType[ast])
 
-- 
2.43.0


From ce257184e84f7c2d6a253a10d259857721063573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 58/78] fix: negation and list concatenation in a language
 model's answer gave malformed expressions

---
 llmlift_scripts/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..4262044 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -405,7 +405,7 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    return call("list_concat", List[Int], left_expr, right_expr).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
@@ -428,7 +428,7 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Unary operator - is only supported on integers, not {types[node]}"
                     )
-                return Sub(Int(0), node_expr)
+                return Sub(Int(0).src, node_expr)
             else:
                 raise Exception(f"Unary operator {node.op} is not supported")
         elif isinstance(node, IntExpr):
-- 
2.43.0


From c22b803c4fdda070ebdf7ea454e43e2fb0910850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 59/78] fix: list literals in a language model's answer were
 read as empty lists

---
 llmlift_scripts/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 4262044..087d29a 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -435,7 +435,16 @@ def mypy_node_to_ir(
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
             node_type = mypy_type_to_ir_type(types[node])
-            return node_type.empty(get_args(node_type)[0]).src
+            element_type = get_args(node_type)[0]
+            list_object = node_type.empty(element_type)
+            for item in node.items:
+                item_expr = parse_node(item)
+                if item_expr.type != element_type:
+                    raise Exception(
+                        f"List elements must be of type {element_type}, but got {types[item]}"
+                    )
+                list_object = list_object.append(create_object(element_type, item_expr))
+            return list_object.src
         elif isinstance(node, ConditionalExpr):
             return ite(
                 parse_node(node.cond),
-- 
2.43.0


From 0759132c09889da542d1b0ec0f06520558e3edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 60/78] fix: True and False in a language model's answer were
 read as variables

---
 llmlift_scripts/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 087d29a..0edaca2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -377,6 +377,9 @@ def mypy_node_to_ir(
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr):
+            # In python, True and False are names too
+            if node.fullname in {"builtins.True", "builtins.False"}:
+                return Bool(node.name == "True").src
             # Nothing can go wrong with a name expression (which are basically variables)
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
-- 
2.43.0


From 007dd567c8b02f9a9d99eae409d985f172ac49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 61/78] fix: slice strides and negative indices in a language
 model's answer were ignored

---
 llmlift_scripts/parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0edaca2..ba960e2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -238,6 +238,12 @@ def mypy_node_to_ir(
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
 ) -> Expr:
+    def parse_index(node: Node) -> Expr:
+        # In python, negative indices count from the end of the list
+        if isinstance(node, UnaryExpr) and node.op == "-":
+            raise Exception("Negative indices are not supported")
+        return parse_node(node)
+
     def parse_node(node: Node) -> Expr:
         # TODO: add support for non-lambda inline functions
         if isinstance(node, FuncDef) or isinstance(node, LambdaExpr):
@@ -491,17 +497,20 @@ def mypy_node_to_ir(
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
             if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a stride are not supported")
+
                 # Parse begin index
                 if node.index.begin_index is None:
                     begin_index = None
                 else:
-                    begin_index = parse_node(node.index.begin_index)
+                    begin_index = parse_index(node.index.begin_index)
 
                 # Parse end index
                 if node.index.end_index is None:
                     end_index = None
                 else:
-                    end_index = parse_node(node.index.end_index)
+                    end_index = parse_index(node.index.end_index)
 
                 if begin_index is None and end_index is not None:
                     return base_object[:end_index].src
@@ -514,7 +523,7 @@ def mypy_node_to_ir(
                         f"Slicing index {node.index} is not supported. The only supported slices are [i:], [:j], [i:j]"
                     )
             else:
-                index_expr = parse_node(node.index)
+                index_expr = parse_index(node.index)
                 return base_object[index_expr].src
         else:
             if isinstance(node, ListComprehension):
-- 
2.43.0


From 9aa49904c79b5f6f63c028945b98a3396096fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 62/78] fix: keyword arguments in a language model's answer
 were read by position

---
 llmlift_scripts/parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index ba960e2..4b4fadd 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -338,10 +338,22 @@ def mypy_node_to_ir(
                         f"Incorrect number of arguments for function {func_name}. Required {expected_num_args} but got {actual_num_args}"
                     )
 
+                # Put the arguments in the order of the parameters
+                args: list[Node] = []
+                for idx, param_name in enumerate(func_type.arg_names):
+                    if node.arg_names[idx] is None and node.arg_kinds[idx].is_positional():
+                        args.append(node.args[idx])
+                    elif param_name in node.arg_names:
+                        args.append(node.args[node.arg_names.index(param_name)])
+                    else:
+                        raise Exception(
+                            f"Function {func_name} is called without {param_name}"
+                        )
+
                 # Check argument types and make argument objects
                 arg_exprs: List[Expr] = []
                 for idx, (arg, expected_ir_type, expected_type) in enumerate(
-                    zip(node.args, arguments_ir_types, func_type.arg_types)
+                    zip(args, arguments_ir_types, func_type.arg_types)
                 ):
                     # We check if the IR types match but throw errors with python types.
                     # This is because multiple python types can map to the same IR type.
-- 
2.43.0


From ba57db13e479179254f766066924cd2e3597de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 63/78] fix: calls without a function name in a language
 model's answer were read as nothing

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 4b4fadd..b189c22 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -394,6 +394,8 @@ def mypy_node_to_ir(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only functions with a name can be called")
         elif isinstance(node, NameExpr):
             # In python, True and False are names too
             if node.fullname in {"builtins.True", "builtins.False"}:
-- 
2.43.0


From feb09c05a8435d3976b902027e89f7cbdc591b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 64/78] fix: functions passed by name were returned as
 declarations

---
 llmlift_scripts/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index b189c22..0c92125 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -383,7 +383,8 @@ def mypy_node_to_ir(
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
+                        if isinstance(arg, LambdaExpr):
+                            fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
-- 
2.43.0


From 63aee2ae56ef72e8759de02d6ceba2950ddd3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 65/78] fix: return and parameter types of a language model's
 answer were not checked

---
 llmlift_scripts/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0c92125..cad485c 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -180,7 +180,7 @@ def mypy_parse(
 
         arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
         ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
-        if any(arg_ir_types) is None:
+        if any(arg_ir_type is None for arg_ir_type in arg_ir_types):
             raise Exception(
                 f"Function {func_def.name} has arguments with no type information"
             )
@@ -262,10 +262,15 @@ def mypy_node_to_ir(
                 variables = sorted(variables, key=lambda x: x.var_name())
             # Because we are not sure if the function is recursive, we opt to always use the recursive definition
             # If the function is expressed as a lambda expression, then the name will be "<lambda>"
+            body_expr = parse_node(node.body)
+            if body_expr.type != ret_ir_type:
+                raise Exception(
+                    f"{node.name} must return {ret_ir_type} but returns {body_expr.type}"
+                )
             return fn_decl_recursive(
                 node.name,
                 ret_ir_type,
-                parse_node(node.body),
+                body_expr,
                 *variables,
             )
         elif isinstance(node, Block):
-- 
2.43.0


From 5758c813d61cbc18ed734cadab342bce110972da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 66/78] fix: arguments of calls to the answered functions were
 in the wrong order

---
 llmlift_scripts/parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index cad485c..fb428e6 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -237,6 +237,7 @@ def mypy_node_to_ir(
     in_calls: list[tuple[str, str]],
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
+    target_func_names: list[str],
 ) -> Expr:
     def parse_index(node: Node) -> Expr:
         # In python, negative indices count from the end of the list
@@ -399,6 +400,14 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
+                if func_name in target_func_names:
+                    # The parameters of these functions are sorted by name
+                    arg_exprs = [
+                        arg_expr
+                        for _, arg_expr in sorted(
+                            zip(arg_names, arg_exprs), key=lambda x: x[0]
+                        )
+                    ]
                 return call(func_name, ret_ir_type, *arg_exprs).src
             else:
                 raise Exception("Only functions with a name can be called")
@@ -578,6 +587,7 @@ def check_solution(
     fn_decls: list[FnDeclRecursive] = []
     in_calls: list[tuple[str, str]] = []
 
+    target_func_names = [func_def.name for func_def in target_func_defs]
     for target_func_def in target_func_defs:
         mypy_node_to_ir(
             target_func_def,
@@ -587,6 +597,6 @@ def check_solution(
             in_calls,
             lambda_exprs,
             arg_name_to_count,
+            target_func_names,
         )
-    target_func_names = [func_def.name for func_def in target_func_defs]
     return target_func_names, fn_decls, in_calls
-- 
2.43.0


From fccaed7e71ad9fa2c4543ef809ea932029c5843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 67/78] fix: answers redefining a function were read with the
 wrong signature

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index fb428e6..7fe62ee 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -174,6 +174,8 @@ def mypy_parse(
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
     for func_def in [*target_func_defs, *get_dsl_func_defs()]:
+        if func_def.name in func_sign:
+            raise Exception(f"Function {func_def.name} is defined twice")
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
-- 
2.43.0


From 1aac2a269a30477fc95e3ea769b8aff2ec0a660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 68/78] fix: ite() in a language model's answer was rewritten
 without its parentheses

---
 llmlift_scripts/utils.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..02f7d78 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -35,15 +35,29 @@ def extract_all_python_functions(s: str) -> list[str]:
 
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
-
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    # Find the arguments, which can contain parentheses and commas themselves
+    args: list[str] = []
+    start, depth = match.end(), 0
+    for pos in range(match.end(), len(ps_sol)):
+        char = ps_sol[pos]
+        if char in "([{":
+            depth += 1
+        elif depth > 0 and char in ")]}":
+            depth -= 1
+        elif depth == 0 and char in ",)":
+            args.append(replace_ite(ps_sol[start:pos].strip()))
+            start = pos + 1
+            if char == ")":
+                break
+    head, tail = ps_sol[: match.start()], replace_ite(ps_sol[start:])
+    if len(args) != 3:
+        return ps_sol[: match.end()] + replace_ite(ps_sol[match.end() :])
+    cond, a, b = args
+    return f"{head}(({a}) if ({cond}) else ({b})){tail}"
 
 
 def get_inv_args(
-- 
2.43.0


From f023a498fa765b944c280f5a68e2e566ae285914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 69/78] fix: names of generated variables could be in use
 already

---
 metalift/analysis.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 2d11089..dfb0def 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -457,12 +457,11 @@ class VariableGroup(object):
 
     def variable(self, name: str, type: ObjectT) -> Var:
         my_name = f"{self.name}_{name}"
-        if my_name in self.tracker.existing:
-            self.tracker.existing[my_name] += 1
-        else:
-            self.tracker.existing[my_name] = 0
-
-        self.tracker.var_to_type[
-            format_with_index(my_name, self.tracker.existing[my_name])
-        ] = type
-        return Var(format_with_index(my_name, self.tracker.existing[my_name]), type)
+        index = self.tracker.existing.get(my_name, -1) + 1
+        # another variable can have been given the name with this index already
+        while format_with_index(my_name, index) in self.tracker.var_to_type:
+            index += 1
+        self.tracker.existing[my_name] = index
+
+        self.tracker.var_to_type[format_with_index(my_name, index)] = type
+        return Var(format_with_index(my_name, index), type)
-- 
2.43.0


From 5cce44d4e6ac8418bb2e28c5e791d6dd8f3c0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 70/78] fix: an argument named like the returned value made two
 parameters the same

---
 metalift/frontend/llvm.py   | 10 +++++++---
 metalift/frontend/python.py |  6 ++++--
 metalift/frontend/utils.py  |  9 +++++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 1881c14..c57bb47 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -21,7 +21,7 @@ from llvmlite import binding as llvm
 from llvmlite.binding import TypeRef, ValueRef
 
 from metalift.analysis import VariableTracker, setupBlocks
-from metalift.frontend.utils import ObjectSet
+from metalift.frontend.utils import ObjectSet, return_var_name
 from metalift.ir import Bool, Call, Eq, Expr, FnDecl, FnDeclRecursive, Int, Ite
 from metalift.ir import List as mlList
 from metalift.ir import Lit, Matrix, Object, ObjectT
@@ -1030,7 +1030,9 @@ class VCVisitor:
         # Add preconditions
         blk_state = self.fn_blocks_states[block.name]
         blk_state.precond += self.driver.postconditions
-        return_arg = create_object(self.fn_ret_type, f"{self.fn_name}_rv")
+        return_arg = create_object(
+            self.fn_ret_type, return_var_name(self.fn_name, self.fn_args)
+        )
         for arg in self.fn_args + [return_arg]:
             # TODO: make this check for all pointer types
             if is_pointer_type(arg.type):
@@ -1436,7 +1438,9 @@ class VCVisitor:
             raise Exception("ret void not supported yet!")
 
         # Add postcondition
-        return_arg = create_object(ret_val.type, f"{self.fn_name}_rv")
+        return_arg = create_object(
+            ret_val.type, return_var_name(self.fn_name, self.fn_args)
+        )
         self.driver.add_var_object(return_arg)
         self.pred_tracker.postcondition(
             self.fn_name,
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b327078..f382c9b 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -53,7 +53,7 @@ from mypy.types import UnboundType
 from mypy.visitor import ExpressionVisitor, StatementVisitor
 
 from metalift.analysis import VariableTracker
-from metalift.frontend.utils import ObjectSet
+from metalift.frontend.utils import ObjectSet, return_var_name
 from metalift.ir import Bool, Eq, Expr, FnDecl, FnDeclRecursive, Int
 from metalift.ir import List as mlList
 from metalift.ir import Object, ObjectT
@@ -412,7 +412,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise RuntimeError(f"fn must return a value: {fn_type}")
 
             object_type = to_object_type(self.fn_type.ret_type)
-            return_arg = create_object(object_type, f"{self.fn_name}_rv")
+            return_arg = create_object(
+                object_type, return_var_name(self.fn_name, self.args)
+            )
             self.pred_tracker.postcondition(
                 o,
                 [return_arg],
diff --git a/metalift/frontend/utils.py b/metalift/frontend/utils.py
index 90657e5..5c9ff93 100644
--- a/metalift/frontend/utils.py
+++ b/metalift/frontend/utils.py
@@ -15,6 +15,15 @@ def qual_name(t: type) -> str:
         raise NotImplementedError(t)
 
 
+# name of the variable for the value a function returns, which differs from the names of its arguments
+def return_var_name(fn_name: str, args: Iterable[Object]) -> str:
+    arg_names = [arg.var_name() for arg in args]
+    name = f"{fn_name}_rv"
+    while name in arg_names:
+        name += "_"
+    return name
+
+
 class ObjectSet:
     def __init__(self, objs: Iterable[Object] = []) -> None:
         self.objs: typing.List[Object] = []
-- 
2.43.0


From 334addf17af676f10b1dde5720dca53ec8753a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 71/78] fix: loops were refused when arguments have other names
 than the parameters

---
 metalift/frontend/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index f382c9b..5987eec 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -505,7 +505,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            args=[
+                create_object(to_object_type(type), name) for name, type in formals
+            ],
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
-- 
2.43.0


From fb2a9daa1580ad84b0d4c3e55fa4e95c6d34ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:08 +0000
Subject: [PATCH 72/78] fix: LLMLift accepted functions whose parameters are
 not the source function's

---
 llmlift_scripts/synthesis.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..c23f964 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -123,6 +123,18 @@ def process_ps_fn_decl(
     )
 
 
+def check_ps_parameters(
+    fn_decls: list[FnDecl | FnDeclRecursive], benchmark_name: str, args: list[Object]
+) -> None:
+    """Raises when the function is answered with parameters other than the source's."""
+    names = sorted(arg.var_name() for arg in args)
+    for fn_decl in fn_decls:
+        if fn_decl.name() != benchmark_name:
+            continue
+        if sorted(arg.name() for arg in fn_decl.arguments()) != names:
+            raise Exception(f"The parameters of {benchmark_name} must be {names}")
+
+
 def process_dsl_fns_for_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive], in_calls: list[tuple[str, str]]
 ) -> list[FnDecl | FnDeclRecursive]:
@@ -403,6 +415,9 @@ def run_llm_synthesis_algorithm(
                 lambda_exprs=lambda_exprs,
                 arg_name_to_count=arg_name_to_count,
             )
+            # The condition passes the arguments by the names of the parameters
+            ps_args = driver.pred_tracker.predicates[benchmark_name].reads
+            check_ps_parameters(ps_fn_decls, benchmark_name, ps_args)
             print("Passed the parser, continuing to invariant generation")
         except Exception as e:
             print("Failed to pass the parser", e)
-- 
2.43.0


From ea1a4f0368634c9ffa85bdc0ce3b91f7524061ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 73/78] fix: a block whose name contains latch was left out of
 its loop's body

---
 metalift/analysis.py      | 2 +-
 metalift/frontend/llvm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index dfb0def..fd06336 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -146,7 +146,7 @@ def parseLoops(filename: str, fnName: str, log: bool = True) -> List[LoopInfo]:
                     exits.append(name)
                 if "<latch>" in b:
                     latches.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body.append(name)
 
             loops.append(LoopInfo(header, body, exits, latches))
diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c57bb47..0d87b83 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -534,7 +534,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From 49e7b078334cf3650fd8c893f6dd5d87b1212058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 74/78] fix: blocks on a cycle that is not a natural loop were
 left out of the condition

---
 metalift/frontend/llvm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 0d87b83..bb5eae2 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1769,6 +1769,11 @@ class MetaliftFunc:
                 ):
                     v.visit_llvm_block(b)
                     done = False
+        for b in self.fn_blocks.values():
+            if not v.fn_blocks_states[b.name].processed:
+                raise Exception(
+                    f"Block {b.name} is on a cycle that is not a loop of the loop report"
+                )
 
         # TODO: now we should update the return type
         # if sret_obj is not None:
-- 
2.43.0


From 24b78bf5b55512751accddd61b1739be4597ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 75/78] fix: the pass broke phis of a block that both branches
 of a conditional go to

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..092f5b1 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,13 @@ namespace
       return bb;
     }
 
+    // One entry for each edge: both branches can have the same successor
+    void replacePhiUse(BasicBlock *succ, BasicBlock *from, BasicBlock *to)
+    {
+      for (auto &phi : succ->phis())
+        phi.setIncomingBlock(phi.getBasicBlockIndex(from), to);
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +64,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              replacePhiUse(op->getSuccessor(0), &B, trueBB);
+              replacePhiUse(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From d6722d65e44e295ae0b8faa0c32ff4174363b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 76/78] fix: LLMLift read answers with the DSL of an earlier
 run

---
 llmlift_scripts/parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 7fe62ee..9e3a26b 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -116,11 +116,16 @@ def _get_func_def_arg_names(func_def: FuncDef) -> list[str]:
     return [arg.variable.name for arg in func_def.arguments]
 
 
-@lru_cache(maxsize=None)
 def get_dsl_func_defs() -> List[FuncDef]:
+    """Get the function definitions of the python dsl module as it is now."""
+    return _get_dsl_func_defs((LLMLIFT_SCRIPTS_PATH / "dsl.py").read_text())
+
+
+@lru_cache(maxsize=None)
+def _get_dsl_func_defs(dsl_code: str) -> List[FuncDef]:
     """
     Get the function definitions of the python dsl module.
-    This is cached because the dsl file never changes.
+    This is cached because runs with the same dsl never change the file.
     """
     options = Options()
     options.incremental = False  # turn off caching of previously typed results
-- 
2.43.0


From 2c55747cff4b73e0ab5706df9c80360ac93aa563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 77/78] fix: the else part of a Python loop was left out of the
 condition

---
 metalift/frontend/python.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5987eec..105b6db 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -565,6 +565,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         # the invariant is true from this point on
         self.state.precond.append(and_objects(cond.Not(), inv_holds))
 
+        # there is no break, so the loop always ends with its else part
+        if o.else_body is not None:
+            o.else_body.accept(self)
+
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
         # precond -> ps(...)
-- 
2.43.0


From acdf66733840038ca2209941cece62b3b16ad6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 78/78] fix: // by a negative number did not round down

---
 metalift/frontend/python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 105b6db..c02b8a7 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -761,7 +761,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         elif op == "*":
             return l * r  # type: ignore
         elif op == "//":
-            return l // r  # type: ignore
+            # Div rounds down, as // does, only if the divisor is positive
+            if isinstance(o.right, IntExpr) and o.right.value > 0:
+                return l // r  # type: ignore
+            return ite(r > 0, l // r, (0 - l) // (0 - r))  # type: ignore
         elif op == "/":
             raise NotImplementedError(f"Division not supported in {o}")
         elif op == "%":
-- 
2.43.0

