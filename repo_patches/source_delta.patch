From 51ecd66f7f89d6bbd0b67d305ac64aa8725d6541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 01/39] fix: keywords no longer swallow the prefix of longer
 symbols (e.g. 'lastly', 'trueish')

---
 docs/grammars.md                      | 16 ++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..b118e32 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -34,8 +34,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -117,11 +117,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -189,8 +189,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..89c38ac 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -23,8 +23,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..8da840f 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 531b35fe719c548b0396205f6541a605af95d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/39] fix: parse negated propositional formulae inside LDL
 regular expressions (e.g. '<!(a)>tt', '<!!a>tt')

---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index b118e32..7773f74 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 89c38ac..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From c75c6d9e50845f21deaf3956a895d66a6cd58ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 03/39] fix: an implication with a true antecedent and a false
 consequent evaluates to false

---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 57a9935b7f5f5972ee3a412ef318334ef198049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 04/39] fix: 'phi -> false' is not simplified to 'phi -> true'

---
 pylogics_modalities/syntax/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..996d6c3 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,7 +536,7 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
+        for operand in operands[:-1]:
             if operand == false:
                 # ex falso sequitur quodlibet
                 new_operands.append(~false)
-- 
2.43.0


From e0144c1aaa114583b5026fd9da61da3733be6391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 05/39] fix: print the LDL test operator on the right, as the
 grammar expects

---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..cd94353 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -237,7 +237,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From e8abd413fbda2b391ecef790e8c8f2052537cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 06/39] fix: print the PLTL operators 'weak before' and
 'triggers'

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index cd94353..f4ac7a0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,6 +186,18 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
-- 
2.43.0


From f6f63362866cc73611a3214b26f0cbed3454077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 07/39] fix: repeated operands of an equivalence cancel out in
 pairs ('a <-> a' is true, not 'a')

---
 pylogics_modalities/syntax/base.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 996d6c3..7ff2eda 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -24,6 +24,7 @@
 """Base classes for pylogics logic formulas."""
 import re
 from abc import ABC, abstractmethod
+from collections import Counter
 from enum import Enum
 from typing import Container, Dict, FrozenSet, Optional, Sequence, Union, cast
 
@@ -574,14 +575,16 @@ class _MetaEquivalenceOp(_MetaOp):
 
     @staticmethod
     def _simplify_operands(*operands):
-        """Simplify operands."""
-        no_duplicate_operands = dict.fromkeys(operands)
-        operands = list(no_duplicate_operands)
-        if len(operands) == 0:
-            return []
-        if len(operands) == 1:
-            return [operands[0]]
-        return operands
+        """
+        Simplify operands.
+
+        The operator is associative and commutative, and "phi <-> phi" is a
+        tautology: hence, equal operands cancel out in pairs.
+        """
+        counter = Counter(operands)
+        if len(operands) > 0 and all(n % 2 == 0 for n in counter.values()):
+            return [make_boolean(True, logic=operands[0].logic)]
+        return [operand for operand, n in counter.items() if n % 2 == 1]
 
 
 class Equivalence(_CommutativeBinaryOp, metaclass=_MetaEquivalenceOp):
-- 
2.43.0


From ef84e2564f5627972ec17c01dadb5d22b0997e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 08/39] fix: formulae can be pickled and copied

---
 pylogics_modalities/helpers/cache_hash.py | 5 +++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..fb2d3ed 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,9 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        # copy the state, so not to alter the object being serialized.
+        d = dict(fn(self) or {})
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 7ff2eda..9f834c1 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -499,6 +499,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__', to copy and unpickle the object."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 89f0f24104b571da90f11602bb7b48ff37c853e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 09/39] fix: boolean operators refuse operands of different, or
 forbidden, logics

---
 pylogics_modalities/syntax/base.py | 66 +++++++++++++++---------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 9f834c1..6d7517e 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -120,24 +120,48 @@ class _MetaOp(_HashConsing):
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
         cls._check_not_forbidden_formalism(*operands)
+        cls._check_operands_same_logic(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
     def _check_not_forbidden_formalism(cls, *operands):
-        """Check operands belong to same formalism."""
+        """Check operands do not belong to a forbidden formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
         allowed = getattr(cls, "ALLOWED_LOGICS", None)
         forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
         if allowed is not None:
             forbidden = []
 
-        is_logic_allowed = allowed is not None and logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
-            )
+        for logic in (operand.logic for operand in operands):
+            is_logic_allowed = allowed is None or logic in allowed
+            is_logic_forbidden = forbidden is not None and logic in forbidden
+            if not is_logic_allowed or is_logic_forbidden:
+                raise ValueError(
+                    f"error during instantiation of class {cls.__name__}: "
+                    f"found operand belonging to logic {logic}, which is forbidden"
+                )
+
+    @classmethod
+    def _check_operands_same_logic(mcs, *operands: Formula):
+        """
+        Check that the operands belong to the same logic.
+
+        TrueFormula and FalseFormula are not considered.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: PylogicsError: if the check fails.
+        """
+        filtered_operands = list(
+            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
+        )
+        if len(filtered_operands) == 0:
+            return
+        logic = filtered_operands[0].logic
+        enforce(
+            all(sub_formula.logic == logic for sub_formula in filtered_operands),
+            message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
+        )
 
 
 class _BinaryOp(Formula):
@@ -375,7 +399,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -419,28 +443,6 @@ class _MonotoneBinaryOp(_MetaOp):
 
         return new_operands
 
-    @classmethod
-    def _check_operands_same_logic(mcs, *operands: Formula):
-        """
-        Check that the operands belong to the same logic.
-
-        TrueFormula and FalseFormula are not considered.
-
-        :param operands: the sequence of operands.
-        :return: None
-        :raises: PylogicsError: if the check fails.
-        """
-        filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
-        )
-        if len(filtered_operands) == 0:
-            return
-        logic = filtered_operands[0]
-        enforce(
-            all(sub_formula.logic == logic for sub_formula in filtered_operands),
-            message="operands do not belong to the same logic",
-        )
-
 
 class _CommutativeBinaryOp(_BinaryOp):
     """Commutative binary operator."""
-- 
2.43.0


From 3d768eac11bbdaf164ae342c385193cd3ec12fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 10/39] fix: the check that operands of Seq and Union are
 regular expressions is executed

---
 pylogics_modalities/syntax/ldl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index fef870b..d22f712 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -66,8 +66,9 @@ class Seq(_BinaryOp, _RegularExpression):
     SYMBOL = "seq"
     ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
-    def __post_init__(self):
-        """Check consistency after initialization."""
+    def __init__(self, *operands: Formula):
+        """Initialize, and check consistency after initialization."""
+        super().__init__(*operands)
         enforce(
             all(op.logic == Logic.RE for op in self.operands),
             "not all the operands are regular expressions.",
@@ -80,8 +81,9 @@ class Union(_CommutativeBinaryOp, _RegularExpression):
     SYMBOL = "union"
     ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
-    def __post_init__(self):
-        """Check consistency after initialization."""
+    def __init__(self, *operands: Formula):
+        """Initialize, and check consistency after initialization."""
+        super().__init__(*operands)
         enforce(
             all(op.logic == Logic.RE for op in self.operands),
             "not all the operands are regular expressions.",
-- 
2.43.0


From 159228dd73b1df3c1d3eabff00fde8ee1e03ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 11/39] fix: the LTL 'last' holds at the last instant of a
 trace (it was 'G(ff)', false on any non-empty trace)

---
 pylogics_modalities/syntax/ltl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/ltl.py b/pylogics_modalities/syntax/ltl.py
index 4c4172e..ae1b2e8 100644
--- a/pylogics_modalities/syntax/ltl.py
+++ b/pylogics_modalities/syntax/ltl.py
@@ -157,4 +157,4 @@ class StrongRelease(_LTLBinaryOp):
     SYMBOL = "strong_release"
 
 
-Last = partial(Always, FalseFormula(logic=Logic.LTL))
+Last = partial(WeakNext, FalseFormula(logic=Logic.LTL))
-- 
2.43.0


From c648e36a5a24ae53000132e658093c803eb0aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 12/39] fix: terms and predicates compare structurally

---
 pylogics_modalities/syntax/fol.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..92a472f 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -65,6 +65,14 @@ class Term(ABC):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return type(self) is type(other) and str(self) == str(other)
+
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), str(self)))
+
 
 class Variable(Term):
     def __init__(self, name: str):
@@ -153,6 +161,18 @@ class Predicate(_FOL):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            type(self) is type(other)
+            and self.name == other.name
+            and tuple(self.operands) == tuple(other.operands)
+        )
+
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, tuple(self.operands)))
+
 
 class ForAll(_Quantifier, _FOL):
     """Universal formula."""
-- 
2.43.0


From 039f3653ece896f3117e11608194dd4c5620fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 13/39] fix: and-elimination only applies to conjunctions,
 or-introduction to disjunctions

---
 pylogics_modalities/deduction/fol/nd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..f3477ee 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -202,11 +202,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From d3cb69efce0952104148b01f1b908fa1c4019446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 14/39] fix: proofs with dangling or ill-formed citations are
 rejected

---
 pylogics_modalities/deduction/fol/nd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index f3477ee..2acb01d 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -120,11 +120,16 @@ class NaturalDeduction(AbstractDeductionSystem):
         for row, content, justiﬁcation in proof:
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
                 if rule not in self.check_justification:
                     return False
-                if self.check_justification[rule](content, *args) == False:
-                    return False
+                if any(i not in sound for i in justiﬁcation[1:]):
+                    return False  # only earlier lines, whose box is still open, can be cited
+                args = [sound[i] for i in justiﬁcation[1:]]
+                try:
+                    if self.check_justification[rule](content, *args) == False:
+                        return False
+                except (AttributeError, AssertionError, IndexError, TypeError, ValueError, PylogicsError):
+                    return False  # the cited lines do not have the form the rule expects
             elif isinstance(content, list):
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
-- 
2.43.0


From bbc027c6621c0384a4d5f034e77392405395a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 15/39] fix: natural deduction replaces variables below
 quantifiers and equivalences, without capture

---
 pylogics_modalities/deduction/fol/nd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 2acb01d..5178dfc 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,8 +25,9 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
+from pylogics_modalities.helpers.misc import enforce
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
 from pylogics_modalities.syntax.fol import Predicate, ForAll, Exists
@@ -242,16 +243,17 @@ class NaturalDeduction(AbstractDeductionSystem):
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if formula == x:
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
             return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            enforce(not self._find_term(formula.variable, a), "the replaced term would be captured")
+            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From 48d68e06700fd0cc516b6ae7450b6ee89d11bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 16/39] fix: universal quantifiers can be instantiated with
 variables

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 5178dfc..0fe24c9 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -230,7 +230,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _find_diff(self, x: Formula, y: Formula):
         diffset = set()
-        if type(x) != type(y):
+        if type(x) != type(y) or (isinstance(x, (Variable, Constant)) and x != y):
             diffset = diffset | {(x, y)}
         elif 'argument' in dir(x):
             diffset = diffset | self._find_diff(x.argument, y.argument)
@@ -274,9 +274,9 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
-- 
2.43.0


From ccd072c7cd4e49c9502f46a55adacd8cde22e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 17/39] fix: side conditions on the generic term of
 forall-introduction and exists-elimination

---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 0fe24c9..6edcc57 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -263,9 +263,13 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
+        if not isinstance(a, (Variable, Constant)):
             return False
+        if args[0][1][2][0] == self.rule.assumption:
+            return False  # the generic term is not generic
         x, phi = formula.variable, formula.formula
+        if a != x and self._find_term(a, phi):
+            return False  # Term occurs outside its assumption
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
     def _check_justification_forall_e(self, formula, *args):
@@ -298,6 +302,8 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, (Variable, Constant)) or self._find_term(a, phi):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From e1b00bd0f869aba83030184cc76ddade71711383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 18/39] fix: only the first formula of a box can be an
 assumption

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 6edcc57..67b707a 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -116,11 +116,15 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        inside_box = sound is not None
         sound = sound if sound else {}
+        first_formula = next((i for i, line in enumerate(proof) if isinstance(line[1], Formula)), None)
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
+                if rule == self.rule.assumption and inside_box and index != first_formula:
+                    return False  # only the first formula of a box is discharged with it
                 if rule not in self.check_justification:
                     return False
                 if any(i not in sound for i in justiﬁcation[1:]):
-- 
2.43.0


From b4e6ea851404d88388c041cea6568f7b7eada9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 19/39] fix: natural deduction recognizes the contradiction of
 any logic

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 67b707a..90cbce5 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -165,7 +165,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_bot_e(self, formula, *args):
         """Check if the deduction is valid according to absurd-elimination rule"""
-        return args[0] == FalseFormula()
+        return isinstance(args[0], FalseFormula)
 
     def _check_justification_copy(self, formula, *args):
         """Check if the deduction is valid according to copy rule"""
@@ -195,13 +195,13 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-        return str(~args[0]) == str(args[1]) and formula == FalseFormula()
+        return str(~args[0]) == str(args[1]) and isinstance(formula, FalseFormula)
 
     def _check_justification_neg_i(self, formula, *args):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return (psi == FalseFormula()) and (str(formula) == str(~phi))
+        return isinstance(psi, FalseFormula) and (str(formula) == str(~phi))
 
     def _check_justification_or_e(self, formula, *args):
         """Check if the deduction is valid according to or-elimination rule"""
-- 
2.43.0


From cbd54a93ed68e5e6f3c11a1dde8ef362899be1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 20/39] fix: natural deduction accepts 'Implies' formulae, and
 modus tollens on negated formulae

---
 pylogics_modalities/deduction/fol/nd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 90cbce5..da446dc 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -181,17 +181,21 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_impl_e(self, formula, *args):
         """Check if the deduction is valid according to implies-elimination rule"""
-        return str(args[0] >> formula) == str(args[1])
+        return self._is_implication(args[1], args[0], formula)
 
     def _check_justification_impl_i(self, formula, *args):
         """Check if the deduction is valid according to implies-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return str(formula) == str(phi >> psi)
+        return self._is_implication(formula, phi, psi)
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return self._is_implication(args[0], ~formula, ~args[1])
+
+    def _is_implication(self, formula, phi, psi):
+        """Check if the formula is 'phi implies psi', either as 'phi >> psi' or as 'Implies(phi, psi)'."""
+        return str(formula) in (str(phi >> psi), str(Implies(phi, psi)))
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-- 
2.43.0


From c99777c031499df895f5b3f4b795607ac48ce263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 21/39] fix: a generic box can open with another box; premises
 are stated outside the boxes

---
 pylogics_modalities/deduction/fol/nd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index da446dc..90117f3 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -118,13 +118,15 @@ class NaturalDeduction(AbstractDeductionSystem):
 
         inside_box = sound is not None
         sound = sound if sound else {}
-        first_formula = next((i for i, line in enumerate(proof) if isinstance(line[1], Formula)), None)
+        opening = 1 if proof and isinstance(proof[0][1], Term) else 0
 
         for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
                 rule = justiﬁcation[0]
-                if rule == self.rule.assumption and inside_box and index != first_formula:
+                if rule == self.rule.assumption and inside_box and index != opening:
                     return False  # only the first formula of a box is discharged with it
+                if rule == self.rule.premise and inside_box:
+                    return False  # the premises are stated outside the boxes
                 if rule not in self.check_justification:
                     return False
                 if any(i not in sound for i in justiﬁcation[1:]):
@@ -273,7 +275,7 @@ class NaturalDeduction(AbstractDeductionSystem):
         a, phi_x_a = args[0][0][1], args[0][-1][1]
         if not isinstance(a, (Variable, Constant)):
             return False
-        if args[0][1][2][0] == self.rule.assumption:
+        if isinstance(args[0][1][1], Formula) and args[0][1][2][0] == self.rule.assumption:
             return False  # the generic term is not generic
         x, phi = formula.variable, formula.formula
         if a != x and self._find_term(a, phi):
-- 
2.43.0


From c98f47039af71f3dca0823cc8e691cfae8d56432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 22/39] fix: operators refuse operands of the logics they do
 not apply to

---
 pylogics_modalities/syntax/base.py | 48 +++++++++++++++++++-----------
 pylogics_modalities/syntax/fol.py  |  2 +-
 pylogics_modalities/syntax/ldl.py  |  3 +-
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 6d7517e..2b615d1 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -114,32 +114,42 @@ class Formula(ABC, metaclass=_HashConsing):
         return Or(Not(self), other)
 
 
+def _check_not_forbidden_formalism(cls, *operands: "Formula"):
+    """
+    Check operands do not belong to a forbidden formalism.
+
+    See ALLOWED_LOGICS and FORBIDDEN_LOGICS of the operator classes.
+
+    :param cls: the class of the operator.
+    :param operands: the operands.
+    :return: None
+    :raises: ValueError: if the check fails.
+    """
+    allowed = getattr(cls, "ALLOWED_LOGICS", None)
+    forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
+    if allowed is not None:
+        forbidden = []
+
+    for logic in (operand.logic for operand in operands):
+        is_logic_allowed = allowed is None or logic in allowed
+        is_logic_forbidden = forbidden is not None and logic in forbidden
+        if not is_logic_allowed or is_logic_forbidden:
+            raise ValueError(
+                f"error during instantiation of class {cls.__name__}: "
+                f"found operand belonging to logic {logic}, which is forbidden"
+            )
+
+
 class _MetaOp(_HashConsing):
     """Metaclass for (binary and unary) operators."""
 
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
-        cls._check_not_forbidden_formalism(*operands)
+        enforce(len(operands) >= 1, "expected at least one operand.")
+        _check_not_forbidden_formalism(cls, *operands)
         cls._check_operands_same_logic(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
-    def _check_not_forbidden_formalism(cls, *operands):
-        """Check operands do not belong to a forbidden formalism."""
-        enforce(len(operands) >= 1, "expected at least one operand.")
-        allowed = getattr(cls, "ALLOWED_LOGICS", None)
-        forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
-        if allowed is not None:
-            forbidden = []
-
-        for logic in (operand.logic for operand in operands):
-            is_logic_allowed = allowed is None or logic in allowed
-            is_logic_forbidden = forbidden is not None and logic in forbidden
-            if not is_logic_allowed or is_logic_forbidden:
-                raise ValueError(
-                    f"error during instantiation of class {cls.__name__}: "
-                    f"found operand belonging to logic {logic}, which is forbidden"
-                )
-
     @classmethod
     def _check_operands_same_logic(mcs, *operands: Formula):
         """
@@ -198,6 +208,7 @@ class _BinaryOp(Formula):
             "some argument is not an instance of 'Formula'",
             exception_cls=ValueError,
         )
+        _check_not_forbidden_formalism(type(self), *operands)
         self._operands = list(operands)
 
     @property
@@ -263,6 +274,7 @@ class _UnaryOp(Formula, ABC):
             "argument is not an instance of 'Formula'",
             exception_cls=ValueError,
         )
+        _check_not_forbidden_formalism(type(self), arg)
         super().__init__()
         self._arg = arg
 
diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 92a472f..a73b3ec 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -110,7 +110,7 @@ class _Quantifier(_BinaryOp):
         :param formula:
         """
         enforce(isinstance(variable, Variable), f"{type(self).__name__}: expected {Variable}, got {type(variable)}")
-        enforce(formula.logic == Logic.FOL, "tail formula not valid")
+        enforce(isinstance(formula, Formula) and formula.logic == Logic.FOL, "tail formula not valid")
         self._variable = variable
         self._formula = formula
         self._operands = [variable, formula]
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index d22f712..09764a9 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -94,13 +94,14 @@ class Test(_UnaryOp, _RegularExpression):
     """Test of an LDL formula."""
 
     SYMBOL = "test"
-    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
+    ALLOWED_LOGICS: Set[Logic] = {Logic.LDL}
 
 
 class Star(_UnaryOp, _RegularExpression):
     """Kleene star of regular expressions."""
 
     SYMBOL = "star"
+    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
 
 class Prop(_UnaryOp, _RegularExpression):
-- 
2.43.0


From 1fa323e1c8c11e37abfe25f6dcf5cab8e0bfb291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 23/39] fix: predicates and functions do not change with the
 list of operands of the caller

---
 pylogics_modalities/syntax/fol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index a73b3ec..567daae 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -89,7 +89,8 @@ class Function(Term):
 
     def __init__(self, name: str, operands: list):
         self.name = name
-        self.operands = operands
+        # copy the operands: the caller might change them later.
+        self.operands = list(operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
@@ -135,7 +136,8 @@ class Predicate(_FOL):
 
     def __init__(self, name: str, operands: list = []):
         self._name = name
-        self._operands = operands
+        # copy the operands: the caller might change them later.
+        self._operands = list(operands)
 
     @property
     def name(self) -> str:
@@ -145,7 +147,7 @@ class Predicate(_FOL):
     @property
     def operands(self) -> list:
         """Get the operands of the predicate."""
-        return self._operands
+        return list(self._operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self._operands),
-- 
2.43.0


From 3c90542f98e2b217b13530b2733ffe3e444797ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 24/39] fix: a variable is not captured by a quantifier over a
 formula where it does not occur

---
 pylogics_modalities/deduction/fol/nd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 90117f3..a50d7e0 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -262,8 +262,11 @@ class NaturalDeduction(AbstractDeductionSystem):
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
+            replaced = self._replace(formula.formula, x, a)
+            if replaced == formula.formula:
+                return formula
             enforce(not self._find_term(formula.variable, a), "the replaced term would be captured")
-            return type(formula)(formula.variable, self._replace(formula.formula, x, a))
+            return type(formula)(formula.variable, replaced)
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
-- 
2.43.0


From 399c4259d4e2345e978d10acf363c4e974a328b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 25/39] fix: terms with the same text and a different structure
 are different

---
 pylogics_modalities/syntax/fol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 567daae..34819ec 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -67,11 +67,15 @@ class Term(ABC):
 
     def __eq__(self, other) -> bool:
         """Compare with another object."""
-        return type(self) is type(other) and str(self) == str(other)
+        return (
+            type(self) is type(other)
+            and self.name == other.name
+            and tuple(getattr(self, "operands", ())) == tuple(getattr(other, "operands", ()))
+        )
 
     def __hash__(self) -> int:
         """Compute the hash."""
-        return hash((type(self), str(self)))
+        return hash((type(self), self.name, tuple(getattr(self, "operands", ()))))
 
 
 class Variable(Term):
-- 
2.43.0


From dfa329ab68d88b10f158023958a2652be478e4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 26/39] fix: the copyright check looks into the folder of the
 package

---
 scripts/check_copyright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/check_copyright.py b/scripts/check_copyright.py
index 5e52f9f..e1ee858 100644
--- a/scripts/check_copyright.py
+++ b/scripts/check_copyright.py
@@ -95,7 +95,7 @@ if __name__ == "__main__":
     python_files = filter(
         lambda x: x not in exclude_files,
         itertools.chain(
-            Path("pylogics").glob("**/*.py"),
+            Path("pylogics_modalities").glob("**/*.py"),
             Path("tests").glob("**/*.py"),
             Path("scripts").glob("**/*.py"),
         ),
-- 
2.43.0


From 57778ccfb9d185f62e9dca0f8c8383848f8c9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 27/39] fix: the lowest Python of a range like '>=3.10' was
 taken to be '3'

---
 scripts/update-dependencies.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 7583406..6386b5b 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -64,13 +64,13 @@ def get_lowest_python_version(specifier_set: SpecifierSet) -> str:
     possible_versions = [
         f"{major}.{minor}.{patch}"
         for major in range(3, 4)
-        for minor in range(10)
-        for patch in range(10)
+        for minor in range(30)
+        for patch in range(30)
     ]
     satisfying_versions = [
         version for version in possible_versions if parse(version) in specifier_set
     ]
-    return min(satisfying_versions, default="3")
+    return min(satisfying_versions, key=parse, default="3")
 
 
 def get_pyproject_python_version(pyproject_file: str) -> str:
-- 
2.43.0


From 4e200f5927b43e89a417d22f94ea82e50a5c4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:50 +0000
Subject: [PATCH 28/39] fix: releases that are not written in normal form were
 never chosen as updates

---
 scripts/update-dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 6386b5b..992b0d8 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -97,7 +97,7 @@ def get_version(package: str, python_version: str) -> Optional[str]:
                 logging.warning(f"Skipping invalid version: {release}")
                 continue
 
-            release_info = j["releases"].get(str(ver), [{}])
+            release_info = releases[release]
             if release_info:
                 info = release_info[-1]
                 if not ver.is_prerelease and info:
-- 
2.43.0


From 753d5ed3a1f157228398f0d5fb695885adf02c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 29/39] fix: a release that excludes '3.8.*' was considered to
 work with Python 3.8.1

---
 scripts/update-dependencies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 992b0d8..15debbd 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -41,6 +41,7 @@ Requirements:
 
 import argparse
 import logging
+import re
 import subprocess
 from typing import Optional
 
@@ -54,8 +55,8 @@ URL_PATTERN = "https://pypi.python.org/pypi/{package}/json"
 
 
 def clean_version_specifier(version_specifier: str) -> str:
-    """Clean version specifier by removing '.*' if present."""
-    cleaned = version_specifier.replace(".*", "")
+    """Clean version specifier by removing '.*' after an order, where it is not valid."""
+    cleaned = re.sub(r"([<>]=?\s*[\d.]+?)\.\*", r"\1", version_specifier)
     return cleaned
 
 
-- 
2.43.0


From 9bf9c49a8da047b49437e3f486ef9c1fef7398bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 30/39] fix: a test environment without dependencies got an
 empty list of them, and inherited none

---
 scripts/sync-tox-ini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index 6ff4ea0..efffb2a 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -113,7 +113,7 @@ def update_tox_ini(tox_ini_path: Path, dependencies: Dict[str, str]) -> None:
     config.read(tox_ini_path)
 
     for section in config.sections():
-        if section.startswith("testenv"):
+        if section.startswith("testenv") and "deps" in config[section]:
             deps = config[section].get("deps", "").split("\n")
             new_deps = []
             for dep in deps:
-- 
2.43.0


From 44223f5bf188fcd56ffab841449aea39e73ca9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 31/39] fix: the extras and the marker of a requirement in
 tox.ini were dropped

---
 scripts/sync-tox-ini.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index efffb2a..1cf154a 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -122,6 +122,10 @@ def update_tox_ini(tox_ini_path: Path, dependencies: Dict[str, str]) -> None:
                     dep_name = req.name
                     if dep_name in dependencies:
                         new_version = parse_version(dependencies[dep_name])
+                        if req.extras:
+                            dep_name += f"[{','.join(sorted(req.extras))}]"
+                        if req.marker:
+                            new_version += f"; {req.marker}"
                         new_dep = dep_name + new_version
                         new_deps.append(new_dep)
                     else:
-- 
2.43.0


From e491626f0445673e55a3c4c1c70a289e9f8682e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 32/39] fix: the strings of LDL formulae with modalities gave
 an address in memory

---
 pylogics_modalities/syntax/ldl.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index 09764a9..7a624df 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -114,6 +114,8 @@ class Prop(_UnaryOp, _RegularExpression):
 class _TemporalFormula(_LDL, ABC):
     """LDL Temporal formula."""
 
+    SYMBOL: str
+
     def __init__(self, regular_expression: Formula, tail_formula: Formula):
         """
         Initialize the formula.
@@ -148,14 +150,26 @@ class _TemporalFormula(_LDL, ABC):
         """Compute the hash."""
         return hash((type(self), self.regular_expression, self.tail_formula))
 
+    def __str__(self) -> str:
+        """Get the string representation."""
+        return f"({self.SYMBOL} {self.regular_expression} {self.tail_formula})"
+
+    def __repr__(self) -> str:
+        """Get an unambiguous string representation."""
+        return f"{type(self).__name__}({repr(self.regular_expression)}, {repr(self.tail_formula)})"
+
 
 class Diamond(_TemporalFormula):
     """Diamond formula."""
 
+    SYMBOL = "diamond"
+
 
 class Box(_TemporalFormula):
     """Box formula."""
 
+    SYMBOL = "box"
+
 
 End = partial(Box, Prop(TrueFormula()), FalseFormula(logic=Logic.LDL))
 Last = partial(Diamond, Prop(TrueFormula()), End())
-- 
2.43.0


From d8c48b81e973007df3423c74d68a4a12e7db41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 33/39] fix: changing the list of operands of a function
 changed the formulae made with it

---
 pylogics_modalities/syntax/fol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 34819ec..ab4edf8 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -94,7 +94,12 @@ class Function(Term):
     def __init__(self, name: str, operands: list):
         self.name = name
         # copy the operands: the caller might change them later.
-        self.operands = list(operands)
+        self._operands = list(operands)
+
+    @property
+    def operands(self) -> list:
+        """Get the operands of the function."""
+        return list(self._operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
-- 
2.43.0


From c55d046fa53854c9e82775aac68dfd7f348c31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 34/39] fix: a plain version was glued to the name of the
 requirement in tox.ini

---
 scripts/sync-tox-ini.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index 1cf154a..db10533 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -79,11 +79,15 @@ def parse_version(version: str) -> str:
     Parse a version specifier and convert it into pip-friendly format.
 
     Args:
-        version: Version specifier. Could be in the form '^x.y', '^x.y.z' or 'x.y.z'.
+        version: Version specifier. Could be in the form '^x.y', '^x.y.z', 'x.y.z' or '*'.
 
     Returns:
         A string representing the version specifier in pip-friendly format.
     """
+    if version == "*":  # any version
+        return ""
+    if version[0].isdigit():  # exactly that version
+        return f"=={version}"
     if version[0] != "^":  # if version doesn't start with caret, return as is
         return version
 
-- 
2.43.0


From 5af5235142e3fb244170c8f4a515ecf3709da408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 35/39] fix: a version with a tilde became an invalid
 requirement in tox.ini

---
 scripts/sync-tox-ini.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/sync-tox-ini.py b/scripts/sync-tox-ini.py
index db10533..d1a6444 100644
--- a/scripts/sync-tox-ini.py
+++ b/scripts/sync-tox-ini.py
@@ -79,7 +79,7 @@ def parse_version(version: str) -> str:
     Parse a version specifier and convert it into pip-friendly format.
 
     Args:
-        version: Version specifier. Could be in the form '^x.y', '^x.y.z', 'x.y.z' or '*'.
+        version: Version specifier. Could be in the form '^x.y', '^x.y.z', '~x.y', '~x.y.z', 'x.y.z' or '*'.
 
     Returns:
         A string representing the version specifier in pip-friendly format.
@@ -88,6 +88,8 @@ def parse_version(version: str) -> str:
         return ""
     if version[0].isdigit():  # exactly that version
         return f"=={version}"
+    if version[0] == "~" and version[1:].replace(".", "").isdigit():  # ~x, ~x.y or ~x.y.z
+        return f"~={version[1:]}" if version.count(".") > 1 else f"~={version[1:]}.0"
     if version[0] != "^":  # if version doesn't start with caret, return as is
         return version
 
-- 
2.43.0


From e29c61c8bf533817dd34c0da5f287eaa15a54a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 36/39] fix: the dependencies of a project for Python '^3.8'
 were not updated

---
 scripts/update-dependencies.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 15debbd..49fe644 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -80,6 +80,12 @@ def get_pyproject_python_version(pyproject_file: str) -> str:
     python_version_specifier = pyproject_data["tool"]["poetry"]["dependencies"][
         "python"
     ]
+    # a caret, which is not valid out of Poetry, is up to the next major version
+    python_version_specifier = re.sub(
+        r"\^\s*(\d+)((\.\d+)*)",
+        lambda match: f">={match[1]}{match[2]},<{int(match[1]) + 1}",
+        python_version_specifier,
+    )
     specifier_set = SpecifierSet(python_version_specifier)
     return get_lowest_python_version(specifier_set)
 
-- 
2.43.0


From b73b57f5a030e56e22d0e1a72ab4e4c755cb0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 37/39] fix: a release with an invalid required Python kept a
 dependency from being updated

---
 scripts/update-dependencies.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/update-dependencies.py b/scripts/update-dependencies.py
index 49fe644..6401438 100755
--- a/scripts/update-dependencies.py
+++ b/scripts/update-dependencies.py
@@ -47,7 +47,7 @@ from typing import Optional
 
 import requests
 import toml
-from packaging.specifiers import SpecifierSet
+from packaging.specifiers import InvalidSpecifier, SpecifierSet
 from packaging.version import InvalidVersion, Version, parse
 from pkg_resources import parse_version
 
@@ -111,7 +111,12 @@ def get_version(package: str, python_version: str) -> Optional[str]:
                     requires_python = info["requires_python"]
                     requires_python = requires_python if requires_python else ">=3"
                     cleaned_requires_python = clean_version_specifier(requires_python)
-                    if Version(python_version) in SpecifierSet(cleaned_requires_python):
+                    try:
+                        specifier_set = SpecifierSet(cleaned_requires_python)
+                    except InvalidSpecifier:
+                        logging.warning(f"Skipping {release}, which requires Python {requires_python}")
+                        continue
+                    if Version(python_version) in specifier_set:
                         version = max(version, ver)
     return str(version)
 
-- 
2.43.0


From 60fad2c3e7716a5f1ba22d5e56886b881974e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 38/39] fix: check the operands of connectives before they are
 simplified away

---
 pylogics_modalities/syntax/base.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 2b615d1..cb5d3f6 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -150,6 +150,23 @@ class _MetaOp(_HashConsing):
         cls._check_operands_same_logic(*operands)
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
+    def _check_operands(cls, *operands: Formula):
+        """
+        Check that the operator applies to the operands, before they are simplified.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: ValueError: if some operand is not a formula, or it is of a forbidden logic.
+        :raises: PylogicsError: if the operands do not belong to the same logic.
+        """
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+        cls._check_operands_same_logic(*operands)
+        _check_not_forbidden_formalism(cls, *operands)
+
     @classmethod
     def _check_operands_same_logic(mcs, *operands: Formula):
         """
@@ -411,7 +428,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic(*args)
+        cls._check_operands(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -536,6 +553,7 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         if len(operands) == 0:
             raise ValueError("cannot accept zero arguments")
@@ -584,6 +602,7 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
+        cls._check_operands(*args)
         operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
         if len(operands) == 1:
-- 
2.43.0


From a20b3ef7a636afec1c2aeba3c1b4a1e0969201c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 39/39] fix: functions and predicates apply to terms only

---
 pylogics_modalities/syntax/fol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index ab4edf8..c851e81 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -95,6 +95,7 @@ class Function(Term):
         self.name = name
         # copy the operands: the caller might change them later.
         self._operands = list(operands)
+        enforce(all(isinstance(t, Term) for t in self._operands), "all operands must be terms")
 
     @property
     def operands(self) -> list:
@@ -147,6 +148,7 @@ class Predicate(_FOL):
         self._name = name
         # copy the operands: the caller might change them later.
         self._operands = list(operands)
+        enforce(all(isinstance(t, Term) for t in self._operands), "all operands must be terms")
 
     @property
     def name(self) -> str:
-- 
2.43.0

