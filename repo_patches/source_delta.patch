From f3f4ecffa2ee2152ecdf24ff675cce9bac1ced28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 001/115] fix: apply metric scale factors when converting
 through fundamental units

---
 src/eprempy/metric/_conversions.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..ca04000 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -302,25 +302,23 @@ def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
+        return reduction
     for system in _reference.SYSTEMS:
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+                scale, units = reduction
+                return scale * factor**exponent, units
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
+    """Compute the equivalent scale and fundamental units, if possible."""
     if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
+        units = [
+            symbolic.term(base=this.base, exponent=exponent*this.exponent)
             for this in reduction.units
         ]
+        return reduction.scale**exponent, units
 
 
 def _cancel_terms(terms: typing.List[symbolic.Term]):
-- 
2.43.0


From 973d40970e26d6992768b4032bc88be9785e3f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 002/115] fix: scale dimensionless units when converting
 compound units

---
 src/eprempy/metric/_conversions.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index ca04000..b52bbed 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -376,17 +376,15 @@ def _match_exponents(
 ) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
     """Attempt to convert `target` to a term in `terms` by exponent.
 
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    This function first compares `target` to each term in `terms` that has an
+    exponent with the same magnitude and opposite sign. If it can convert the
+    base unit of `target` to the base unit of a term in `terms`, it will return
+    the corresponding conversion factor and the matching term. Otherwise, this
+    function checks whether `target` is a dimensionless reference unit and, if
+    so, returns the factor that converts it to the canonical unit of its
+    physical quantity, along with `target`.
     """
     u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
     exponent = target.exponent
     inverse_powers = [
         term for term in terms
@@ -396,6 +394,10 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
+    unit = _defined.NamedUnit(u0)
+    if all(d == '1' for d in unit.dimensions.values()):
+        norm = unit.norm['mks'].symbol
+        return (_convert_as_strings(u0, norm) or unit.scale)**exponent, target
 
 
 @etc.autostr
-- 
2.43.0


From 74fbc28a7602170b87a51085a6ea14061b812ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 003/115] fix: read every digit of a rational denominator in
 symbolic operands

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..7f210b0 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -128,7 +128,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -649,7 +649,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 0712450a1fcb86bd6ad1f35a747ca7dcea1785e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 004/115] fix: parse numbers in scientific notation as symbolic
 constants

---
 src/eprempy/symbolic/_operand.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 7f210b0..a806695 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -409,7 +409,9 @@ class OperandFactory(_part.Factory):
         -----
         This method tries to match the 'variable' pattern before the 'constant'
         pattern because `re.match` will find a match for 'constant' at the start
-        of any variable term with an explicit coefficient.
+        of any variable term with an explicit coefficient. However, it prefers
+        the 'constant' match when that match consumes at least as much of the
+        string, in order to support scientific notation (e.g., '1e-9').
         """
         target = string[start:]
         matches = {
@@ -419,8 +421,9 @@ class OperandFactory(_part.Factory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            lengths = {key: match.end() for key, match in matches.items()}
+            whole = lengths['constant'] >= lengths['variable']
+            key = 'constant' if whole else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From 7a6f6b1c76d2ad8ffdffb434cef5ad6110612748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 005/115] fix: convert units with system-dependent dimensions
 via their canonical units

---
 src/eprempy/metric/_conversions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index b52bbed..e312823 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -2,6 +2,7 @@
 Internal support for unit conversions.
 """
 
+import contextlib
 import numbers
 import typing
 
@@ -301,9 +302,10 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
 def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
-    if reduction := _reduce_unit(term.base, exponent):
-        return reduction
-    for system in _reference.SYSTEMS:
+    with contextlib.suppress(_exceptions.SystemAmbiguityError):
+        if reduction := _reduce_unit(term.base, exponent):
+            return reduction
+    for system in ('mks', 'cgs'):
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-- 
2.43.0


From 71f3902e8e73b10be930e4d43f3fd2e37321a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 006/115] fix: define the illuminance quantity under the name
 its unit uses

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..6d4a14a 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From 63f70cf237286aa8829ef60cf3450bf37c87c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 007/115] fix: correct SI-Gaussian electromagnetic conversion
 factors

---
 src/eprempy/metric/_reference.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 6d4a14a..7fabcea 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -800,10 +800,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From ad23d1b6e4ae3c03670f3e10b112fd44c4f0e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 008/115] fix: allow declared non-ASCII unit symbols in
 symbolic expressions

---
 src/eprempy/symbolic/_operand.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index a806695..36bedaf 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -135,8 +135,8 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        (?:[^\W\d]|\#)+ # one or more letters, underscores, or '#'
+        \d*            # followed by optional digits
     """
 
     def __init__(
@@ -659,8 +659,8 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        (?:[^\W\d]|\#)+ # one or more letters, underscores, or '#'
+        \d*            # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
 
-- 
2.43.0


From 2e1afb3fa3c92d945abd79a084a7976434a82f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 009/115] fix: honor zero-valued exponents and coefficients in
 symbolic operands

---
 src/eprempy/symbolic/_operand.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 36bedaf..9f0671a 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -68,11 +68,15 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -582,14 +586,15 @@ class OperandFactory(_part.Factory):
         }
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
+        merged = {**default, **self.fill_defaults(**given)}
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](merged[key])
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -599,7 +604,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
@@ -618,7 +623,7 @@ class OperandFactory(_part.Factory):
             {
                 key: defaults[key]
                 for key, value in given.items()
-                if key in defaults and not value
+                if key in defaults and value in (None, '')
             }
         )
         return given
-- 
2.43.0


From 1a59eb61e89b5ed68fcb2b07756450ca322e3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 010/115] fix: read particle speeds in any metric system

---
 src/eprempy/datafile/_interfaces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index 494fb1b..b52181d 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -229,7 +229,8 @@ class Arrays:
     def v(self) -> physical.Array:
         """The particle speeds."""
         if self._v is None:
-            self._v = numpy.squeeze(self._create('vgrid'))
+            unit = self.system['velocity'].unit
+            self._v = numpy.squeeze(self._create('vgrid', unit=unit))
         return self._v
 
     @property
-- 
2.43.0


From cef048b55ac17039612605375165eb2a9e6b539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 011/115] fix: keep dimensionless scales and repeated bases
 when converting compound units

---
 src/eprempy/metric/_conversions.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index e312823..582ca93 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -291,10 +291,11 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
             scale, units = decomposition
             decomposed.extend(units)
             factor *= scale
+        else:
+            decomposed.append(term)
     if symbolic.expression(decomposed) == '1':
         return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
+    reduced = _reduce_terms(decomposed)
     if result := _resolve_terms(reduced):
         return factor * result
 
@@ -323,30 +324,9 @@ def _reduce_unit(base: str, exponent: numbers.Real):
         return reduction.scale**exponent, units
 
 
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
-
-
 def _resolve_terms(terms: typing.List[symbolic.Term]):
     """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
-    if len(terms) <= 1:
-        # We require at least two terms for a ratio.
+    if not terms:
         return
     factor = 1.0
     matched = []
-- 
2.43.0


From 14a136aa76dd322ba77072e5a345424f74438a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 012/115] fix: find defined conversions regardless of how the
 unit is spelled

---
 src/eprempy/metric/_conversions.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 582ca93..5fed996 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -3,6 +3,7 @@ Internal support for unit conversions.
 """
 
 import contextlib
+import functools
 import numbers
 import typing
 
@@ -273,15 +274,34 @@ def _get_aliases_of(unit: str):
     """Build a list of possible variations of this unit string.
     
     The aliases of `unit` comprise the given string, as well as the canonical
-    name and symbol of the corresponding named unit, if one exists.
+    name and symbol of the corresponding named unit, if one exists, or otherwise
+    the equivalent spelling in the defined conversions, if one exists.
     """
     built = [unit]
     if unit in _reference.NAMED_UNITS:
         known = _defined.NamedUnit(unit)
         built.extend([known.symbol, known.name])
+    elif found := _get_compound_nodes().get(_compute_spelling_key(unit)):
+        built.append(found)
     return built
 
 
+@functools.lru_cache(maxsize=None)
+def _get_compound_nodes() -> typing.Dict[typing.Tuple[str, ...], str]:
+    """Map order-independent keys to compound units in `CONVERSIONS`."""
+    return {
+        _compute_spelling_key(node): node
+        for node in _reference.CONVERSIONS.nodes
+        if node not in _reference.NAMED_UNITS
+    }
+
+
+@functools.lru_cache(maxsize=None)
+def _compute_spelling_key(unit: str) -> typing.Tuple[str, ...]:
+    """Compute a key that is common to all spellings of `unit`."""
+    return tuple(sorted(str(term) for term in symbolic.expression(unit).terms))
+
+
 def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
     """Attempt to compute a conversion via unit dimensions."""
     factor = 1.0
-- 
2.43.0


From 9ddea64501fa550745f96c96e331c0f69a6dde95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 013/115] fix: express cgs displacement in cgs base units

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 7fabcea..a3e96a8 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
-- 
2.43.0


From b0be9fcca86bfa4d321afd715b933bd4d56fb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 014/115] fix: use the defined speed of light in the
 permittivity conversion

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index a3e96a8..1d5982d 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -801,7 +801,7 @@ _CONVERSIONS = {
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
     ('H / m', '1'): 1e7 / (4*PI),
-    ('F / m', '1'): 36*PI * 1e9,
+    ('F / m', '1'): 4*PI * C**2 * 1e-11,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
-- 
2.43.0


From 41923df7c9d2565368086b181d767aadd39b32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 015/115] fix: recognize unit names that contain spaces on
 first use

---
 src/eprempy/metric/_units.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..d1215a8 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -407,8 +407,12 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     if available := _units.get(string):
         # If the argument maps to an existing unit, return that unit.
         return available
-    # First time through: create a symbolic expression from `arg`.
-    expression = symbolic.expression(arg)
+    # First time through: create a symbolic expression from `arg`. If `arg` is
+    # the name of a unit, use its symbol because a name may contain spaces.
+    try:
+        expression = symbolic.expression(_defined.NamedUnit(string).symbol)
+    except _exceptions.UnitParsingError:
+        expression = symbolic.expression(arg)
     # The canonical string representation of this unit is the expression
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
-- 
2.43.0


From bceeff35c469a5ff17b85b464003e3d8debbe2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 016/115] fix: keep rational powers of symbolic expressions
 exact

---
 src/eprempy/symbolic/_expression.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..9726f28 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -215,9 +215,10 @@ class Expression(collections.abc.Sequence):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to a rational number, so that rational
+        powers are exact.
         """
-        exp = float(exp)
+        exp = fractions.Fraction(exp)
         if not exp:
             return NotImplemented
         terms = [pow(term, exp) for term in self]
-- 
2.43.0


From c8a651d9e649d3abbbdcd544ca8d87d0a3529679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 017/115] fix: keep rational constants in symbolic expressions
 exact

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 9f0671a..c922048 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -462,7 +462,7 @@ class OperandFactory(_part.Factory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return _part.Match(
-            result=term_factory(coefficient=float(coefficient)),
+            result=term_factory(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From 4954c6e5ecbf472341ff27b9d8e4136c19f94b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 018/115] fix: distribute the unit over numeric strings when
 parsing measurables

---
 src/eprempy/quantity/_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..78e396a 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -224,16 +224,17 @@ def parse(x, /, distribute: bool=False):
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
+                return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
+            values = [float(arg) for arg in unwrapped]
+            return parse(values, distribute=distribute)
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
         except ValueError as err:
             raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
+        return parse([*values, unwrapped[-1]], distribute=distribute)
 
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-- 
2.43.0


From 5e35abb8b4775aa6cdb98206826e3b142a0eff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 019/115] fix: keep the accumulated scale of converted physical
 arrays

---
 src/eprempy/physical/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..d3b1f1b 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -88,7 +88,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
@@ -153,7 +153,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 41ff3a1826f8d2cc1831aecbd3f6737f26c5a1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 020/115] fix: pass each array operand to numpy universal
 functions

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/real/_array.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..67dca9e 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -628,7 +628,7 @@ class Array(Quantity[DataType], Operators):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..ea4f4bd 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -52,7 +52,7 @@ class Array(numeric.Array[T], base.abc.Real):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From d171888921ca18b06615d474e0e88a794bb1e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 021/115] fix: subscript arrays with any mix of integers,
 slices and index sequences

---
 src/eprempy/numeric/_array.py  | 6 +++---
 src/eprempy/numeric/_index.py  | 2 +-
 src/eprempy/physical/_array.py | 1 +
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 67dca9e..a4da29a 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -388,15 +388,15 @@ class Array(Quantity[DataType], Operators):
                     self._get_axis_size(i, v)
                     for i, v in enumerate(indices)
                 ]
-                return array.reshape(shape)
+                return array.reshape(*shape, *self.shape[len(shape):])
         return array
 
     def _get_axis_size(self, i: int, v):
         """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
+        if isinstance(v, typing.SupportsIndex):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..b20e143 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(shape[i])[arg])
         elif isintegral(arg):
             indices.append((arg,))
         else:
diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index d3b1f1b..7a4dc24 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -67,6 +67,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
 
     def __getitem__(self, args, /):
         idx = numeric.index.expand(self.ndim, args)
+        idx = (*idx, *([slice(None)] * (self.ndim - len(idx))))
         data = self.data[idx]
         axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
         return self.spawn(data, unit=self.unit, axes=axes)
-- 
2.43.0


From c179cbf6ef99445f42f27a87618a1e7d305bb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 022/115] fix: look up points in axes created from ranges and
 lists

---
 src/eprempy/physical/_axes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..39c2c1e 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -459,7 +459,7 @@ def _map_axes(*args, **kwargs):
             if dimensions is None:
                 # Create axes from default dimensions and the given shape.
                 return {
-                    f'x{i}': _axis.Points(range(n))
+                    f'x{i}': _axis.Points(numpy.arange(n))
                     for i, n in enumerate(shape)
                 }
             # Make sure number of dimensions == length of shape.
@@ -471,7 +471,7 @@ def _map_axes(*args, **kwargs):
                 ) from None
             # Create axes from the given shape and dimensions.
             return {
-                k: _axis.Points(range(n)) for k, n in zip(dimensions, shape)
+                k: _axis.Points(numpy.arange(n)) for k, n in zip(dimensions, shape)
             }
         if dimensions is not None:
             # We're here because we can't create axes from dimensions without
@@ -494,7 +494,7 @@ def _map_axes(*args, **kwargs):
         ) from None
     if not kwargs and etc.allisinstance(numbers.Integral, *args):
         # Create axes from one or more axis lengths.
-        return {f'x{i}': _axis.Points(range(n)) for i, n in enumerate(args)}
+        return {f'x{i}': _axis.Points(numpy.arange(n)) for i, n in enumerate(args)}
     raise TypeError(
         f"Cannot create axes from {etc.strargs(*args, **kwargs)}"
     ) from None
@@ -518,10 +518,10 @@ def _convert_to_axis(arg):
     if all(isinstance(x, str) for x in arg):
         return _axis.Symbols(arg)
     if all(isinstance(x, numbers.Integral) for x in arg):
-        return _axis.Points(arg)
+        return _axis.Points(numpy.array(arg))
     m = quantity.measure(arg)
     if m.unit == '1' and all(isinstance(x, numbers.Integral) for x in m):
-        return _axis.Points(m)
+        return _axis.Points(numpy.array(m))
     return _axis.Coordinates(m)
 
 
-- 
2.43.0


From 41a19dbeb142cd2d3edb2e6bf7ca740431d26a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 023/115] fix: broadcast singular axes when multiplying arrays

---
 src/eprempy/numeric/_array.py |  9 +++++++--
 src/eprempy/physical/_axes.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index a4da29a..db94ffb 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -799,8 +799,13 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    def indices(x: Array):
+        # NOTE: A singular axis only has one valid index, regardless of the
+        # length of the corresponding axis in the maximal shape.
+        meshes = [(idxmesh[dimensions.index(d)], n) for d, n in x.shapemap.items()]
+        return tuple(numpy.zeros_like(m) if n == 1 else m for m, n in meshes)
+    idxa = indices(a)
+    idxb = indices(b)
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 39c2c1e..8ab1a16 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -180,7 +180,15 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         except container.MergeError as err:
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
-        mapping = {k: other[k] if k in other else self[k] for k in keys}
+        mapping = {}
+        for k in keys:
+            if k not in other:
+                mapping[k] = self[k]
+            elif k in self and len(other[k]) == 1 < len(self[k]):
+                # Prefer the full axis over its singular counterpart.
+                mapping[k] = self[k]
+            else:
+                mapping[k] = other[k]
         return Axes(mapping)
 
     def copy(self):
-- 
2.43.0


From 09f63033045a2a5572b51ca9d3e7dbbe7bfe4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 024/115] fix: reduce arrays by minimum and maximum, over any
 axes

---
 src/eprempy/physical/_operations.py | 10 +++---
 src/eprempy/real/_array.py          | 53 ++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 22 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..60d05b5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -549,7 +549,7 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
 def npmin(x: Measured[real.ValueType], **kwargs):
     """Compute the minimum value of `x`."""
     data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -562,7 +562,7 @@ def npmin(x: Measured[real.ValueType], **kwargs):
 def npmax(x: Measured[real.ValueType], **kwargs):
     """Compute the maximum value of `x`."""
     data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -575,7 +575,7 @@ def npmax(x: Measured[real.ValueType], **kwargs):
 def mean(x: Measured[real.ValueType], **kwargs):
     """Compute the mean of `x`."""
     data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -588,7 +588,7 @@ def mean(x: Measured[real.ValueType], **kwargs):
 def sum(x: Measured[real.ValueType], **kwargs):
     """Compute the sum of `x`."""
     data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -616,7 +616,7 @@ def cumsum(x: Measured[real.ValueType], **kwargs):
       implementation.
     """
     data = numpy.cumsum(x.data, **kwargs)
-    if isinstance(x, (Scalar, Vector)) or 'axis' not in kwargs:
+    if isinstance(x, (Scalar, Vector)) or kwargs.get('axis') is None:
         return vector_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ea4f4bd..0a1a6c6 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -281,34 +281,53 @@ def squeeze(x: Array[ValueType], **kwargs):
     data = numpy.squeeze(x.array, **kwargs)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    axis = kwargs.get('axis')
+    if axis is None:
+        dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    else:
+        dimensions = _remove_axes(x.dimensions, axis)
     return array_factory(data, dimensions=dimensions)
 
 
-@Array.implements(numpy.mean)
-def mean(x: Array[ValueType], **kwargs):
-    """Compute the mean of the underlying array."""
-    data = x.array.mean(**kwargs)
+def _remove_axes(dimensions, axis):
+    """Remove the dimension(s) corresponding to `axis`."""
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    removed = [ax % len(dimensions) for ax in axes]
+    return [d for i, d in enumerate(dimensions) if i not in removed]
+
+
+def _reduce(x: Array[ValueType], data, **kwargs):
+    """Create the result of reducing `x` to `data`."""
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    ax = axis % x.ndim
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return array_factory(data, dimensions=_remove_axes(x.dimensions, axis))
+
+
+@Array.implements(numpy.min)
+def npmin(x: Array[ValueType], **kwargs):
+    """Compute the minimum of the underlying array."""
+    return _reduce(x, x.array.min(**kwargs), **kwargs)
+
+
+@Array.implements(numpy.max)
+def npmax(x: Array[ValueType], **kwargs):
+    """Compute the maximum of the underlying array."""
+    return _reduce(x, x.array.max(**kwargs), **kwargs)
+
+
+@Array.implements(numpy.mean)
+def mean(x: Array[ValueType], **kwargs):
+    """Compute the mean of the underlying array."""
+    return _reduce(x, x.array.mean(**kwargs), **kwargs)
 
 
 @Array.implements(numpy.sum)
 def sum(x: Array[ValueType], **kwargs):
     """Compute the sum of the underlying array."""
-    data = x.array.sum(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        return data
-    if 'keepdims' in kwargs:
-        return array_factory(data, dimensions=x.dimensions)
-    ax = x.ndim + axis if axis < 0 else axis
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return _reduce(x, x.array.sum(**kwargs), **kwargs)
 
 
 @Array.implements(numpy.cumsum)
-- 
2.43.0


From 276ab8df30496e349e35a9408c4806fc7da44f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 025/115] fix: include the unit of sample points in trapezoidal
 integrals

---
 src/eprempy/physical/_operations.py | 36 +++++++++++++++++++++--------
 src/eprempy/real/_array.py          | 10 ++++----
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 60d05b5..9eeab9f 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -679,18 +679,36 @@ def _apply_gradient(unit, x, *args, **kwargs):
 
 @Array.implements(numpy.trapz)
 @from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+def trapz(a: Measured[real.ValueType], *args, **kwargs):
+    """Integrate `a` via the composite trapezoidal rule.
+
+    Notes
+    -----
+    - The unit of the result is the unit of `a` times the unit of the sample
+      points or of the spacing between them, if any.
+    """
+    if isinstance(a, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
+    unit = a.unit
+    points = args[0] if args else kwargs.get('x')
+    spacing = kwargs.get('dx')
+    if isinstance(points, Measured):
+        unit *= points.unit
+    elif points is None and isinstance(spacing, Measured):
+        unit *= spacing.unit
+    args = [numpy.array(x) if isinstance(x, Measured) else x for x in args]
+    kwargs = {
+        k: numpy.array(x) if isinstance(x, Measured) else x
+        for k, x in kwargs.items()
+    }
+    if isinstance(spacing, Scalar):
+        kwargs['dx'] = float(spacing)
+    data = numpy.trapz(a.data, *args, **kwargs)
     if isinstance(data, (numbers.Real, numpy.number)):
         return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+    metadata = {'unit': unit}
+    if isinstance(a, Array):
+        metadata['axes'] = {d: a.axes[d] for d in data.dimensions}
     return numeric.Result(data, **metadata)
-
-
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 0a1a6c6..1f84f86 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -383,15 +383,15 @@ def _apply_gradient(
 
 
 @Array.implements(numpy.trapz)
-def trapz(x: Array[ValueType], *args, **kwargs):
+def trapz(a: Array[ValueType], *args, **kwargs):
     """Integrate the array via the composite trapezoidal rule."""
-    data = numpy.trapz(x.array, *args, **kwargs)
+    data = numpy.trapz(a.array, *args, **kwargs)
     axis = kwargs.get('axis')
     if axis is None:
-        dimensions = x.dimensions[:-1]
+        dimensions = a.dimensions[:-1]
     else:
-        ax = axis % x.ndim
-        dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+        ax = axis % a.ndim
+        dimensions = [d for d in a.dimensions if a.dimensions.index(d) != ax]
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From c5cd3af478238c3f577aa88a213d597661249569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 026/115] fix: fill any singular axis whose value the full axis
 contains

---
 src/eprempy/physical/_axes.py | 2 +-
 src/eprempy/physical/_axis.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 8ab1a16..b64eb32 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -147,7 +147,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return NotImplemented
         if self.keys() != other.keys():
             raise ValueError(
-                f"Cannot fill {a} from {b} with different dimensions"
+                f"Cannot fill {self} from {other} with different dimensions"
             ) from None
         new = {}
         for key in self:
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..2eec26c 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -82,7 +82,8 @@ class Axis(numeric.Object[T]):
         """Called for x in self."""
         if isinstance(__x, Axis) and len(__x) == 1:
             with contextlib.suppress(Exception):
-                return self.index(__x) in self.indices
+                self.index(*__x)
+                return True
         return __x in self.data
 
     def __getitem__(self, __i):
-- 
2.43.0


From 689438186429c16a4cb5637931dbd2ddff517dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 027/115] fix: accept the number of digits when rounding a
 scalar

---
 src/eprempy/numeric/_implementation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_implementation.py b/src/eprempy/numeric/_implementation.py
index b04956c..3db8114 100644
--- a/src/eprempy/numeric/_implementation.py
+++ b/src/eprempy/numeric/_implementation.py
@@ -37,9 +37,9 @@ class Customizable(typing.Protocol):
 def unary(operation: typing.Union[str, typing.Callable]):
     """Implement a unary numeric operation."""
     f = resolve(operation)
-    def operator(self, **kwargs):
+    def operator(self, *args, **kwargs):
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, self, **kwargs)
+            return self.__object_operator__(f, self, *args, **kwargs)
         return NotImplemented
     return operator
 
-- 
2.43.0


From 46fd1777b9d286cf8e7e169c565d17affc933d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 028/115] fix: compute the symmetric difference of array
 dimensions

---
 src/eprempy/numeric/_array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index db94ffb..3b3ab30 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -119,7 +119,7 @@ class Dimensions(collections.abc.Sequence):
         """Called for other - self."""
         if isinstance(other, Dimensions):
             return dimensions_factory(*[n for n in other if n not in self])
-        raise NotImplemented
+        return NotImplemented
 
     def __or__(self, other):
         """Called for self | other."""
@@ -155,7 +155,7 @@ class Dimensions(collections.abc.Sequence):
             those = self._get_operand(other)
         except DimensionTypeError:
             return NotImplemented
-        return (self - those) | (those - self)
+        return (self - those) | [n for n in those if n not in self]
 
     def __rxor__(self, other):
         """Called for other ^ self."""
@@ -163,7 +163,7 @@ class Dimensions(collections.abc.Sequence):
             those = self._get_operand(other)
         except DimensionTypeError:
             return NotImplemented
-        return (those - self) | (self - those)
+        return [n for n in those if n not in self] | (self - those)
 
     def _get_operand(self, arg) -> typing.List[str]:
         """Return an appropriate operand for binary operations."""
-- 
2.43.0


From 5f7673a1741070b25e677b856d7d52c23648036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 029/115] fix: give unnamed arrays proper dimensions

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 3b3ab30..a1fd865 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -287,7 +287,7 @@ def dimensions_factory(*args):
     if len(args) == 1:
         arg = args[0]
         if isinstance(arg, numbers.Real):
-            return tuple(f'x{i}' for i in range(arg))
+            return Dimensions(tuple(f'x{i}' for i in range(arg)))
     unwrapped = container.unwrap(args, newtype=tuple)
     unique = container.unique(unwrapped)
     return Dimensions(_compute_names(unique))
-- 
2.43.0


From 414c2c4fb66b98fec9f2afa2271a949ef592d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 030/115] fix: find the nearest allowed value in unsorted and
 multidimensional arrays

---
 src/eprempy/container.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..e58c207 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,20 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        allowed = array >= target
+        fallback = array.size - 1 if array.ndim > 1 else -1
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        allowed = array <= target
+        fallback = 0
+    else:
+        allowed = numpy.ones(array.shape, dtype=bool)
+        fallback = 0
+    if numpy.any(allowed):
+        index = numpy.where(allowed, distance, numpy.inf).argmin()
+    else:
+        index = fallback
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 83731a2e1cbce34dbfe34ef7ad0b3225d19c2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 031/115] fix: accept index values as array subscripts and
 sequence members

---
 src/eprempy/numeric/_index.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index b20e143..45cd119 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -536,8 +536,8 @@ def _sequence_args(x, /):
         if all(isinstance(i, str) for i in x):
             with contextlib.suppress(ValueError):
                 return [int(i) for i in x]
-        if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
-            return x
+        if all(isintegral(i) or isinstance(i, Value) for i in x):
+            return [int(i) for i in x]
     if isinstance(x, numpy.ndarray) and x.dtype == int:
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
@@ -623,8 +623,8 @@ def normalize(shape: typing.Sequence[int], args):
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
             indices.append(range(shape[i])[arg])
-        elif isintegral(arg):
-            indices.append((arg,))
+        elif isintegral(arg) or isinstance(arg, Value):
+            indices.append((int(arg),))
         else:
             indices.append(arg)
     return numpy.ix_(*list(indices))
-- 
2.43.0


From 3520f07b5a8e59e648a6e8a2155aa52d6ff34be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 032/115] fix: raise index objects to powers given by an index
 sequence

---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 45cd119..62ec1a8 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From a967066c256558cecf170338d5191e16d74d919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:09 +0000
Subject: [PATCH 033/115] fix: recognise values at the ends of an axis despite
 rounding

---
 src/eprempy/numeric/_data.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From 1971c375a22dd80324fc481a0345cdecbbe64e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 034/115] fix: make an index value from an index value

---
 src/eprempy/numeric/_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 62ec1a8..653941d 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -509,6 +509,8 @@ def _value_args(x, /):
         ) from None
     if isinstance(x, (numbers.Integral, numpy.integer)):
         return x
+    if isinstance(x, Value):
+        return x.data
     if isinstance(x, (bytes, str)):
         try:
             index = int(x)
-- 
2.43.0


From c3c8d52992a2bbc046b2437c70c64bc082bc8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 035/115] fix: give equal groups of aliases equal hashes

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..071212e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From a722440470df14d01ec934ab41bd61ee6855d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 036/115] fix: merge every group that shares an alias

---
 src/eprempy/aliased.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 071212e..9b490d0 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -156,19 +156,13 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not merged.isdisjoint(g)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.get(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         for i in __x:
-- 
2.43.0


From 226dd5e93aaed96c2557b10d459262577eb69b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 037/115] fix: merge overlapping keys of aliased mappings

---
 src/eprempy/aliased.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 9b490d0..c8d8be8 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -299,10 +299,11 @@ def _build_from_aliases(
     """Build a `dict` that maps aliased keys to user values."""
     out = {}
     for key, value in mapping.items():
-        try:
-            aliased_key = next(k for k in out if key in k)
-        except StopIteration:
-            aliased_key = Group(key)
+        aliased_key = Group(key)
+        for found in [k for k in out if not aliased_key.isdisjoint(k)]:
+            aliased_key = found | aliased_key
+            if found != aliased_key:
+                del out[found]
         out[aliased_key] = value
     return out
 
-- 
2.43.0


From 7e499d6262c104c4449f50a96345282b3f3a8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 038/115] fix: subscript the axes of the flow angle

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..4192357 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From a7703390091d5db068a2a4c27467758db32b935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 039/115] fix: observe exactly the requested shells

---
 src/eprempy/observable/_objects.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..477d7ce 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -471,10 +471,17 @@ class Quantity:
         shell = axes.get('shell', slice(None))
         if isinstance(shell, slice):
             return 'shell', shell
-        s = quantity.measure(shell)
-        if not quantity.isindexlike(s) and s.unit.quantity == 'length':
-            return 'radius', physical.coordinates(s)
-        return 'shell', physical.points(numpy.array(s))
+        if not quantity.isindexlike(shell):
+            s = quantity.measure(shell)
+            if s.unit.quantity == 'length':
+                return 'radius', physical.coordinates(s)
+            raise TypeError(
+                f"Cannot interpret {shell!r} as a shell or a radius"
+            ) from None
+        # Convert the given indices to the equivalent canonical indices, in
+        # order to ensure that they are valid.
+        indices = self.context.axes['shell'].indices
+        return 'shell', indices[numpy.array(numeric.index.sequence(shell))]
 
     def __eq__(self, other):
         """Called for self == other."""
-- 
2.43.0


From 08f7b8180e7dd3b983b3c5feb55b40a0c1a58a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:26 +0000
Subject: [PATCH 040/115] fix: observe nothing when an empty range is requested

---
 src/eprempy/observable/_interfaces.py | 30 ++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 4192357..b03c277 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -99,27 +99,27 @@ class Implementations:
 
     def time(self, time=None) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self.dataset.time[_normalize_indices(_index(time))]
 
     def energy(self, energy=None) -> physical.Array:
         """Compute the particle energies."""
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self.dataset.energy[_normalize_indices(_index(energy))]
 
     def v(self, energy=None) -> physical.Array:
         """Compute the particle speeds."""
-        return self.dataset.v[_normalize_indices(energy or slice(None))]
+        return self.dataset.v[_normalize_indices(_index(energy))]
 
     def mu(self, mu=None) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self.dataset.mu[_normalize_indices(_index(mu))]
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
-        return self.dataset.mass[_normalize_indices(species or slice(None))]
+        return self.dataset.mass[_normalize_indices(_index(species))]
 
     def charge(self, species=None) -> physical.Array:
         """Compute the charge of each species."""
-        return self.dataset.charge[_normalize_indices(species or slice(None))]
+        return self.dataset.charge[_normalize_indices(_index(species))]
 
     ## -- primary observable quantities --
     # Each method accepts only the indices corresponding to the dataset
@@ -902,10 +902,8 @@ class Implementations:
     ) -> physical.Array:
         """Subscript the array based on user indices."""
         # Each value represents the user-provided indices, if available, or a
-        # full slice. The use of `user.indices.get(d) or slice(None)` instead of
-        # `user.indices.get(d, slice(None))` forces a slice even if
-        # `user.indices[d] == None`.
-        axes = tuple(indices.get(d) or slice(None) for d in x.dimensions)
+        # full slice if `indices[d]` does not exist or is `None`.
+        axes = tuple(_index(indices.get(d)) for d in x.dimensions)
         return x[_normalize_indices(*axes)]
 
     def _interpolate(
@@ -931,10 +929,9 @@ class Implementations:
         ]
         axes = tuple(
             # Each value represents the user-provided indices, if available, or
-            # the default indices for the corresponding dimension of `x`. The
-            # use of `user.indices.get(d) or i` instead of `user.indices.get(d,
-            # i)` forces the default value even if `user.indices[d] == None`.
-            i if d in finished else indices.get(d) or i
+            # the default indices for the corresponding dimension of `x` if
+            # `indices[d]` does not exist or is `None`.
+            i if d in finished else _index(indices.get(d), i)
             for d, i in default.items()
         )
         return base[_normalize_indices(*axes)]
@@ -1032,6 +1029,11 @@ class Implementations:
         return self._grid
 
 
+def _index(x, default=slice(None)):
+    """Replace `x` with a default index only if it is `None`."""
+    return default if x is None else x
+
+
 def _normalize_indices(*args):
     """Normalize array-indexing objects."""
     if all(isinstance(v, numeric.index.Value) for v in args):
-- 
2.43.0


From 008d1c194a303c0b6d00c9e3f4664f3287cc1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 041/115] fix: combine arrays with an empty dimension

---
 src/eprempy/numeric/_array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index a1fd865..060c50e 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -780,7 +780,7 @@ def remesh(a: Array, b: Array):
     for d in dimensions:
         adim = a.shapemap.get(d, 1)
         bdim = b.shapemap.get(d, 1)
-        if adim > 1 and bdim > 1 and adim != bdim:
+        if adim != 1 and bdim != 1 and adim != bdim:
             # NOTE: This acts like the `ValueError` raised when attempting
             # to broadcast two `numpy` arrays with inconsistent shapes.
             raise ValueError(
@@ -794,11 +794,12 @@ def remesh(a: Array, b: Array):
         # NOTE: This creates the maximal shape in order to handle cases in
         # which the input arrays have matching dimensions but one array is
         # singular. The previous implementation would always overwrite the
-        # size of matching dimensions in `a` with those of `b`.
-        max(a.shapemap.get(d, 1), b.shapemap.get(d, 1))
+        # size of matching dimensions in `a` with those of `b`. An empty
+        # dimension remains empty.
+        a.shapemap.get(d, 1) if b.shapemap.get(d, 1) == 1 else b.shapemap[d]
         for d in dimensions
     )
-    idxmesh = numpy.ix_(*[range(i) for i in shape])
+    idxmesh = numpy.ix_(*[numpy.arange(i) for i in shape])
     def indices(x: Array):
         # NOTE: A singular axis only has one valid index, regardless of the
         # length of the corresponding axis in the maximal shape.
-- 
2.43.0


From d5e1a0ba23dad3f61ac59978a74ff3f0e834fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 042/115] fix: interpolate over radius at the original times

---
 src/eprempy/observable/_interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index b03c277..40ceb24 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -949,7 +949,9 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: Radial interpolation needs the original times because the radius
+        # of each shell may depend on time.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
-- 
2.43.0


From 53bab142c5d14004764bc39239c9c7b6ae086520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 043/115] fix: interpolate to radii given in any unit of length

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 40ceb24..62e4c2b 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -991,7 +991,7 @@ class Implementations:
         except StopIteration:
             return interpolants
         if value := assumptions.get(key):
-            m = quantity.measure(value).withunit(str(self.system))
+            m = quantity.measure(value).withunit(c.unit)
             for v in m:
                 _check_interpolation_bounds(name, v, a)
             interpolants[key] = Interpolant(
-- 
2.43.0


From ea883fe93a6b456e3866fde1b916d98cec7e457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 044/115] fix: interpolate to values at the bounds of the
 reference

---
 src/eprempy/observable/_interfaces.py | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 62e4c2b..6b0863d 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1055,7 +1055,12 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    x = float(value)
+    if not (
+        float(a) <= x <= float(b)
+        or _isclose(float(a), x)
+        or _isclose(float(b), x)
+    ):
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
@@ -1978,13 +1983,12 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
     ndim = reference.ndim
     if ndim == 2:
-        interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
-        return numpy.array([interp(target) for interp in interps])
+        return numpy.array([
+            _apply_interp1d(y, x, target)
+            for x, y in zip(reference, array)
+        ])
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
@@ -1994,7 +1998,19 @@ def _apply_interp1d(
         # definition. Squeezing does not necessarily work because there may be
         # other singular dimensions.
         return array[0]
+    if target in reference:
+        idx = container.nearest(reference, target).index
+        return array[idx]
+    for end in (numpy.argmin(reference), numpy.argmax(reference)):
+        # Converting the target may have moved it just beyond the reference.
+        if _isclose(reference[end], target):
+            return array[end]
     interp = interp1d(reference, array, axis=0)
     return interp(target)
 
 
+def _isclose(a: float, b: float) -> bool:
+    """True if two values are equal to within rounding error."""
+    return bool(numpy.isclose(a, b, rtol=1e-12, atol=0.0))
+
+
-- 
2.43.0


From e19270761c28a0bbc0330ca8285bf62af16572c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 045/115] fix: give observed times, energies, and pitch angles
 their own axes

---
 src/eprempy/observable/_interfaces.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6b0863d..10ffb0f 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1165,11 +1165,8 @@ class Quantities(collections.abc.Mapping):
         if 'time' in user:
             unit = self.dataset.time.unit
             data = numpy.array(user['time'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.time.axes,
-            )
+            axis = physical.coordinates(measured.sequence(data, unit=unit))
+            return physical.array(data, unit=unit, axes={'time': axis})
         return self.functions.time(time=user.time)
 
     @property
@@ -1186,11 +1183,8 @@ class Quantities(collections.abc.Mapping):
         if 'energy' in user:
             unit = self.dataset.energy.unit
             data = numpy.array(user['energy'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.energy.axes,
-            )
+            axis = physical.coordinates(measured.sequence(data, unit=unit))
+            return physical.array(data, unit=unit, axes={'energy': axis})
         return self.functions.energy(energy=user.energy)
 
     @property
@@ -1224,11 +1218,8 @@ class Quantities(collections.abc.Mapping):
         if 'mu' in user:
             unit = self.dataset.mu.unit
             data = numpy.array(user['mu'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.mu.axes,
-            )
+            axis = physical.coordinates(measured.sequence(data, unit=unit))
+            return physical.array(data, unit=unit, axes={'mu': axis})
         return self.functions.mu(mu=user.mu)
 
     @property
-- 
2.43.0


From 80008c42d78a887d7632a50749175c0434f6d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 046/115] fix: compute rigidity and mean free path at the
 requested energies

---
 src/eprempy/observable/_interfaces.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 10ffb0f..cd06693 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -472,6 +472,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -485,7 +486,7 @@ class Implementations:
         return self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self._observe(self.dataset.energy, assumptions, energy=energy),
         )
 
     def _compute_rigidity(
@@ -525,7 +526,7 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self._observe(self.dataset.energy, assumptions, energy=energy)
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
@@ -1620,6 +1621,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From 3f16aa91dace4ef3d93ae5b131052a155d030bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 047/115] fix: integrate flux from energies that differ from
 the grid by rounding

---
 src/eprempy/observable/_interfaces.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index cd06693..0ce7523 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -863,6 +863,11 @@ class Implementations:
                 f"The length of the final dimension of the interpolant ({m})"
                 f" must equal the length of the coordinate array ({n})"
             ) from None
+        # Interpolating to a point that differs from a known point only by
+        # rounding error would make the integral numerically unstable.
+        i0 = int(numpy.argmin(numpy.abs(xarr - p)))
+        if i0 < n-1 and _isclose(xarr[i0], p):
+            return yarr[..., i0:], xarr[i0:]
         i0, x0 = container.nearest(xarr, p, bound='upper')
         try:
             lnxc = numpy.log(xarr[i0+1] / x0)
-- 
2.43.0


From 3d2ffa58cd05d3a5538c673692a5f8bc1eb67062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 048/115] fix: list only the quantities that are observable

---
 src/eprempy/observable/_interfaces.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0ce7523..e295679 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1794,6 +1794,7 @@ class Quantities(collections.abc.Mapping):
             self._defined = [
                 alias
                 for k in self.functions.definitions
+                if k in reference.OBSERVABLES.names
                 for alias in reference.OBSERVABLES.aliases.get(k, [k])
             ]
         return self._defined
-- 
2.43.0


From 6c5ec25311a97f8d08e5a0b01d42fea8f1002823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 049/115] fix: observe powers of observable quantities

---
 src/eprempy/observable/_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 477d7ce..b6edc25 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -567,7 +567,8 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            b = other[user] if isinstance(other, Quantity) else other
+            return operator(self[user], b)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From d0c4ba81f108f20fc97ce01c0e455cd5142fecb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:39 +0000
Subject: [PATCH 050/115] fix: compute the perpendicular velocity of aligned
 fields

---
 src/eprempy/observable/_interfaces.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index e295679..01cd0e4 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -405,9 +405,14 @@ class Implementations:
         umag = self.umag(time, shell, assumptions)
         upara = self.upara(time, shell, assumptions)
         uperpsqr = umag**2 - upara**2
+        # Rounding may make this very slightly negative when U is along B.
+        arg = numpy.array(uperpsqr)
+        arg[arg < 0.0] = 0.0
         # NOTE: Intermediate methods have already restricted the result via
         # subscription or interpolation.
-        return numpy.sqrt(uperpsqr)
+        return numpy.sqrt(
+            physical.array(arg, unit=uperpsqr.unit, axes=uperpsqr.axes)
+        )
 
     def upara(
         self,
-- 
2.43.0


From 63b07c430c8751f933b0bc621d0112336bbbda7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 051/115] fix: raise physical arrays to fractions as numbers

---
 src/eprempy/physical/_operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 9eeab9f..9455597 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -1,4 +1,5 @@
 import contextlib
+import fractions
 import numbers
 import typing
 
@@ -397,10 +398,12 @@ def exponential(f, a, b, **kwargs):
         return numeric.Result(f(a.data, b.data, **kwargs), unit='1')
     if isinstance(a, Measured) and isinstance(b, numbers.Real):
         unit = f(a.unit, b)
+        # NumPy would raise each value to a fraction as a Python object.
+        p = float(b) if isinstance(b, fractions.Fraction) else b
         if isinstance(a, Array):
-            data = f(a.data.array, b, **kwargs)
+            data = f(a.data.array, p, **kwargs)
             return array_factory(data, unit=unit, axes=a.axes)
-        return numeric.Result(f(a.data, b, **kwargs), unit=unit)
+        return numeric.Result(f(a.data, p, **kwargs), unit=unit)
     if isinstance(a, (numbers.Real, numpy.ndarray)) and isinstance(b, Measured):
         if isinstance(b, Array):
             return f(a, b.data.array, **kwargs)
-- 
2.43.0


From 93673d42237e29774817c67965e86b29b9c1f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 052/115] fix: key observers by their full identifiers

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..f51d10c 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -413,7 +413,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes | Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem[len(prefix):]
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From b512d5ec19ede1eeee98d6e63fa654a5e07e8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 053/115] fix: find configuration files named by paths

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index f51d10c..fd5039a 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -480,7 +480,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / this if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From 125972208eef6ab65b20bd89fce6b17435e1bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 054/115] fix: choose among observer files in a fixed order

---
 src/eprempy/eprem.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index fd5039a..5d34dd5 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -143,7 +143,7 @@ ObserverType = typing.TypeVar('ObserverType', bound=Observer)
 class Stream(Observer):
     """An EPREM stream observer."""
 
-    prefixes = {'stream', 'obs', 'flux'}
+    prefixes = ('stream', 'obs', 'flux')
 
     @classmethod
     def patterns(cls, __id: int) -> typing.List[str]:
@@ -174,7 +174,7 @@ class Stream(Observer):
 class Point(Observer):
     """An EPREM point observer."""
 
-    prefixes = {'point', 'p_obs'}
+    prefixes = ('point', 'p_obs')
 
     @classmethod
     def patterns(cls, __id: typing.Union[str, int]) -> typing.List[str]:
@@ -258,14 +258,8 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
-        return _create_observer(Stream, patterns, config, source, system)
-    patterns = []
-    with contextlib.suppress(ValueError):
-        patterns.append(f'p_obs{int(__id):03}.*')
-    if isinstance(__id, str):
-        patterns.append(f'{__id}.*')
-    return _create_observer(Point, tuple(patterns), config, source, system)
+        return stream(__id, config, source, system)
+    return point(__id, config, source, system)
 
 
 def stream(
@@ -346,7 +340,7 @@ class Dataset:
         if self._streams is None:
             obspaths = [
                 path
-                for prefix in Stream.prefixes
+                for prefix in reversed(Stream.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -362,7 +356,7 @@ class Dataset:
         if self._points is None:
             obspaths = [
                 path
-                for prefix in Point.prefixes
+                for prefix in reversed(Point.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -410,7 +404,7 @@ class Dataset:
 def _get_observer_id(path: pathlib.Path):
     """Compute the appropriate observer ID for the given path."""
     stem = path.stem
-    prefixes = Stream.prefixes | Point.prefixes
+    prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
             key = stem[len(prefix):]
-- 
2.43.0


From d14118ab398e4a82fbad60a3dbc5d9deadbf2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 055/115] fix: parse configuration files with blank lines and
 values that contain equals signs

---
 src/eprempy/parameter/_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..76288ab 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -257,7 +257,9 @@ def _parse_config(
             if line == '' or line == '\n' or line[0] in cmnt:
                 continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if not tmp:
+                continue
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From 9cd3f083977870b5d3feb965214e52c807d32b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 056/115] fix: compare configuration files given by paths

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 76288ab..0bc5b1b 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -208,7 +208,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From ff5c72fd23ff6823ebe65a8c458d0bbe78177edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 057/115] fix: evaluate default values that are zero

---
 src/eprempy/parameter/_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 0bc5b1b..9d13d54 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -49,7 +49,7 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        if (value := cast(current, strict=False)) is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -72,7 +72,7 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        if (result := self._compute_sum(definition)) is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
-- 
2.43.0


From 1aea73e4c6f613e29f3bb0c890997b5a33a85438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 058/115] fix: derive default parameter values from the given
 values

---
 src/eprempy/parameter/_config.py  | 7 ++++++-
 src/eprempy/parameter/_runtime.py | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 9d13d54..4105082 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -18,13 +18,18 @@ from . import _src
 class Defaults(collections.abc.Mapping):
     """Default parameter values."""
 
-    def __init__(self, srcdir: paths.PathLike) -> None:
+    def __init__(
+        self,
+        srcdir: paths.PathLike,
+        given: typing.Optional[typing.Mapping[str, typing.Any]]=None,
+    ) -> None:
         self._basetypes = _src.BaseTypesH(srcdir=srcdir)
         self._reference = _src.ConfigurationC(srcdir=srcdir)
         self._mapping = {
             key: _convert(parameter['defaultVal'], parameter['type'])
             for key, parameter in self.reference.items()
         }
+        self._mapping.update(given or {})
 
     def __iter__(self) -> typing.Iterator[str]:
         """Called for iter(self)."""
diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index f2efe0d..bc0ee8e 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -223,6 +223,12 @@ def interface_factory(*args, **kwargs):
             for key, parameter in defaults.reference.items()
             if key in cfgfile
         }
+        # NOTE: some default values depend on the values of other parameters.
+        given = {
+            key: value for key, value in user.items()
+            if isinstance(value, defaults.reference[key]['type'])
+        }
+        init.update(_config.Defaults(srcinit, given))
         init.update(user)
     base = {
         key: {'unit': _metadata.UNITS.get(key), 'value': value}
-- 
2.43.0


From 34af77bdf2b157bc184c960376480744db86a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 059/115] fix: generate configuration files that contain the
 default values

---
 src/eprempy/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..e38b1c0 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -52,16 +52,16 @@ def generate_config_file(
     verbose: bool=False,
 ) -> None:
     """Create a configuration file with default parameter values."""
-    default = parameter.interface(srcdir=source)
-    keys = sorted(parameter.ConfigurationC(source))
+    default = parameter.defaults(srcdir=source)
+    keys = sorted(default)
     header = [
         f"# EPREM default configuration file\n",
         f"# Generated at {_timestr}\n",
         f"# --------------------------------\n",
     ]
     values = [
-        f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        f"{key}={default[key]}\n"
+        for key in keys if default[key] is not None
     ]
     footer = [
         f"# --------------------------------\n",
-- 
2.43.0


From 557d84fb27a35651a18b085b20ee9cf9568d9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 060/115] fix: show each compared parameter once

---
 src/eprempy/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index e38b1c0..7a486d9 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -92,6 +92,8 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -141,7 +143,7 @@ def _build_arg_dict(
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-    built = {key: {} for key in keys}
+    built = {}
     for key in keys:
         heading = f"  {key} (default: {_format_arg_string(default[key])})  "
         current = _map_parameter(key, targets)
@@ -149,8 +151,6 @@ def _build_arg_dict(
         v0 = values[0]
         if not diff or any(vi != v0 for vi in values):
             built[heading] = current.copy()
-    if diff:
-        return {k: v for k, v in built.items() if v}
     return built
 
 
-- 
2.43.0


From 959fc389b8593331af80d2ec7bbf4ea333a7745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 061/115] fix: compare configuration files to the given source
 code

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 7a486d9..9d9aae9 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -132,14 +132,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, srcdir=source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From 6fa4239011e5e576808081b51d9c87640fa4910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 062/115] fix: create projects that run as scripts

---
 src/eprempy/project.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..d42ebed 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,13 +790,16 @@ class Interface:
             return
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
-        payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        local, absolute = 'from . import', f'from {__package__} import'
+        payload = [line.replace(local, absolute) for line in lines]
+        import_line = next(
+            i for i, line in enumerate(payload) if line.startswith(absolute)
+        )
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From f3e97ad792f016d69e9cb537154fe5e22d1fdf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 063/115] fix: use the configuration names of the project

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index d42ebed..f725b9e 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -943,7 +943,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self.root / self._attrs.inputs.name / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -952,7 +952,7 @@ class Interface:
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From 34607f91f3732f47ce92add38c22b687921e6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 064/115] fix: locate names that are not on the system path

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..55b8135 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -60,7 +60,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From 2fbd43b24c94bc9d974e7bd669301d9e805bc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 065/115] fix: rename runs that are not in the log

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index f725b9e..fd4b8df 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1002,7 +1002,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From 3c3efae8a9a87f56164a6c6c18612892f64cec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 066/115] fix: update the log and attributes of renamed
 projects

---
 src/eprempy/project.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index fd4b8df..71e5a33 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,10 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
-        self._path = new / self.name
         source = str(self.path.parent)
+        self._path = new / self.name
         for key in self:
-            self.mv(key, key.replace(source, str(new)))
+            self.mv(key, key.replace(source, str(new), 1))
         return self
 
     @typing.overload
@@ -878,6 +878,8 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        self._attrs = self._restore_project(new)
+        self._name = None
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
-- 
2.43.0


From e157d4e190604e45f9ed65708eb709861c0d8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 067/115] fix: copy the attributes of existing projects

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 71e5a33..7a41a64 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -733,7 +733,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From afb214739572d7300b699d0b8f721345f1196afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 068/115] fix: compare projects by their attributes

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7a41a64..ac7972d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1093,7 +1093,7 @@ class Interface:
     def __eq__(self, other) -> bool:
         """True if two projects have the same initializing attributes."""
         if isinstance(other, Interface):
-            return self._attrs == other._attrs
+            return self._attrs.serial == other._attrs.serial
         return NotImplemented
 
     def __str__(self) -> str:
-- 
2.43.0


From e6d4dc5c37ef5ee7bc32a3fcc1d2aee78ed594d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 069/115] fix: load log entries without the rest of the log

---
 src/eprempy/project.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index ac7972d..46f5250 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -170,13 +170,10 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of the `source` file."""
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
-            if loaded := loader(fp):
-                contents.update(loaded)
-        return contents
+            return dict(loader(fp) or {})
 
     def _source_loader(self, filetype: str):
         """Get a format-specific file-reader."""
-- 
2.43.0


From c05baa2706db018278faa9e74b587f83347173de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:29 +0000
Subject: [PATCH 070/115] fix: keep the log intact when an update fails

---
 src/eprempy/project.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 46f5250..cea06d0 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -232,8 +232,12 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
-        with self.path.open('w') as fp:
+        # NOTE: replacing the file only after successfully writing the new
+        # version protects the existing contents from interrupted updates.
+        updated = self.path.with_name(f"{self.name}.new")
+        with updated.open('w') as fp:
             json.dump(payload, fp, indent=4, sort_keys=True)
+        updated.replace(self.path)
 
     @property
     def name(self):
-- 
2.43.0


From 6e732a6722c609280995694e10071295e26bc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 071/115] fix: convert only single-valued variables to numbers

---
 src/eprempy/parameter/_runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index bc0ee8e..69cd93c 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -73,7 +73,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_scalar(self, f: typing.Callable, **kwargs):
         """Return the result of `f` as a `~Scalar`."""
         try:
-            data = f(self.data[0], **kwargs)
+            data = f(self._singular(), **kwargs)
         except TypeError as err:
             raise TypeError(
                 f"Cannot apply {f.__name__} to size-{self.size} variable"
@@ -83,7 +83,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_builtin(self, t: T):
         """Convert this instance to a built-in numeric type."""
         try:
-            result = t(self.data[0])
+            result = t(self._singular())
         except TypeError as err:
             raise TypeError(
                 f"Cannot convert a size-{self.size} variable to {t!r}"
-- 
2.43.0


From 8fec32b8a47f4fea349c35a566ca48bcd0b5211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 072/115] fix: refuse constants that depend on unknown names

---
 src/eprempy/parameter/_src.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 3b0411a..e079b5e 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -262,6 +262,8 @@ class BaseTypesH(SourceFile):
                 value *= float(term(self._compute(term.base)))
             elif term.base == '1':
                 value *= float(term)
+            else:
+                raise TypeError(f"Can't evaluate {term.base!r}") from None
         return value
 
 
-- 
2.43.0


From 9358ffa6ff14b4bc59b2fd95fe60a5dd8c653165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 073/115] fix: refuse variable indices beyond the first value

---
 src/eprempy/parameter/_runtime.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index 69cd93c..7886981 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -38,8 +38,6 @@ class Variable(physical.Vector[real.ValueType]):
           produce 0-D data.
         """
         idx = container.unwrap(args)
-        if isinstance(idx, typing.SupportsIndex) and idx < 0:
-            idx += len(self)
         data = self.data[idx]
         if container.length(data) == 0:
             return physical.scalar(data, unit=self.unit)
-- 
2.43.0


From d36f7281b97d5c38a2a8f0703598e3e7abb699f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 074/115] fix: refuse expression indices beyond the first term

---
 src/eprempy/symbolic/_expression.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9726f28..acfbfc9 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -45,10 +45,6 @@ class Expression(collections.abc.Sequence):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
             idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
             return self.terms[idx]
         if isinstance(index, slice):
             return self.terms[index]
-- 
2.43.0


From dfe1fb1d1dea03b2e0cef26b1da08974210af068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 075/115] fix: run programs whose paths contain spaces

---
 src/eprempy/project.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index cea06d0..0367fed 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -9,6 +9,7 @@ import datetime
 import json
 import os
 import pathlib
+import shlex
 import shutil
 import subprocess
 import sys
@@ -954,8 +955,10 @@ class Interface:
         eprem = paths.locate('eprem', branch, environment or {})
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
-            f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} {self._attrs.config}"
+            f"{shlex.quote(str(mpirun))} "
+            "--mca btl_base_warn_component_unused 0 "
+            f"-n {nproc or 1} "
+            f"{shlex.quote(str(eprem))} {shlex.quote(self._attrs.config)}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From 739ef82c08e867f5d69291119218a39be219118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 076/115] fix: refuse to remove runs without a name

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 0367fed..e6df5ec 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -496,7 +496,7 @@ class RunPaths(collections.abc.Collection):
             Zero or more names of runtime directories to create.
         """
         rundirs = self._get_rundirs(branches)
-        if pattern:
+        if pattern is not None:
             return [
                 path for rundir in rundirs
                 for path in rundir.glob(pattern)
-- 
2.43.0


From 2113247e1fecfe605aeb7c5ca67ab5d36041ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 077/115] fix: resolve negative bounds and steps of axis slices

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 2eec26c..158bf84 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -62,7 +62,7 @@ class Axis(numeric.Object[T]):
         if len(targets) == 1:
             target = targets[0]
             if isinstance(target, slice):
-                return container.slice2range(target, stop=len(self))
+                return range(len(self))[target]
             if isinstance(target, (list, tuple, numpy.ndarray)):
                 return target
             if container.isiterable(target):
-- 
2.43.0


From d41050b7a22228b0fb84fd232dbb22804048e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 078/115] fix: keep the positions of listed symbols

---
 src/eprempy/physical/_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 158bf84..d58e5e8 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -208,7 +208,9 @@ class Symbols(Axis[typing.List[str]]):
 
     def __getitem__(self, index, /):
         if container.isiterable(index):
-            return self.spawn([self.data[i] for i in index])
+            axis = self.spawn([self.data[i] for i in index])
+            axis._indices = numeric.index.sequence([int(i) for i in index])
+            return axis
         return super().__getitem__(index)
 
     def index(self, *targets: T):
-- 
2.43.0


From 46a7a654aa3e8162b9c4624c23e7bfe876dc869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 079/115] fix: correct the cgs value of the first radiation
 constant

---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..35723b4 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From d6f50be56f2ace18b1a5bb95091ee92daaf73a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:10 +0000
Subject: [PATCH 080/115] fix: correct the mks dimension of permittivity

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1d5982d..f44b46b 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 0a294139f3143ee9ddb447b19d9ee69e1973a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 081/115] fix: round charges to whole numbers when naming
 species

---
 src/eprempy/atomic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index 24e9a56..6bb9b1e 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -153,7 +153,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(i)) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From 0b6c10f4f7e0673b2028cfa76f9ff14aad8ba151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 082/115] fix: substitute values for subtypes of known
 exceptions

---
 src/eprempy/exceptions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d64d09c..6c7eb51 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -125,8 +125,11 @@ class Wrapper:
         try:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[t] for t in type(err).__mro__
+                if t in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From fbbea300c816fc3d0dc8a9b0ba82cbba5fbd7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:40 +0000
Subject: [PATCH 083/115] fix: keep registered objects whose names look like
 default keys

---
 src/eprempy/container.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index e58c207..1647273 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -960,8 +960,10 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
+                new_default_key = proposed
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From 33400e5c5170345c845d228dde0948d48197f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 084/115] fix: find units of dimensions spelled in any way

---
 src/eprempy/metric/_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index c64a25e..1f2065b 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -334,8 +334,9 @@ class System(collections.abc.Mapping):
         target: typing.Union[str, _dimensions.Dimension],
     ) -> _units.Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        given = _dimensions.dimension_factory(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if given == dimension:
                 return _units.unit_factory(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 9f5020b2981a44ae17ca9fe759b1a95d773678b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 085/115] fix: find unique table entries before calling a
 search ambiguous

---
 src/eprempy/container.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 1647273..91568c2 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -652,22 +652,19 @@ class Table(collections.abc.Mapping):
             search.
         """
         subset = [*self._entries]
-        for n_checked, pair in enumerate(request.items(), start=1):
-            key, value = pair
+        for key, value in request.items():
             if key not in self.keys:
                 raise TableKeyError(key)
             subset = [
                 entry for entry in subset
                 if entry[key] == value
             ]
-            if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
+            if not strict and len(subset) == 1:
+                return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
+        if request and not strict and len(subset) > 1:
+            raise AmbiguousRequestError(request)
         raise TableLookupError(request)
 
 
-- 
2.43.0


From 05a1ff65ef6992dc22aef0417930fe5bbb739be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:06 +0000
Subject: [PATCH 086/115] fix: print wrapped objects other than strings

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 91568c2..0d8a3c6 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -227,7 +227,7 @@ class Wrapper(collections.abc.Collection, typing.Generic[T]):
 
     def __str__(self) -> str:
         """A simplified representation of this object."""
-        return self._arg
+        return str(self._arg)
 
 
 def isseparable(x, /):
-- 
2.43.0


From 54a1cc7fb604bca09d57cef06f8610881c81bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 087/115] fix: label plots with the unit in which they are
 drawn

---
 src/eprempy/physical/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 7a4dc24..650416f 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -186,10 +186,11 @@ def plot(
     **extra
 ) -> None:
     """Plot the named array."""
-    ndarray = numpy.array(array.withunit(unit or array.unit)).squeeze()
+    converted = array.withunit(unit or array.unit)
+    ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{array.unit.format(style='tex')}]"
+    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
-- 
2.43.0


From 6b18c6b8a4e1143bec62529f42c9efc3e4e59f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 088/115] fix: keep the axis labels given for plots

---
 src/eprempy/physical/_array.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 650416f..8b31236 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -190,7 +190,8 @@ def plot(
     ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
+    if 'ylabel' not in extra:
+        extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
@@ -202,7 +203,8 @@ def plot(
                 extra['xlabel'] = f"{name} [{m.unit}]"
         else:
             xarr = numpy.array(axis)
-            extra['xlabel'] = name
+            if 'xlabel' not in extra:
+                extra['xlabel'] = name
         _create_plot(xarr, ndarray, *args, **extra)
     else:
         if isinstance(x, measured.Type):
@@ -215,7 +217,8 @@ def plot(
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-            extra['xlabel'] = x
+            if 'xlabel' not in extra:
+                extra['xlabel'] = x
         else:
             raise TypeError(x)
         _create_plot(xarr, ndarray, *args, **extra)
-- 
2.43.0


From 0c8b9d3a044791cbb9f743f4b69824aedc4a8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 089/115] fix: close the figures of plots that fail

---
 src/eprempy/physical/_array.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 8b31236..8bb8f48 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -238,7 +238,11 @@ def _create_plot(*args, **extra):
             axes_kw[key] = value
         else:
             plot_kw[key] = value
-    plt.subplot(**axes_kw)
-    plt.plot(*args, **plot_kw)
+    try:
+        plt.subplot(**axes_kw)
+        plt.plot(*args, **plot_kw)
+    except Exception:
+        plt.close()
+        raise
 
 
-- 
2.43.0


From 85b4681eb22fae8c3077cf4933ba52b429afa0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 090/115] fix: label plots against given coordinates with their
 unit

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 8bb8f48..a289810 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -213,7 +213,7 @@ def plot(
             m = quantity.measure(x)
             xarr = numpy.array(m)
             if 'xlabel' not in extra:
-                extra['xlabel'] = f"{name} [{m.unit}]"
+                extra['xlabel'] = f"[{m.unit}]"
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-- 
2.43.0


From 890059c3202162e399eacc91d4524f43a2786204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:04 +0000
Subject: [PATCH 091/115] fix: read a datafile anew after it has been replaced

All interfaces to a datafile shared one view per path, for as long as the
process lived, so opening the file again after a new simulation run showed
the previous run. A view opened with another hint was the first one, too.
---
 src/eprempy/datafile/_interfaces.py   | 12 +++---------
 src/eprempy/eprem.py                  |  2 +-
 src/eprempy/observable/_interfaces.py | 12 +++---------
 src/eprempy/paths.py                  | 15 +++++++++++++--
 4 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index b52181d..c56e6eb 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -24,7 +24,7 @@ class Axes(typing.Mapping[str, physical.Axis]):
         """Initialize this interface."""
         self._source = source
         self._system = system
-        self._view = None
+        self._view = view_factory(source)
         self._time = None
         self._shell = None
         self._species = None
@@ -143,8 +143,6 @@ class Axes(typing.Mapping[str, physical.Axis]):
     @property
     def view(self):
         """A view into this dataset on disk."""
-        if self._view is None:
-            self._view = view_factory(self.source)
         return self._view
     
     @property
@@ -170,8 +168,8 @@ class Arrays:
         """Initialize this interface."""
         self._source = source
         self._system = system
-        self._axes = None
-        self._view = None
+        self._axes = axes_factory(source, system=system)
+        self._view = view_factory(source)
         self._time = None
         self._shell = None
         self._species = None
@@ -400,15 +398,11 @@ class Arrays:
     @property
     def view(self):
         """A view into this dataset on disk."""
-        if self._view is None:
-            self._view = view_factory(self.source)
         return self._view
 
     @property
     def axes(self):
         """An interface to canonical array axes."""
-        if self._axes is None:
-            self._axes = axes_factory(self.source, system=self.system)
         return self._axes
 
     @property
diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 5d34dd5..a250569 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -113,7 +113,7 @@ class Observer(collections.abc.Mapping):
     def _get_axis(self, name: str):
         """Internal helper for axis properties."""
         if self._axes is None:
-            self._axes = datafile.axes(self.source, self.system)
+            self._axes = self._observables.axes
         return self._axes[name]
 
     @property
diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 01cd0e4..f70c948 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1106,9 +1106,9 @@ class Quantities(collections.abc.Mapping):
         self._source = source
         self._config = config
         self._system = system
-        self._dataset = None
-        self._axes = None
-        self._grid = None
+        self._dataset = datafile.arrays(source, system)
+        self._axes = datafile.axes(source, system=system)
+        self._grid = datafile.grid(source, system)
         self._context = None
         self._parameters = None
         self._constants = None
@@ -1821,15 +1821,11 @@ class Quantities(collections.abc.Mapping):
     @property
     def grid(self):
         """The dataset coordinate-like arrays."""
-        if self._grid is None:
-            self._grid = datafile.grid(self.source, self.system)
         return self._grid
 
     @property
     def axes(self):
         """The array-indexing objects."""
-        if self._axes is None:
-            self._axes = datafile.axes(self.source, system=self.system)
         return self._axes
 
     @property
@@ -1858,8 +1854,6 @@ class Quantities(collections.abc.Mapping):
     @property
     def dataset(self):
         """A view of the underlying dataset."""
-        if self._dataset is None:
-            self._dataset = datafile.arrays(self.source, self.system)
         return self._dataset
 
     @property
diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 55b8135..99fad4e 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -69,7 +69,8 @@ class PathSet(etc.InstanceSet):
     Using this class as the metaclass for a class that manages path-based
     objects (e.g., datasets) will ensure that only one instance of the object
     exists. This may be useful when multiple other objects need to access an
-    instance of the class given a common path.
+    instance of the class given a common path. Replacing or changing the file at
+    that path, or passing different arguments, leads to a new instance.
 
     See https://refactoring.guru/design-patterns/singleton/python/example
     """
@@ -81,10 +82,20 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path
+            others = (*args[1:], *sorted(kwargs.items()))
+            return path, _get_file_state(path), others
         return super()._generate_key(*args, **kwargs)
 
 
+def _get_file_state(path: PathLike):
+    """Identify the current version of the file at `path`, if it exists."""
+    try:
+        state = os.stat(path)
+    except OSError:
+        return None
+    return state.st_dev, state.st_ino, state.st_size, state.st_mtime_ns
+
+
 class NonExistentPathError(Exception):
 
     def __init__(self, path: str=None):
-- 
2.43.0


From 892227de9924d1e606794a5ec2a3d80c820eb2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 092/115] fix: report unknown quantities, and quantities that
 cancel

Asking for an unknown quantity recursed until Python gave up instead of
raising the error that callers expect, and so did a compound quantity with
no quantities left.
---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..ec29db9 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -116,9 +116,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        base = 'identity' if term.base == '1' else term.base.replace('_', ' ')
+        if base not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {base}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[base].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From f635c371370310da6d054587073a18496226fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:06 +0000
Subject: [PATCH 093/115] fix: apply the axis options of plots once there is
 something plotted

Bounds given for an axis were lost when the plotted line rescaled it.
---
 src/eprempy/physical/_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index a289810..3d3ba50 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -239,8 +239,9 @@ def _create_plot(*args, **extra):
         else:
             plot_kw[key] = value
     try:
-        plt.subplot(**axes_kw)
+        axes = plt.subplot()
         plt.plot(*args, **plot_kw)
+        axes.set(**axes_kw)
     except Exception:
         plt.close()
         raise
-- 
2.43.0


From d8545c510b7474edba340c51c4023fdaa8fa6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 094/115] fix: keep the numbers and unit of measured objects in
 every conversion

---
 src/eprempy/measured/_factories.py        |  4 ++-
 src/eprempy/physical/_object_factories.py | 34 +++++++++++++++--------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/measured/_factories.py b/src/eprempy/measured/_factories.py
index ec1e840..de84e1c 100644
--- a/src/eprempy/measured/_factories.py
+++ b/src/eprempy/measured/_factories.py
@@ -52,7 +52,9 @@ def sequence_args(x, unit, /) -> typing.Tuple[typing.Any, metric.Unit]:
     if isinstance(x, Value):
         return sequence_args([x.data], x.unit)
     if isinstance(x, Object):
-        return x.data, x.unit
+        return numpy.array(x.data).flatten(), x.unit
+    if isinstance(getattr(x, 'data', None), Object):
+        return sequence_args(x.data, unit)
     if isinstance(x, numbers.Real):
         return numpy.array([x]), unit
     a = numpy.asarray(x)
diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index b1d9708..937d2b5 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -11,7 +11,6 @@ import typing
 import numpy
 
 from .. import measured
-from .. import quantity
 from .. import real
 from ._scalar import Scalar
 from ._tensor import Tensor
@@ -27,6 +26,19 @@ from ._axes import (
 )
 
 
+MEASURED = (measured.Object, Coordinates)
+"""Types of objects that have their own numbers and unit."""
+
+
+def measured_data(x) -> numpy.ndarray:
+    """Extract the numbers of a measured object."""
+    if isinstance(x, Coordinates):
+        return measured_data(x.data)
+    if isinstance(x, (Scalar, measured.Value)):
+        return numpy.array([x.data])
+    return numpy.array(x.data)
+
+
 @Scalar.register.factory
 def scalar_factory(x, /, unit=None) -> Scalar:
     """Internal factory function for `~Scalar` instances."""
@@ -41,14 +53,14 @@ def scalar_args(x, unit, /):
         return x.data, x.unit
     if isinstance(x, numbers.Real):
         return x, unit
-    a = numpy.array(x)
+    a = measured_data(x) if isinstance(x, MEASURED) else numpy.array(x)
     s = a.size
     if s != 1:
         raise TypeError(
             f"Cannot create a scalar from data with size {s}"
         ) from None
-    data = a[0]
-    if isinstance(x, Tensor):
+    data = numpy.ravel(a)[0]
+    if isinstance(x, MEASURED):
         return data, x.unit
     return data, unit
 
@@ -65,11 +77,8 @@ def vector_args(x, unit, /):
     """Parse arguments to initialize `~Vector`."""
     if isinstance(x, (Vector, Coordinates)):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
-        return vector_args(numpy.asarray(y), x.unit)
-    if isinstance(x, Tensor):
-        return vector_args(numpy.array(x.data), x.unit)
+    if isinstance(x, MEASURED):
+        return vector_args(measured_data(x), x.unit)
     a = numpy.asarray(x)
     if a.ndim != 1:
         raise TypeError(
@@ -92,9 +101,8 @@ def tensor_args(x, unit, /):
         return x.data.array, x.unit
     if isinstance(x, Tensor):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
-        y = [x.data] if isinstance(x, Scalar) else x
-        return tensor_args(numpy.asarray(y), x.unit)
+    if isinstance(x, MEASURED):
+        return tensor_args(measured_data(x), x.unit)
     a = numpy.asarray(x)
     if a.ndim == 0:
         raise TypeError(
@@ -115,6 +123,8 @@ def array_args(x, unit, axes, /):
     """Parse arguments to initialize `~Array`."""
     if isinstance(x, Array):
         return x.data, x.unit, x.axes
+    if isinstance(x, Coordinates):
+        return array_args(x.data, unit, axes)
     dimensions = tuple(axes or ())
     data = real.array(array_data(x), *dimensions)
     axes = array_axes(data.shape, axes)
-- 
2.43.0


From 04a5305874d04b00cf901f706d2b93407795b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:23 +0000
Subject: [PATCH 095/115] fix: give arrays made from measured objects the axes
 asked for

---
 src/eprempy/physical/_object_factories.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index 937d2b5..3bca1b1 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -111,7 +111,7 @@ def tensor_args(x, unit, /):
     return a, unit
 
 
-@Array.register.factory
+@Array.register.factory(mutable=['axes'])
 def array_factory(x, /, unit=None, axes=None) -> Array:
     """Internal factory for `~Array` instances."""
     d, u, b = array_args(x, unit, axes)
@@ -122,6 +122,11 @@ def array_factory(x, /, unit=None, axes=None) -> Array:
 def array_args(x, unit, axes, /):
     """Parse arguments to initialize `~Array`."""
     if isinstance(x, Array):
+        if axes is not None:
+            raise ValueError(
+                "Cannot change 'axes' when creating an instance of Array"
+                " from an existing instance of Array"
+            ) from None
         return x.data, x.unit, x.axes
     if isinstance(x, Coordinates):
         return array_args(x.data, unit, axes)
-- 
2.43.0


From d551999c2e47bcd30b09ab4e6be59c723356d392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 096/115] fix: make axes from one length

---
 src/eprempy/physical/_axes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index b64eb32..9f8d02b 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -497,9 +497,10 @@ def _map_axes(*args, **kwargs):
         if isinstance(arg, typing.Mapping):
             # Create axes from the given mapping.
             return {k: convert_to_axis(a) for k, a in arg.items()}
-        raise TypeError(
-            f"Expected positional argument to be a mapping, not {type(arg)}"
-        ) from None
+        if not isinstance(arg, numbers.Integral):
+            raise TypeError(
+                f"Expected positional argument to be a mapping, not {type(arg)}"
+            ) from None
     if not kwargs and etc.allisinstance(numbers.Integral, *args):
         # Create axes from one or more axis lengths.
         return {f'x{i}': _axis.Points(numpy.arange(n)) for i, n in enumerate(args)}
-- 
2.43.0


From 9426e1f338d9fdb63766a489f9f53a04f8497859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:54 +0000
Subject: [PATCH 097/115] fix: keep units when the left operand is a numpy
 number

---
 src/eprempy/physical/_object.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/eprempy/physical/_object.py b/src/eprempy/physical/_object.py
index a3fbb00..6a3759c 100644
--- a/src/eprempy/physical/_object.py
+++ b/src/eprempy/physical/_object.py
@@ -1,6 +1,8 @@
 import abc
 import typing
 
+import numpy
+
 from .. import base
 from .. import measured
 from .. import numeric
@@ -139,6 +141,37 @@ class Object(measured.Object[base.RealType], Operators):
     __mod__, __rmod__ = numeric.implementation.doublet('mod')
     __pow__, __rpow__ = numeric.implementation.doublet('pow')
 
+    def _apply_ufunc(self, ufunc, method, *args, **kwargs):
+        """Apply a `numpy` universal function to a physical object.
+
+        Notes
+        -----
+        - Evaluating `x [op] self` when `x` is an instance of a `numpy` numeric
+          type (e.g., `numpy.float64`) causes `numpy` to call the universal
+          function corresponding to [op], instead of letting python call the
+          reflected operator. This method makes sure that the result is the same
+          as if `x` were an instance of the equivalent built-in type.
+        """
+        if (
+            method == '__call__'
+            and not kwargs
+            and ufunc in _REFLECTED
+            and isinstance(args[0], numpy.number)
+        ):
+            return getattr(self, _REFLECTED[ufunc])(args[0])
+        return super()._apply_ufunc(ufunc, method, *args, **kwargs)
+
+
+_REFLECTED = {
+    numpy.add: '__radd__',
+    numpy.subtract: '__rsub__',
+    numpy.multiply: '__rmul__',
+    numpy.true_divide: '__rtruediv__',
+    numpy.floor_divide: '__rfloordiv__',
+    numpy.remainder: '__rmod__',
+}
+"""The reflected operators corresponding to `numpy` universal functions."""
+
 
 ObjectT = typing.TypeVar('ObjectT', bound=Object)
 """Type variable bound to `~physical.Object`."""
-- 
2.43.0


From fd83bf67d382e4153cc81c2d9f366cf83ddb9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:00 +0000
Subject: [PATCH 098/115] fix: reduce vectors and tensors along all of their
 axes

---
 src/eprempy/physical/_operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 9455597..298e19f 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -552,7 +552,7 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
 def npmin(x: Measured[real.ValueType], **kwargs):
     """Compute the minimum value of `x`."""
     data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or kwargs.get('axis') is None:
+    if isinstance(data, numbers.Real) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -565,7 +565,7 @@ def npmin(x: Measured[real.ValueType], **kwargs):
 def npmax(x: Measured[real.ValueType], **kwargs):
     """Compute the maximum value of `x`."""
     data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or kwargs.get('axis') is None:
+    if isinstance(data, numbers.Real) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -578,7 +578,7 @@ def npmax(x: Measured[real.ValueType], **kwargs):
 def mean(x: Measured[real.ValueType], **kwargs):
     """Compute the mean of `x`."""
     data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or kwargs.get('axis') is None:
+    if isinstance(data, numbers.Real) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -591,7 +591,7 @@ def mean(x: Measured[real.ValueType], **kwargs):
 def sum(x: Measured[real.ValueType], **kwargs):
     """Compute the sum of `x`."""
     data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or kwargs.get('axis') is None:
+    if isinstance(data, numbers.Real) or kwargs.get('axis') is None:
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
-- 
2.43.0


From 1652fabf1939c6bf0ae1212363f05eb69099f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 099/115] fix: match powers of arrays by dimension

---
 src/eprempy/physical/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 298e19f..cb70c26 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -387,7 +387,7 @@ def exponential(f, a, b, **kwargs):
         # - both `a` and `b` are unitless
         # - `b` is array-like
         if isinstance(a, Array) and isinstance(b, Array):
-            data = f(a.data.array, b.data.array, **kwargs)
+            data = f(a.data, b.data, **kwargs)
             return array_factory(data, unit='1', axes=a.axes)
         if isinstance(a, Array):
             data = f(a.data.array, b.data, **kwargs)
-- 
2.43.0


From 1512601ea989ca283aa6da477b7a6dc3b3618089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 100/115] fix: refuse further arguments after a measured object

---
 src/eprempy/quantity/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/__init__.py b/src/eprempy/quantity/__init__.py
index 265b0ab..a221655 100644
--- a/src/eprempy/quantity/__init__.py
+++ b/src/eprempy/quantity/__init__.py
@@ -1,6 +1,7 @@
 import typing
 
 from .. import base
+from .. import container
 from .. import metric
 from .. import measured
 from .. import real
@@ -121,7 +122,7 @@ def measure(x: base.MeasurableType, **kwargs) -> Measurement:
 def measure(*args, **kwargs):
     if not args:
         raise MeasuringTypeError("There is nothing to measure") from None
-    this = args[0]
+    this = container.unwrap(args)
     if isinstance(this, Measurement):
         return this
     if isinstance(this, base.Measurable):
-- 
2.43.0


From a869f9facebc44f8246da366343fa0b78d67f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 101/115] fix: report only directories as runs

---
 src/eprempy/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e6df5ec..00187a0 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -524,11 +524,13 @@ class RunPaths(collections.abc.Collection):
             return {
                 run.name: set()
                 for run in (self.root / self.base).glob('*')
+                if run.is_dir()
             }
         base = {
             run.name: set()
             for branch in self._branches
             for run in (self.root / branch / self.base).glob('*')
+            if run.is_dir()
         }
         for run, branches in base.items():
             branches.update(
-- 
2.43.0


From 782b654e1939c4ac64866b6d3a35462700b92aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 102/115] fix: keep coefficients when applying a function to an
 expression

---
 src/eprempy/symbolic/_expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index acfbfc9..b009dc5 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -238,6 +238,9 @@ class Expression(collections.abc.Sequence):
         result = bases[0] ** exponents[0]
         for base, exponent in zip(bases[1:], exponents[1:]):
             result *= base ** exponent
+        for term in self:
+            if term.coefficient != 1:
+                result *= term.coefficient
         return result
 
 
-- 
2.43.0


From 9ea78d77387891db120cf466e16eb1b575111836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 103/115] fix: compare variable terms to numbers

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index c922048..e1ccf34 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -776,7 +776,7 @@ class Term(Operand):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, numbers.Real):
-            return float(self) == float(other)
+            return self.base == '1' and float(self) == float(other)
         if isinstance(other, str):
             term = OperandFactory().create(other)
             return super().__eq__(term)
-- 
2.43.0


From a7b24cc827ea32e0dc016b5a16e6504e1935c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 104/115] fix: measure exactly the numbers given with a unit

---
 src/eprempy/quantity/_functions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 78e396a..57a6063 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -69,8 +69,10 @@ def ismeasurable(x, /):
     if all(isinstance(arg, numbers.Real) for arg in args):
         return True
     if metric.unitlike(args[-1]):
-        arg0 = args[0]
-        values = arg0 if container.isiterable(arg0) else args[:-1]
+        nested = len(args) == 2 and container.isseparable(args[0])
+        values = args[0] if nested else args[:-1]
+        if etc.isnull(values):
+            return False
         if all(isinstance(value, numbers.Real) for value in values):
             return True
     if all(isinstance(i, (list, tuple)) and ismeasurable(i) for i in args):
@@ -258,8 +260,13 @@ def parse(x, /, distribute: bool=False):
             return _wrap_measurable(unwrapped[:-1], unit, distribute)
 
         # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-        if isinstance(unwrapped[0], (list, tuple, range)):
-            return _wrap_measurable(unwrapped[0], unit, distribute)
+        values = unwrapped[0]
+        if len(unwrapped) == 2 and container.isseparable(values):
+            if etc.isnull(values):
+                raise ParsingValueError(
+                    f"Cannot measure empty input: {unwrapped!r}"
+                ) from None
+            return _wrap_measurable(values, unit, distribute)
 
     raise ParsingTypeError(x)
 
-- 
2.43.0


From 7c4231afa77143f2e19e530221b7df09e78461f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 105/115] fix: know that measured objects are measurable

---
 src/eprempy/quantity/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 57a6063..20fc99c 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -60,7 +60,7 @@ def ismeasurable(x, /):
     args = container.unwrap(x)
     if etc.isnull(x):
         return False
-    if base.ismeasurable(args):
+    if base.ismeasurable(args) or isinstance(args, measured.Object):
         return True
     if isinstance(args, numbers.Real):
         return True
-- 
2.43.0


From b68584f17325060e6a4cd3dd9c3ba9e3a0270699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:00 +0000
Subject: [PATCH 106/115] fix: print reduced units with their scale

---
 src/eprempy/metric/_defined.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index ec29db9..799c186 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -308,7 +308,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
+        terms = list(self.units)
         return type(self)(terms, scale=scale, system=self.system)
 
     __rmul__ = __mul__
@@ -319,7 +319,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
+        terms = list(self.units)
         return type(self)(terms, scale=scale, system=self.system)
 
     def __pow__(self, other):
@@ -327,7 +327,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit ** other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From 7c279ef2a920481426e4c6488574d98611f595dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:00 +0000
Subject: [PATCH 107/115] fix: allow for rounding when comparing units

---
 src/eprempy/metric/_units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index d1215a8..5338864 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -3,6 +3,7 @@ Support for metric units.
 """
 
 import contextlib
+import math
 import numbers
 import typing
 
@@ -214,7 +215,7 @@ class Unit(symbolic.Expression):
         with contextlib.suppress(_exceptions.UnitConversionError):
             # If their numerical conversion factor is unity, they are
             # equivalent.
-            return self << that == 1.0
+            return math.isclose(self << that, 1.0)
         return False
 
     __rand__ = __and__
-- 
2.43.0


From dce68377897eca3a838abe410ac4a2de8a094d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:00 +0000
Subject: [PATCH 108/115] fix: compare dimensions to a single name

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 060c50e..25ccd82 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -69,7 +69,7 @@ class Dimensions(collections.abc.Sequence):
     def _compare(self, other, operator: typing.Callable[..., T]) -> T:
         """Implement a binary comparison between this instance and `other`."""
         these = set(self._names)
-        those = set(other._names if isinstance(other, Dimensions) else other)
+        those = {other} if isinstance(other, str) else set(other)
         return operator(these, those)
 
     def replace(self, old: str, new: str):
-- 
2.43.0


From 2d33eb1454d5920ab1712c2888cacf69f2474995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:30 +0000
Subject: [PATCH 109/115] fix: search the numbers of real arrays for a close
 value

---
 src/eprempy/numeric/_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index eddd84e..3ed1edd 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -45,7 +45,7 @@ def isclose(a: Object, b: numbers.Real) -> bool:
       standard containment via `in` before attempting to determine if `b` is
       close enough, within a very strict tolerance, to any member of `a`.
     """
-    data = a.data
+    data = a.data if isinstance(a, Object) else numpy.asarray(a)
     if not container.isiterable(data):
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
-- 
2.43.0


From 3f56af876d7aceb573c37d57bb8c31af9b1345df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:46 +0000
Subject: [PATCH 110/115] fix: search arrays that are stored in files

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 25ccd82..21cbc08 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -352,7 +352,7 @@ class Array(Quantity[DataType], Operators):
         array_contains
             Perform additional containment checks beyond this method.
         """
-        return __x in self._object or __x in self.array
+        return __x in self.array
 
     def __iter__(self):
         """Called for iter(self)."""
-- 
2.43.0


From a7853925133c6c320d6f2c855a63862db0053e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:02 +0000
Subject: [PATCH 111/115] fix: heed units when searching physical arrays

---
 src/eprempy/physical/_tensor.py | 2 ++
 src/eprempy/physical/_vector.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/eprempy/physical/_tensor.py b/src/eprempy/physical/_tensor.py
index d34603e..73660ae 100644
--- a/src/eprempy/physical/_tensor.py
+++ b/src/eprempy/physical/_tensor.py
@@ -28,6 +28,8 @@ class Tensor(Object[base.ArrayType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, (Scalar, measured.Value)):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
diff --git a/src/eprempy/physical/_vector.py b/src/eprempy/physical/_vector.py
index 0685221..4456f92 100644
--- a/src/eprempy/physical/_vector.py
+++ b/src/eprempy/physical/_vector.py
@@ -25,6 +25,8 @@ class Vector(Object[base.SequenceType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, (Scalar, measured.Value)):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
-- 
2.43.0


From 95b0d3b4b25b1d631b487e7822241154f01fa480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:24 +0000
Subject: [PATCH 112/115] fix: look for templates in the directory that is
 current when asked

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 99fad4e..e221a0c 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -256,7 +256,7 @@ def search(file: PathLike, *paths: PathLike) -> pathlib.Path:
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike='.',
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
     d = fullpath(directory, strict=True)
-- 
2.43.0


From 24df8c019bfdbed0f0c17c13f9dd453126d54740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:00 +0000
Subject: [PATCH 113/115] fix: remove only directories that are runs

---
 src/eprempy/project.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 00187a0..8aa4abc 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -479,6 +479,11 @@ class RunPaths(collections.abc.Collection):
             return paths.PathOperationError(
                 f"Cannot remove {this}: not a directory"
             )
+        rundirs = [paths.normalize(rundir) for rundir in self.listing]
+        if not any(rundir in this.parents for rundir in rundirs):
+            return paths.PathOperationError(
+                f"Cannot remove {this}: not a run"
+            )
         shutil.rmtree(this)
         return this
 
-- 
2.43.0


From 453fade11f90b934cd47bdeb039d8a2dedf85aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:51 +0000
Subject: [PATCH 114/115] fix: keep aliases when freezing grouped mappings

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index c8d8be8..5bc50d4 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -999,7 +999,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         if not groups:
             return Mapping(self)
         grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        return Mapping({**self.as_dict, **grouped})
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From 165c1deae5c588e678f9a0f694d74291bbaf2fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:50 +0000
Subject: [PATCH 115/115] fix: append to the database of default parameter
 values

---
 scripts/default-parameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/default-parameters.py b/scripts/default-parameters.py
index 1b7cfb5..c8d75be 100644
--- a/scripts/default-parameters.py
+++ b/scripts/default-parameters.py
@@ -50,8 +50,7 @@ def _generate_json(
             loaded = dict(json.load(rp))
         for k, v in obj.items():
             v.update(loaded.get(k, {}))
-        if loaded['sources']:
-            sources |= set(loaded['sources'])
+        sources |= set(loaded.get('sources', ()))
     with path.open('w') as wp:
         json.dump(obj, wp, indent=4, sort_keys=True)
     srclog = path.parent / 'sources.log'
-- 
2.43.0

