From 6c0aa24e66f75c7ccf08a1728a5f03ccc50de64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:58 +0000
Subject: [PATCH 001/104] fix: parse rational exponents with a multi-digit
 denominator

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index ed680ed..3248736 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -23,7 +23,7 @@ class Patterns(collections.UserDict):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -243,7 +243,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -563,7 +563,7 @@ class OperandFactory(PartFactory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 1934e9e338496223bf056f48a8a6939749af08e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:20 +0000
Subject: [PATCH 002/104] fix: keep a zero coefficient or exponent in symbolic
 operands

---
 src/goats/core/symbolic.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 3248736..db4bda0 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -173,11 +173,15 @@ class Operand(Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -1015,13 +1019,15 @@ class OperandFactory(PartFactory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            )
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -1031,7 +1037,7 @@ class OperandFactory(PartFactory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From e6350a239ebfa27e0e30b0ec5916a2314de8ad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:59:53 +0000
Subject: [PATCH 003/104] fix: parse a square root that follows an explicit
 operator

---
 src/goats/core/symbolic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index db4bda0..8472130 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -1239,8 +1239,16 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
+        root = None
+        if current.operator in {'multiply', 'divide'}:
+            # The operand itself may be a root (e.g., 'a / sqrt(b)').
+            root = self.operators.parse(current.string)
+            if root and root.result == 'sqrt':
+                current.string = root.remainder
         if parsed := self.operands.parse(current.string):
             current.operand = parsed.result ** initial.exponent
+            if root and root.result == 'sqrt':
+                current.operand = self._evaluate(root.result, current.operand)
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From 154388e2bb7a5eace00070232baa704c88813f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:02:52 +0000
Subject: [PATCH 004/104] fix: make equal alias groups hash equally

---
 src/goats/core/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index cf87dc9..b2b1b7e 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From fd3cf8751c4993cebe9679ecf278194c2439c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:03:14 +0000
Subject: [PATCH 005/104] fix: register aliases all together or not at all

---
 src/goats/core/aliased.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index b2b1b7e..048e1b5 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -873,18 +873,22 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
-            if alias in self._flat_keys():
-                current = super().alias(key)
+        resolved = self._resolve(key)
+        if not resolved:
+            raise KeyError(f"{key!r} is not a known name or alias.") from None
+        new = [a for a in aliases if a != key]
+        for alias in new:
+            if alias in self._flat_dict:
+                current = self._resolve(alias) - [alias]
                 this = ", ".join(str(a) for a in current)
                 if len(current) > 1:
                     this = f'({this})'
                 raise KeyError(
-                    f"'{key}' is already an alias for {this!r}"
+                    f"'{alias}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+        if new:
+            self.as_dict[resolved | new] = self.as_dict.pop(resolved)
+            self._refresh()
 
 
 class NameMap(iterables.MappingBase):
-- 
2.43.0


From 903d79c45dd1c8e50bac87ad1129f8f8f602dee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:04:34 +0000
Subject: [PATCH 006/104] fix: merge all alias groups that a new group overlaps

---
 src/goats/core/aliased.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/aliased.py b/src/goats/core/aliased.py
index 048e1b5..5e797ba 100644
--- a/src/goats/core/aliased.py
+++ b/src/goats/core/aliased.py
@@ -151,22 +151,16 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not merged.isdisjoint(g)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.find(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
-        for i in __x:
+        for i in Group(__x):
             if i in self.flat:
                 raise ValueError(
                     f"Cannot add {__x}: {i} already exists in a group"
-- 
2.43.0


From 0b31476ce9a4d7e6f5df5cd548a781b550d954c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:15 +0000
Subject: [PATCH 007/104] fix: parse the symbols of micro-prefixed units and of
 the ohm

---
 src/goats/core/symbolic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index 8472130..e043a17 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -30,7 +30,7 @@ class Patterns(collections.UserDict):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -254,7 +254,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
@@ -574,7 +574,7 @@ class OperandFactory(PartFactory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
-- 
2.43.0


From 32e3b9101cbdb5fa34024d75afc4197e48d82a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:10:31 +0000
Subject: [PATCH 008/104] fix: spell the quantity of the lux as its unit does

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 4657fb0..5629d03 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -441,7 +441,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From a431b2e0660da58293bfd3fcede3793799ea348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:12 +0000
Subject: [PATCH 009/104] fix: convert electromagnetic units between SI and
 Gaussian with c in m/s

---
 src/goats/core/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 5629d03..82d6452 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -720,14 +720,14 @@ _QUANTITIES = {
 
 
 # NOTE: Defined here to avoid a circular import with physical.py.
-C = 2.99792458e10
-"""The speed of light in cm/s."""
+C = 2.99792458e8
+"""The speed of light in m/s."""
 PI = numpy.pi
 """The ratio of a circle's circumference to its diameter."""
 
 
 _CONVERSIONS = {
-    ('F', 'cm'): C**2 * 1e-9,
+    ('F', 'cm'): C**2 * 1e-5,
     ('C', 'statC'): 10*C,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-- 
2.43.0


From 4cbb51e56440fbfc336c624b4222da5b7fe3965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:24 +0000
Subject: [PATCH 010/104] fix: divide by 4 pi in the conversion of permeability

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 82d6452..261912b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -749,7 +749,7 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e6 / C,
-- 
2.43.0


From 465ed8e4815860fbf789205a3f38215b583886b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:11:37 +0000
Subject: [PATCH 011/104] fix: correct the SI dimension of permittivity and the
 Gaussian unit of displacement

---
 src/goats/core/metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 261912b..336f0f7 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -382,7 +382,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -586,7 +586,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From fe48f6c2a2f3134cfa3dd454948a5b9fc95c16c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:12:58 +0000
Subject: [PATCH 012/104] fix: account for every term when converting units by
 dimension

---
 src/goats/core/metric.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 336f0f7..ad370fb 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1751,22 +1751,42 @@ class Conversion(iterables.ReprStrMixin):
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
         """Attempt to compute a conversion via unit dimensions."""
         decomposed = []
+        factor = 1.0
         for term in terms:
-            reduction = NamedUnit(term.base).reduce()
+            named = NamedUnit(term.base)
+            try:
+                reduction = named.reduce()
+            except SystemAmbiguityError:
+                return
             if reduction:
+                factor *= reduction.scale**term.exponent
                 decomposed.extend(
                     [
                         symbolic.Term(
-                            coefficient=reduction.scale**term.exponent,
                             base=this.base,
                             exponent=term.exponent*this.exponent,
                         )
                         for this in reduction.units
                     ]
                 )
-        if symbolic.Expression(decomposed) == '1':
-            return 1.0
-        return self._resolve_terms(decomposed)
+            elif all(d == '1' for d in named.dimensions.values()):
+                factor *= self._unity_factor(named)**term.exponent
+            else:
+                # Ignoring a term that we can't reduce would produce a factor
+                # between units with different dimensions.
+                return
+        reduced = symbolic.Expression(decomposed)
+        if reduced == '1':
+            return factor
+        if resolved := self._resolve_terms(list(reduced)):
+            return factor * resolved
+
+    def _unity_factor(self, named: NamedUnit) -> float:
+        """Compute the numerical value of a dimensionless unit."""
+        canonical = UNITS[named.quantity]['mks']
+        if canonical in UNITY:
+            return named.scale
+        return float(type(self)(named.symbol, canonical))
 
     def _match_terms(
         self,
@@ -1784,9 +1804,10 @@ class Conversion(iterables.ReprStrMixin):
             u1 = term.base
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
-        dimensions = NamedUnit(u0).dimensions.values()
+        named = NamedUnit(u0)
+        dimensions = named.dimensions.values()
         if u0 in named_units and all(d == '1' for d in dimensions):
-            return 1.0, target
+            return self._unity_factor(named) ** exponent, target
 
     def _resolve_terms(self, terms: typing.List[symbolic.Term]):
         """Compute ratios of matching terms, if possible."""
-- 
2.43.0


From a87cda4cbc58f7fad5f86b1bed0672eb64dbe491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:27 +0000
Subject: [PATCH 013/104] fix: let 'cd' mean the candela and 'u' symbols name
 the micro-prefixed units

---
 src/goats/core/metric.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index ad370fb..156a73e 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -912,9 +912,16 @@ finally by physical quantity.
 """
 
 
+_BASE_SYMBOLS = {unit['symbol'] for unit in _units}
+
+
 def build_unit_aliases(prefix, unit):
     """Define all aliases for the given metric prefix and base unit."""
     key = [f"{prefix[k]}{unit[k]}" for k in ['name', 'symbol']]
+    if prefix['symbol'] and key[-1] in _BASE_SYMBOLS:
+        # The symbol belongs to a base unit (e.g., 'cd' is the candela, not the
+        # centiday).
+        key.pop()
     if prefix['symbol'] == 'μ':
         key += [f"u{unit['symbol']}"]
     return tuple(key)
@@ -1104,7 +1111,8 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        aliases = named_units.alias(string, include=True)
+        cls._instances[tuple(aliases)] = instance
         return instance
 
 
@@ -1998,14 +2006,13 @@ class _UnitMeta(abc.ABCMeta):
                 cls._instances.alias(name, arg)
             return unit
         # Create the initial mapping aliases for this unit.
-        try:
-            # If `name` corresponds to a named unit register both the name and
-            # symbol (e.g., 'centimeter' and 'cm').
-            this = NamedUnit(name)
-            key = (this.name, this.symbol)
-        except UnitParsingError:
-            # If attempting to parse a named unit from `name` failed, register
-            # the canonical string and, if applicable, the string argument.
+        if name in named_units:
+            # If `name` corresponds to a named unit register all its aliases
+            # (e.g., 'centimeter' and 'cm').
+            key = tuple(named_units.alias(name, include=True))
+        else:
+            # If not, register the canonical string and, if applicable, the
+            # string argument.
             key = (name, string) if string else name
         # Store and return the new instance.
         cls._instances[key] = instance
-- 
2.43.0


From 2eab0a46667d85a87454b065a7483fc7adeb1ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:12 +0000
Subject: [PATCH 014/104] fix: keep the singleton units of each unit class
 apart

---
 src/goats/core/metric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 156a73e..cee9fc0 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1963,7 +1963,11 @@ class _UnitMeta(abc.ABCMeta):
     needing to overload `__new__` on that class or its base class(es).
     """
 
-    _instances = aliased.MutableMapping()
+    def __init__(cls, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        # Each class needs its own instances. Otherwise, the type of a unit
+        # would depend on which class first created that unit.
+        cls._instances = aliased.MutableMapping()
 
     def __call__(
         cls,
-- 
2.43.0


From f4ee202f0f98cd0e0d940956c22fbb70b9b9c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:00 +0000
Subject: [PATCH 015/104] fix: convert between two prefixed units with
 different base units

---
 src/goats/core/metric.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cee9fc0..b2cf041 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1700,6 +1700,8 @@ class Conversion(iterables.ReprStrMixin):
           to `u0`;
         * a multi-step conversion recursively built by calling back to
           `~Conversions._convert_as_strings`
+        * a multi-step conversion, as above, from a unit that has the same base
+          unit as, but different metric scale than, `u0`
 
         If it does not succeed, it will return ``None`` in order to allow other
         methods an opportunity to convert `u0` to `u1`.
@@ -1723,6 +1725,14 @@ class Conversion(iterables.ReprStrMixin):
             if unit not in self._checked:
                 if value := self._convert_as_strings(unit, u1, scale=scale):
                     return weight * value
+        if u0 not in self.units and u0 in named_units:
+            n0 = NamedUnit(u0)
+            for ux in self.units:
+                if ux in named_units and ux not in self._checked:
+                    nx = NamedUnit(ux)
+                    if nx.base == n0.base:
+                        if value := self._convert_as_strings(ux, u1):
+                            return scale * (nx // n0) * value
 
     @classmethod
     def _rescale(cls, u0: str, u1: str):
-- 
2.43.0


From d55daed2963cf8c7a7103b54a2ad96e3f046702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:18:34 +0000
Subject: [PATCH 016/104] fix: start the search for each matching unit term
 afresh

---
 src/goats/core/metric.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index b2cf041..548e196 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1820,6 +1820,7 @@ class Conversion(iterables.ReprStrMixin):
         ]
         for term in like_terms:
             u1 = term.base
+            self._checked = []
             if conversion := self._convert_as_strings(u0, u1):
                 return conversion ** exponent, term
         named = NamedUnit(u0)
-- 
2.43.0


From 875396ecec34f73fae0cbb009fd5956a97b3bba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:22:57 +0000
Subject: [PATCH 017/104] fix: let a unit have no dimension in a system that
 does not define it

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 548e196..3d738a1 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1362,7 +1362,7 @@ class NamedUnit(iterables.ReprStrMixin, metaclass=_NamedUnitMeta):
         if self._dimensions is None:
             systems = {system for system in self.systems['defined']}
             self._dimensions = {
-                k: symbolic.Expression(v)
+                k: symbolic.Expression(v) if v else None
                 for k, v in self._get_dimensions(systems).items()
             }
         return self._dimensions.copy()
-- 
2.43.0


From 6f5d68c6b5d5ce1d9f714e4d457d968d21c47de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:41 +0000
Subject: [PATCH 018/104] fix: parse numbers in scientific notation with a
 signed exponent

---
 src/goats/core/symbolic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/symbolic.py b/src/goats/core/symbolic.py
index e043a17..4834cec 100644
--- a/src/goats/core/symbolic.py
+++ b/src/goats/core/symbolic.py
@@ -858,8 +858,11 @@ class OperandFactory(PartFactory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            # A variable is at least as long as its coefficient, unless the
+            # "variable" is part of a number (e.g., '1e' in '1e-6').
+            sizes = {k: len(match[0]) for k, match in matches.items()}
+            longer = sizes['variable'] > sizes['constant']
+            key = 'variable' if longer else 'constant'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From 7c4948788b133137ae25880a155d0c7aa3e1a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:00 +0000
Subject: [PATCH 019/104] fix: find a defined conversion however its compound
 unit is written

---
 src/goats/core/metric.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 3d738a1..efb91c0 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1677,17 +1677,28 @@ class Conversion(iterables.ReprStrMixin):
         
         The aliases of `unit` comprise the given string, as well as the
         canonical name and symbol of the corresponding named unit, if one
-        exists.
+        exists. If `unit` is not a named unit, they include the defined compound
+        unit that is symbolically equal to `unit`, if one exists.
         """
         built = [unit]
         if unit in named_units:
             known = NamedUnit(unit)
             built.extend([known.symbol, known.name])
+        else:
+            canonical = str(symbolic.Expression(unit))
+            if canonical in cls._compound:
+                built.append(cls._compound[canonical])
         return built
 
     units = CONVERSIONS.nodes
     """Local copy of `~metric.CONVERSIONS.nodes`."""
 
+    _compound = {
+        str(symbolic.Expression(unit)): unit
+        for unit in CONVERSIONS.nodes if unit not in named_units
+    }
+    """The defined compound units, keyed by canonical expression string."""
+
     def _complex_conversion(self, u0: str, u1: str, scale: float=1.0):
         """Attempt to compute a complex conversion from `u0` to `u1`.
 
-- 
2.43.0


From 2f22f3c617f6ffb5045f62aa704b5c843d0a13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:25 +0000
Subject: [PATCH 020/104] fix: do not cancel base units of different systems in
 a conversion

---
 src/goats/core/metric.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index efb91c0..1a3e018 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1781,6 +1781,7 @@ class Conversion(iterables.ReprStrMixin):
         """Attempt to compute a conversion via unit dimensions."""
         decomposed = []
         factor = 1.0
+        systems = set()
         for term in terms:
             named = NamedUnit(term.base)
             try:
@@ -1788,6 +1789,10 @@ class Conversion(iterables.ReprStrMixin):
             except SystemAmbiguityError:
                 return
             if reduction:
+                dimension = DIMENSIONS[named.quantity]
+                if not symbolic.equality(dimension['mks'], dimension['cgs']):
+                    # The base units of this quantity depend on the system.
+                    systems.add(reduction.system)
                 factor *= reduction.scale**term.exponent
                 decomposed.extend(
                     [
@@ -1804,6 +1809,9 @@ class Conversion(iterables.ReprStrMixin):
                 # Ignoring a term that we can't reduce would produce a factor
                 # between units with different dimensions.
                 return
+        if len(systems) > 1:
+            # Base units of different systems do not cancel.
+            return
         reduced = symbolic.Expression(decomposed)
         if reduced == '1':
             return factor
-- 
2.43.0


From 0f40d1195ed866fad6bd9bfc2e33b84b87329089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:59 +0000
Subject: [PATCH 021/104] fix: give the identity's properties to a quantity
 that cancels to 1

---
 src/goats/core/metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 1a3e018..ef97c5b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -841,6 +841,9 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
         entry, it will attempt to create the equivalent `dict` by symbolically
         evaluating the terms in the entry.
         """
+        if quantity == '1':
+            # This is what quantities that cancel each other reduce to.
+            return self._get_property('identity')
         if quantity not in _QUANTITIES:
             return self._parse(quantity)
         q = _QUANTITIES[quantity]
-- 
2.43.0


From 9daeb84fcb41d48e3215c756518ccc316538eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:33 +0000
Subject: [PATCH 022/104] fix: report an unknown quantity instead of recursing

---
 src/goats/core/metric.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index ef97c5b..8d20149 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -871,9 +871,12 @@ class _Property(collections.abc.Mapping, iterables.ReprStrMixin):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity != '1' and quantity not in _QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 61d636e02841d454779d11c98c55fe72c2b70a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:16 +0000
Subject: [PATCH 023/104] fix: find the unit of a dimension however the
 dimension is written

---
 src/goats/core/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 8d20149..cbf50e0 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2820,8 +2820,9 @@ class System(collections.abc.Mapping, iterables.ReprStrMixin):
         target: typing.Union[str, Dimension],
     ) -> Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        this = Dimension(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if this == dimension:
                 return Unit(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From 62a322b97342c4f437a2265d0805c5c0afffb9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 024/104] fix: do not take an undefined dimension for a
 dimensionless one

---
 src/goats/core/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index cbf50e0..3fc96a0 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -2329,7 +2329,7 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         that = type(self)(other)
         for system in SYSTEMS:
             defined = self.dimensions[system]
-            given = that.dimensions.values()
+            given = [d for d in that.dimensions.values() if d is not None]
             if defined and any(d == defined for d in given):
                 return True
         if self.quantity == that.quantity:
-- 
2.43.0


From 43f1cd0921b5f4b54c62a77479f54644da18f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:38 +0000
Subject: [PATCH 025/104] fix: support in-place exponentiation of a metadata
 unit

---
 src/goats/core/metadata.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index a55aa1b..c2b7e78 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -570,10 +570,11 @@ class Unit(metric.Unit, Attribute):
             return super().__rtruediv__(other)
         return self
 
-    # NOTE: This class implements in-place multiplication and division with the
-    # following trivial definitions because otherwise, control will pass to
-    # `Attribute.__array_ufunc__`, which will (correctly) fail to find
-    # `_ufunc_multiply` or `_ufunc_divide`, result in an exception.
+    # NOTE: This class implements in-place multiplication, division, and
+    # exponentiation with the following trivial definitions because otherwise,
+    # control will pass to `Attribute.__array_ufunc__`, which will (correctly)
+    # fail to find `_ufunc_multiply`, `_ufunc_divide`, or `_ufunc_power`, result
+    # in an exception.
 
     __imul__ = __mul__
     """Called for self *= other."""
@@ -581,6 +582,9 @@ class Unit(metric.Unit, Attribute):
     __itruediv__ = __truediv__
     """Called for self /= other"""
 
+    __ipow__ = metric.Unit.__pow__
+    """Called for self **= other"""
+
     def __add__(self, other):
         """Called for self + other; either a no-op or an error."""
         return self._add_sub(other)
-- 
2.43.0


From 8af7306c01aa1c21731ee9ee87da8b3a5b91f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:36 +0000
Subject: [PATCH 026/104] fix: update the unit and name in in-place operations
 on a quantity

---
 src/goats/core/measurable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index c1100a6..3c0d95e 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -138,8 +138,8 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
             data = func(*args, **kwargs)
             meta = self.meta[name].evaluate(*operands, **kwargs)
             self._data = data
-            for k, v in meta:
-                setattr(self, k, v)
+            for k, v in meta.items():
+                setattr(self, f'_{k}', v)
             return self
         raise ValueError(f"Unknown operator mode {mode!r}")
 
-- 
2.43.0


From ff25f5f58f3fcdbbcea18c06dd073802928058ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:51 +0000
Subject: [PATCH 027/104] fix: convert a quantity to a metric system given in
 any case

---
 src/goats/core/measurable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 3c0d95e..4b2b814 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -203,7 +203,7 @@ class Quantity(Quantified):
         relatively intuitive syntax but is arguably an abuse of notation.
         """
         unit = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if unit == self._unit:
-- 
2.43.0


From 5899dcf112e25306b602c849d7c2db52883a6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:04 +0000
Subject: [PATCH 028/104] fix: keep the name of a quantity when converting its
 unit

---
 src/goats/core/measurable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 4b2b814..079c1dd 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -233,7 +233,8 @@ class Quantity(Quantified):
         object if doing so here would be inefficient.
         """
         data = self._data * (unit // self._unit)
-        return type(self)(data, unit=unit)
+        meta = {k: getattr(self, k) for k in self.meta.parameters}
+        return type(self)(data, **{**meta, 'unit': unit})
 
     def __measure__(self):
         """Create a measurement from this quantity's data and unit."""
-- 
2.43.0


From cf1bbf01d247693bf06ca9d52ab545bd4f342a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:16 +0000
Subject: [PATCH 029/104] fix: keep the unit and name of a scalar or vector
 when copying it

---
 src/goats/core/physical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 8fd7750..63ae3e3 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -66,6 +66,8 @@ class Scalar(Quantity, algebraic.Scalar):
     ) -> None: ...
 
     def __init__(self, __data, **meta) -> None:
+        if isinstance(__data, Scalar):
+            meta = {k: getattr(__data, k) for k in ('unit', 'name')}
         super().__init__(float(__data), **meta)
 
     def __iter__(self):
@@ -161,7 +163,7 @@ class Vector(Quantity):
         if isinstance(__data, measurable.Measurement):
             meta = {'unit': __data.unit}
             __data = __data.data
-        elif isinstance(__data, Scalar):
+        elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
             __data = __data.data
         array = numpy.asfarray(list(iterables.whole(__data)))
-- 
2.43.0


From 965d52bfdd89fcbfda620d2d92970faa7daec864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:06 +0000
Subject: [PATCH 030/104] fix: keep the scale of an array quantity consistent
 with its data when copying it

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 63ae3e3..d0aa8b9 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -242,8 +242,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
     def __init__(self, __data, **meta) -> None:
         """Initialize an array from arguments."""
         super().__init__(__data, **meta)
-        self._scale = 1.0
-        self._full_array = getattr(__data, '_array', None)
+        self._scale = getattr(__data, '_scale', 1.0)
+        self._full_array = getattr(__data, '_full_array', None)
         self._ndim = None
         self._shape = None
         self.display.register(data='_get_data_type')
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index ed278cb..66ef35f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -39,10 +39,10 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             if isinstance(__interface, measurable.Quantified)
             else __interface
         )
-        # Carry the internal array from an existing instance.
-        self._full_array = getattr(__interface, '_array', None)
-        # Reset the internal array scale factor.
-        self._scale = 1.0
+        # Carry the internal array and its scale factor from an existing
+        # instance, so that they stay consistent with the (unscaled) data.
+        self._full_array = getattr(__interface, '_full_array', None)
+        self._scale = getattr(__interface, '_scale', 1.0)
         # Initialize other attributes to `None`.
         self._ndim = None
         self._shape = None
-- 
2.43.0


From dbfd97489bc722ea0ee6a730b7fffd74edc448c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:06 +0000
Subject: [PATCH 031/104] fix: convert a variable to a metric system given in
 any case

---
 src/goats/core/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 66ef35f..f7c4d8e 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -579,7 +579,7 @@ class Quantity(Array):
             system as the existing unit.
         """
         this = (
-            self.unit.norm[arg]
+            self.unit.norm[str(arg).lower()]
             if str(arg).lower() in metric.SYSTEMS else arg
         )
         if this == self.unit:
-- 
2.43.0


From 3f12b01fdd5954c1cce384a937743bbb40c42cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:06 +0000
Subject: [PATCH 032/104] fix: respect slices and indices after an ellipsis
 when indexing an array with sequences

---
 src/goats/core/physical.py | 4 ++--
 src/goats/core/variable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d0aa8b9..d432dcd 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -367,7 +367,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
             args = [args]
         expanded = self._expand_ellipsis(args)
         idx = [
-            range(self.shape[i])
+            range(self.shape[i])[arg]
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -386,7 +386,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index f7c4d8e..9607ede 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -152,7 +152,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
             args = [args]
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])
+            range(self.shape[i])[arg]
             if isinstance(arg, slice) else arg
             for i, arg in enumerate(expanded)
         ]
@@ -170,7 +170,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-            *user[slice(start+length, self.ndim)],
+            *user[start+1:],
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
-- 
2.43.0


From 19bb9ba1d6e73a65850aa9833506e503fa199026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:57 +0000
Subject: [PATCH 033/104] fix: compute the shape of a variable subscripted by
 integers with partial, negative, or strided indices

---
 src/goats/core/variable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 9607ede..2db56aa 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -122,9 +122,11 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         result = numpy.array(array, ndmin=self.ndim)
         if array.ndim != self.ndim:
             with contextlib.suppress(TypeError):
+                expanded = self._expand_ellipsis(tuple(indices))
+                missing = [slice(None)] * (self.ndim - len(expanded))
                 shape = [
                     self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
+                    for i, v in enumerate([*expanded, *missing])
                 ]
                 return self._copy_with(data=result.reshape(shape))
         return self._copy_with(data=result)
@@ -134,7 +136,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(self.shape[i])[v])
         return self.shape[i]
 
     def _normalize_indices(self, args):
-- 
2.43.0


From d4a1b6676482ff64c09344bbbe9e09cc99a25b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:57 +0000
Subject: [PATCH 034/104] fix: do not truncate a product of variables with
 different axis sizes

---
 src/goats/core/variable.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 2db56aa..a01d7fc 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -607,13 +607,11 @@ class Quantity(Array):
         correct_type = all(isinstance(v, type(self)) for v in inputs)
         if multiplicative and correct_type:
             dims = self.dimensions.merge(*[v.dimensions for v in inputs])
-            tmp = {}
-            for v in inputs:
-                tmp.update(v.shape_dict)
-            full_shape = tuple(tmp[d] for d in dims)
-            indices = numpy.ix_(*[range(i) for i in full_shape])
             arrays = []
             for v in inputs:
+                # Let `numpy` broadcast or reject axes with different sizes.
+                sizes = [v.shape_dict.get(d, 1) for d in dims]
+                indices = numpy.ix_(*[range(i) for i in sizes])
                 idx = tuple(indices[dims.index(d)] for d in v.shape_dict)
                 arrays.append(v._get_array(idx))
             return arrays
-- 
2.43.0


From 829311c4e00fe407bba6ac5afb91b64dca75aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 035/104] fix: keep the right dimensions in the mean of a
 variable along any axis and in squeezing a given axis

---
 src/goats/core/variable.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index a01d7fc..d9f5762 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -623,26 +623,37 @@ class Quantity(Array):
         return dict(zip(self.dimensions, self.shape))
 
 
+def _normalize_axis(axis, ndim: int):
+    """Convert one or more axis numbers into non-negative integers."""
+    return {i % ndim for i in iterables.whole(axis)}
+
+
 @Quantity.implements(numpy.squeeze)
-def _squeeze(v: Quantity, **kwargs):
+def _squeeze(v: Quantity, axis=None):
     """Remove singular axes."""
-    data = v._array.squeeze(**kwargs)
+    data = v._array.squeeze(axis=axis)
+    removed = (
+        [i for i, d in enumerate(v.shape) if d == 1] if axis is None
+        else _normalize_axis(axis, v.ndim)
+    )
     dimensions = tuple(
-        a for a, d in zip(v.dimensions, v.shape)
-        if d != 1
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
 
 @Quantity.implements(numpy.mean)
-def _mean(v: Quantity, **kwargs):
+def _mean(v: Quantity, axis=None, *args, **kwargs):
     """Compute the mean of the underlying array."""
-    data = v._array.mean(**kwargs)
-    axis = kwargs.get('axis')
+    data = v._array.mean(axis, *args, **kwargs)
     if axis is None:
         return data
+    removed = (
+        () if numpy.ndim(data) == v.ndim # because of `keepdims`
+        else _normalize_axis(axis, v.ndim)
+    )
     dimensions = tuple(
-        a for a in v.dimensions if v.dimensions.index(a) != axis
+        a for i, a in enumerate(v.dimensions) if i not in removed
     )
     return Quantity(data, dimensions=dimensions, unit=v.unit)
 
-- 
2.43.0


From d6a06f5b65e94e3816f12c64dca264b594c57cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:27 +0000
Subject: [PATCH 036/104] fix: do not take dimensions in a different order for
 equal ones

---
 src/goats/core/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index c2b7e78..b368c12 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -830,9 +830,10 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __eq__(self, other):
         """True if self and other represent the same dimensions."""
+        if isinstance(other, Dimensions):
+            return other._names == self._names
         return (
-            isinstance(other, Dimensions) and other._names == self._names
-            or (
+            (
                 isinstance(other, str)
                 and len(self) == 1
                 and other == self._names[0]
-- 
2.43.0


From 8719c7d16dabd5353731ff4c616c2aeb91733ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:52 +0000
Subject: [PATCH 037/104] fix: refuse to order arrays with different units

---
 src/goats/core/physical.py | 3 +++
 src/goats/core/variable.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index d432dcd..efd2a13 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -390,6 +390,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _ORDERINGS = ('less', 'less_equal', 'greater', 'greater_equal')
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -425,6 +426,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._ORDERINGS and not metadata.consistent('unit', *args):
+            raise ValueError(f"Can't apply {name!r} to different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index d9f5762..307dc4f 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -176,6 +176,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         )
 
     _HANDLED_TYPES = (numpy.ndarray, numbers.Number, list)
+    _ORDERINGS = ('less', 'less_equal', 'greater', 'greater_equal')
 
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
         """Provide support for `numpy` universal functions.
@@ -211,6 +212,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                 else x for x in out
             )
         name = ufunc.__name__
+        if name in self._ORDERINGS and not metadata.consistent('unit', *args):
+            raise ValueError(f"Can't apply {name!r} to different units")
         operands = self._ufunc_hook(ufunc, *args)
         compute = getattr(ufunc, method)
         data = compute(*operands, **kwargs)
-- 
2.43.0


From 27062cae1329f4cf02bf55fbf948d30774609bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 038/104] fix: accept numpy integers, a single list, and
 integers mixed with sequences as array indices

---
 src/goats/core/physical.py |  6 +++---
 src/goats/core/variable.py | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index efd2a13..dffa1cf 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -315,7 +315,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (int, numpy.integer, slice, type(...), type(None))
 
     @typing.overload
     def __getitem__(
@@ -363,8 +363,8 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         This method handles all cases that don't meet the criteria for
         `_subscript_standard`.
         """
-        if not isinstance(args, (tuple, list)):
-            args = [args]
+        if not isinstance(args, tuple):
+            args = (args,)
         expanded = self._expand_ellipsis(args)
         idx = [
             range(self.shape[i])[arg]
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index 307dc4f..f34d12e 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -112,7 +112,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
                     return getattr(attr, name)
         raise AttributeError(f"Could not find an attribute named {name!r}")
 
-    _builtin = (int, slice, type(...), type(None))
+    _builtin = (int, numpy.integer, slice, type(...), type(None))
 
     def __getitem__(self, *args):
         """Extract a subarray."""
@@ -133,7 +133,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
 
     def _get_axis_size(self, i: int, v):
         """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
+        if isinstance(v, numbers.Integral):
             return 1
         if isinstance(v, slice):
             return len(range(self.shape[i])[v])
@@ -150,12 +150,12 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         """
         if iterables.hastype(args, self._builtin, tuple, strict=True):
             return args
-        if not isinstance(args, (tuple, list)):
-            args = [args]
+        if not isinstance(args, tuple):
+            args = (args,)
         expanded = self._expand_ellipsis(args)
         indices = [
-            range(self.shape[i])[arg]
-            if isinstance(arg, slice) else arg
+            range(self.shape[i])[arg] if isinstance(arg, slice)
+            else [arg] if isinstance(arg, numbers.Integral) else arg
             for i, arg in enumerate(expanded)
         ]
         return numpy.ix_(*list(indices))
-- 
2.43.0


From 24f5db7a3f7a94474486b1f1d070299e402ec623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 039/104] fix: allow an ellipsis after an index array

---
 src/goats/core/physical.py | 2 +-
 src/goats/core/variable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index dffa1cf..702b8de 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -382,7 +382,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, Quantity):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index f34d12e..a19b848 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -168,7 +168,7 @@ class Array(numpy.lib.mixins.NDArrayOperatorsMixin, measurable.Quantified):
         if all(idx is not Ellipsis for idx in user):
             return user
         length = self.ndim - len(user) + 1
-        start = user.index(Ellipsis)
+        start = [idx is Ellipsis for idx in user].index(True)
         return (
             *user[slice(start)],
             *([slice(None)] * length),
-- 
2.43.0


From 025ce5f8a124bc718aa8dd75bc14ff9123eb4140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:03 +0000
Subject: [PATCH 040/104] fix: measure values with a unit given as an object,
 and refuse to drop values

---
 src/goats/core/measurable.py | 47 ++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 079c1dd..1314e34 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -310,9 +310,9 @@ def ismeasurable(this):
         return False
     if iterables.allinstance(args, numbers.Number):
         return True
-    if isinstance(args[-1], metadata.UnitLike):
-        arg0 = args[0]
-        values = arg0 if isinstance(arg0, typing.Iterable) else args[:-1]
+    *values, last = args
+    if isinstance(last, metadata.UnitLike):
+        values = iterables.unwrap(values, wrap=list)
         if iterables.allinstance(values, numbers.Number):
             return True
     if all(ismeasurable(i) for i in args):
@@ -369,9 +369,19 @@ def parse_measurable(args, distribute: bool=False):
         result = (unwrapped, '1')
         return [result] if distribute else result
 
+    # Let a formally measurable object measure itself.
+    if isinstance(unwrapped, _Formal):
+        measured = unwrapped.__measure__()
+        return _wrap_measurable(measured.data, str(measured.unit), distribute)
+
+    # Raise an error for objects that can't contain values.
+    if (
+        isinstance(unwrapped, metadata.UnitLike)
+        or not isinstance(unwrapped, iterables.whole)
+    ): raise Unmeasurable(unwrapped) from None
+
     # Count the number of distinct unit-like objects.
-    types = [type(arg) for arg in unwrapped]
-    n_units = sum(types.count(t) for t in (str, metadata.Unit))
+    n_units = sum(isinstance(arg, metadata.UnitLike) for arg in unwrapped)
 
     # Raise an error for multiple units.
     if n_units > 1:
@@ -386,20 +396,25 @@ def parse_measurable(args, distribute: bool=False):
     if all(isinstance(arg, numbers.Number) for arg in unwrapped):
         return _wrap_measurable(unwrapped, '1', distribute)
 
-    # Recursively handle an iterable of whole (distinct) items.
-    if all(isinstance(arg, iterables.whole) for arg in unwrapped):
+    # Recursively handle an iterable of measurable items.
+    if n_units == 0:
         return _callback_parse(unwrapped, distribute)
 
-    # Ensure an explicit unit-like object
-    unit = ensure_unit(unwrapped)
+    # Separate the values from the unit.
+    *values, last = unwrapped
+    if not isinstance(last, metadata.UnitLike):
+        errmsg = "The unit must follow all values."
+        raise MeasuringTypeError(errmsg) from None
+    unit = ensure_unit([last])
 
-    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
-    if all(isinstance(arg, numbers.Number) for arg in unwrapped[:-1]):
-        return _wrap_measurable(unwrapped[:-1], unit, distribute)
+    # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm'), and
+    # iterable values with a unit, like [(1.1, 2.3), 'm'].
+    values = iterables.unwrap(values, wrap=list)
+    if all(isinstance(value, numbers.Number) for value in values):
+        return _wrap_measurable(values, unit, distribute)
 
-    # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-    if isinstance(unwrapped[0], (list, tuple, range)):
-        return _wrap_measurable(unwrapped[0], unit, distribute)
+    # There is nothing else that we know how to measure.
+    raise Unmeasurable(unwrapped) from None
 
 
 def _wrap_measurable(values, unit, distribute: bool):
@@ -432,7 +447,7 @@ def _callback_parse(unwrapped, distribute: bool):
 def ensure_unit(args):
     """Extract the given unit or assume the quantity is unitless."""
     last = args[-1]
-    implicit = not any(isinstance(arg, (str, metadata.Unit)) for arg in args)
+    implicit = not any(isinstance(arg, metadata.UnitLike) for arg in args)
     explicit = last in ['1', metadata.Unit('1')]
     if implicit or explicit:
         return '1'
-- 
2.43.0


From bb47094a0b40a461075693811eed2171c75d32d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:10 +0000
Subject: [PATCH 041/104] fix: allow metadata operations on callables without a
 signature

---
 src/goats/core/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index b368c12..75f48ba 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -4,6 +4,7 @@ Objects and functions for operating on metadata.
 
 import abc
 import collections.abc
+import contextlib
 import fractions
 import inspect
 import math
@@ -352,7 +353,9 @@ class Operation(typing.Generic[T], iterables.ReprStrMixin):
         operator.__name__ = self.name or f'__{method.__name__}__'
         operator.__doc__ = method.__doc__
         if callable(method) and not isinstance(method, type):
-            operator.__text_signature__ = str(inspect.signature(method))
+            with contextlib.suppress(ValueError):
+                # Some built-in callables don't provide a signature.
+                operator.__text_signature__ = str(inspect.signature(method))
         return operator
 
     def __eq__(self, __o):
-- 
2.43.0


From 612f3e8a2c036a46142ba420e1d39132bf728fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 042/104] fix: refuse negative indices beyond the first value

---
 src/goats/core/measurable.py | 2 --
 src/goats/core/physical.py   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 1314e34..77c2536 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -46,8 +46,6 @@ class Measurement(collections.abc.Sequence, iterables.ReprStrMixin):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = iterables.whole(self.data[index])
         unit = str(self.unit)
         return [(value, unit) for value in values]
diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 702b8de..e24b492 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -181,8 +181,6 @@ class Vector(Quantity):
         """Called for index-based value access."""
         if isinstance(index, str):
             return super().__getitem__(index)
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
         unit = self.unit
-- 
2.43.0


From 60c34fcf853ecd68bd8392f5c83f04ff45e64cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:20 +0000
Subject: [PATCH 043/104] fix: refuse to measure a quantity with another unit

---
 src/goats/core/measurable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 77c2536..7d39285 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -310,6 +310,8 @@ def ismeasurable(this):
         return True
     *values, last = args
     if isinstance(last, metadata.UnitLike):
+        if hasattr(iterables.unwrap(values), '__measure__'):
+            return False
         values = iterables.unwrap(values, wrap=list)
         if iterables.allinstance(values, numbers.Number):
             return True
@@ -405,6 +407,10 @@ def parse_measurable(args, distribute: bool=False):
         raise MeasuringTypeError(errmsg) from None
     unit = ensure_unit([last])
 
+    # Raise an error for values that already have a unit.
+    if isinstance(iterables.unwrap(values), _Formal):
+        raise Unmeasurable(unwrapped) from None
+
     # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm'), and
     # iterable values with a unit, like [(1.1, 2.3), 'm'].
     values = iterables.unwrap(values, wrap=list)
-- 
2.43.0


From a28e9b2350b78b808324fac00c7317ff3bd43440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 044/104] fix: find the nearest bounded value in unsorted or
 multidimensional arrays

---
 src/goats/core/numerical.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 8b97a0b..844e360 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -107,19 +107,12 @@ def find_nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
-    if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
-    elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+    distance = numpy.abs(array - target)
+    if bound == 'lower' and numpy.any(array >= target):
+        distance = numpy.where(array >= target, distance, numpy.inf)
+    elif bound == 'upper' and numpy.any(array <= target):
+        distance = numpy.where(array <= target, distance, numpy.inf)
+    index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From c95c60685d8d3c99d3092c20d3f41f7cf2132b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:36 +0000
Subject: [PATCH 045/104] fix: convert single points and points on the x = 0
 plane to spherical coordinates

---
 src/goats/core/numerical.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 844e360..58c46bd 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -206,19 +206,14 @@ def xyz2rtp(*args):
         x, y, z = args
     else:
         raise ArgsNumberError
+    x, y, z = numpy.asfarray(x), numpy.asfarray(y), numpy.asfarray(z)
     r = numpy.sqrt(x*x + y*y + z*z)
-    r[numpy.asarray(numpy.abs(r) < sys.float_info.epsilon).nonzero()] = 0.0
-    t = numpy.arccos(z/r)
-    t[numpy.asarray(r == 0).nonzero()] = 0.0
+    r = numpy.where(r < sys.float_info.epsilon, 0.0, r)
+    t = numpy.arccos(numpy.where(r == 0.0, 1.0, z / numpy.where(r == 0, 1, r)))
     p = numpy.arctan2(y, x)
-    p[numpy.asarray(p < 0.0).nonzero()] += 2*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j >= 0 for (i, j) in zip(x, y)]
-    ).nonzero()] = +0.5*numpy.pi
-    p[numpy.asarray(
-        [i == 0 and j < 0  for (i, j) in zip(x, y)]
-    ).nonzero()] = -0.5*numpy.pi
-    return (r, t, p)
+    p = numpy.where(p < 0.0, p + 2*numpy.pi, p)
+    # NOTE: The empty index converts 0-D arrays to scalars.
+    return (r[()], t[()], p[()])
 
 
 def rtp2xyz(*args):
@@ -261,6 +256,7 @@ def rtp2xyz(*args):
         r, t, p = args
     else:
         raise ArgsNumberError
+    r, t, p = numpy.asfarray(r), numpy.asfarray(t), numpy.asfarray(p)
     x = r * numpy.sin(t) * numpy.cos(p)
     x = zero_floor(x)
     y = r * numpy.sin(t) * numpy.sin(p)
-- 
2.43.0


From b4b58d9858b87eebc33a3378a6fdc69876e5f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:15 +0000
Subject: [PATCH 046/104] fix: compute the flow angle from the cosine between
 the fields

---
 src/goats/core/computed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 165b10f..27024c7 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -99,9 +99,8 @@ def flow_angle(
     vp: numpy.ndarray,
 ) -> numpy.ndarray:
     """The angle between the magnetic- and velocity-field vectors."""
-    b_dot_v = v_para(br, bt, bp, vr, vt, vp)
-    bv = bv_mag(br, bt, bp, vr, vt, vp)
-    arg = numpy.array(b_dot_v / bv)
+    para = v_para(vr, vt, vp, br, bt, bp)
+    arg = numpy.array(para / v_mag(vr, vt, vp))
     arg[arg < -1.0] = -1.0
     arg[arg > +1.0] = +1.0
     return numpy.arccos(arg)
-- 
2.43.0


From 085e70e78a607b3c1385d5b86cfb73e7b6523b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:15 +0000
Subject: [PATCH 047/104] fix: compute the perpendicular velocity of parallel
 fields

---
 src/goats/core/computed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 27024c7..42a23cf 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -131,7 +131,8 @@ def v_perp(
     """The velocity-field component parallel to the magnetic field."""
     mag = v_mag(vr, vt, vp)
     para = v_para(vr, vt, vp, br, bt, bp)
-    return numpy.sqrt(mag**2 - para**2)
+    # Rounding may cause a small negative difference in parallel fields.
+    return numpy.sqrt(numpy.maximum(mag**2 - para**2, 0.0))
 
 
 @registry.register
-- 
2.43.0


From e8cc3b4b810537fe3e663e5a66fe7d0255b94f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:15 +0000
Subject: [PATCH 048/104] fix: compute the rigidity of more than one species

---
 src/goats/core/computed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 42a23cf..3a6bee1 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -182,11 +182,17 @@ def rigidity(
     it divides the momentum by the particle charge to get rigidity.
     """
     c = float(MKS['c'])
+    mass = _by_species(mass)
+    charge = _by_species(charge)
     total_energy = numpy.array(energy, ndmin=1) + mass*c**2
     rest_energy = mass*c**2
     p = numpy.sqrt(total_energy**2 - rest_energy**2) / c
     return p / charge
 
+def _by_species(arg: typing.Union[numpy.ndarray, float]):
+    """Align a species-dependent array with the leading axis of energies."""
+    return arg[:, numpy.newaxis] if numpy.ndim(arg) == 1 else arg
+
 
 @registry.register
 def mean_free_path(
-- 
2.43.0


From 4d5db31c1f8717796c069739a243e7f53640bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:15 +0000
Subject: [PATCH 049/104] fix: integrate the flux of each species over its own
 energies

---
 src/goats/core/computed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 3a6bee1..a9deac0 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -375,10 +375,10 @@ def integral_flux(
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-        use_all = m < numpy.min(energies)
         for s, species_energy in enumerate(energies):
             f = flux[..., s, :]
             e = species_energy
+            use_all = m < numpy.min(e)
             y, x = (f, e) if use_all else _interpolate(f, e, m)
             int_flux[..., s, i] = integrate.simpson(y, x)
     return int_flux
-- 
2.43.0


From 8408f09952aa5345c324b747beac08434133d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:10 +0000
Subject: [PATCH 050/104] fix: compute observable quantities consistently in
 any metric system

---
 src/goats/eprem/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 42d8a61..10b09a1 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -412,8 +412,15 @@ class Context(observing.Context):
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
         """Determine dependencies and compute the result of this function."""
-        dependencies = {p: self.get_dependency(p) for p in q.parameters}
-        return q(**dependencies)
+        # The functions in `computed` use MKS constants, so we need to evaluate
+        # them in MKS before converting the result to the current system.
+        dependencies = {p: self.get_dependency(p)['mks'] for p in q.parameters}
+        mks = computed.Quantity(
+            q.method,
+            dimensions=q.dimensions,
+            unit=q.unit.norm['mks'],
+        )
+        return mks(**dependencies)[q.unit]
 
     def get_dependency(self, key: str):
         """Get the named constant or variable quantity."""
-- 
2.43.0


From 4c0096cc8bb7f663e5b940cc964d448142d81455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 051/104] fix: report the axis values at the requested indices

---
 src/goats/eprem/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 10b09a1..8a86df7 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -162,8 +162,9 @@ class Axes(aliased.Mapping):
                 # NOTE: The presence of `unit` is a hack because 'shell'
                 # currently gets a unit of '1' even though it should probably be
                 # None. This hack is due to the design of `axis.Quantity`.
-                return index.Data(targets)
-            self._shell = axis.Indexer(method, len(self.variables['shell']))
+                return index.Data(targets, values=shells[list(targets)])
+            shells = numpy.array(self.variables['shell'])
+            self._shell = axis.Indexer(method, len(shells))
         return self._shell
 
     @property
@@ -218,7 +219,7 @@ class Axes(aliased.Mapping):
                     if isinstance(target, str) else int(target)
                     for target in targets
                 ]
-                return index.Data(indices, values=symbols)
+                return index.Data(indices, values=[symbols[i] for i in indices])
             self._species = axis.Indexer(method, len(symbols))
         return self._species
 
@@ -236,7 +237,10 @@ class Axes(aliased.Mapping):
                 )
             if all(isinstance(t, typing.SupportsIndex) for t in targets):
                 # All the target values are already indices.
-                return index.Data(targets, values=numpy.array(converted))
+                return index.Data(
+                    targets,
+                    values=numpy.array(converted)[list(targets)],
+                )
             measured = measurable.measure(targets)
             if measured.unit != '1':
                 # If the targets include a dimensioned unit, we want to
-- 
2.43.0


From 097d092f684f6b63cd7d8f7225966122d13fb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 052/104] fix: keep the metric system of an observer when
 updating its paths

---
 src/goats/eprem/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 8a86df7..6abab47 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -670,7 +670,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
         self._system = system or 'mks'
         self._datapath = None
         self._confpath = None
-        context = self._build_context(system=system)
+        context = self._build_context()
         if context:
             self._variables = context.variables
             self._axes = context.axes
@@ -699,7 +699,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             return super().update(context)
         return self
 
-    def _build_context(self, source=None, config=None, system=None):
+    def _build_context(self, source=None, config=None):
         """Create an instance of the EPREM observing context."""
         if config:
             self._config = config
@@ -709,8 +709,8 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             self._datapath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
-            variables = Variables(dataset, system=system or 'mks')
-            axes = Axes(dataset, system=system or 'mks')
+            variables = Variables(dataset, system=self._system)
+            axes = Axes(dataset, system=self._system)
             constants = runtime.Interface(self.confpath)
             return Context(variables, axes, constants)
 
-- 
2.43.0


From 06d0a44d6b85f8849b80ff0df5f31792926d7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 053/104] fix: interpolate over coordinates that depend on
 another axis

---
 src/goats/core/interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/interpolation.py b/src/goats/core/interpolation.py
index 4cfa0ce..59ac87a 100644
--- a/src/goats/core/interpolation.py
+++ b/src/goats/core/interpolation.py
@@ -104,7 +104,7 @@ def _apply_interp1d(
     axis: int=None,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    if reference.ndim == 1 and target in reference:
         idx = numerical.find_nearest(reference, target).index
         return array[idx]
     if axis is not None:
@@ -119,7 +119,7 @@ def _apply_interp1d(
     else:
         ref = reference
         arr = array
-    # NOTE: If `ref.size == 1`, the restriction process constrained the
+    # NOTE: If there is only one reference value per row, the restriction process constrained the
     # reference array to a single value. There is no point in attempting to
     # interpolate over a single reference value since interpolation will fail
     # with fewer than two interpolant values. This may mean that `target` is
@@ -128,8 +128,8 @@ def _apply_interp1d(
     # that `target` is far enough from the extrema of `reference` to represent a
     # truly erroneous value.
     if reference.ndim == 2:
-        if ref.size == 1:
-            return numpy.array([numpy.squeeze(y) for y in arr])
+        if ref.shape[1] == 1:
+            return arr[:, 0]
         interps = [interp1d(x, y, axis=0) for x, y in zip(ref, arr)]
         return numpy.array([interp(target) for interp in interps])
     if ref.size == 1:
-- 
2.43.0


From 821050fe72e32d49d8df94b2afd5f8ce5ed98c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:38 +0000
Subject: [PATCH 054/104] fix: interpolate over pitch angle and over
 species-independent energies

---
 src/goats/eprem/__init__.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 6abab47..5816ece 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -457,12 +457,6 @@ class Context(observing.Context):
         ]
         return q[tuple(indices)]
 
-    _axis_indices = {
-        'time': 0,
-        'energy': 1,
-        'mu': 1,
-    }
-
     def _compute_interpolants(self, q: variable.Quantity):
         """Determine the coordinate axes over which to interpolate."""
         coordinates = {}
@@ -479,7 +473,8 @@ class Context(observing.Context):
                         'reference': self.coordinates[dimension],
                     }
         interpolants = {
-            k: {**c, 'axis': self._axis_indices.get(k)}
+            # The target coordinate always varies along its last axis.
+            k: {**c, 'axis': c['reference'].ndim - 1}
             for k, c in coordinates.items()
         }
         if 'shell' not in q.dimensions:
-- 
2.43.0


From a42a03ccc6d042fca04755e7c30ab28e54c5da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:23 +0000
Subject: [PATCH 055/104] fix: interpolate after selecting the requested parts
 of other axes

---
 src/goats/eprem/__init__.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 5816ece..ec896ab 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -490,10 +490,15 @@ class Context(observing.Context):
                     floats = [float(values)]
                 else:
                     floats = [float(value) for value in values]
-                interpolants['radius'] = {
-                    'targets': numpy.array(floats),
-                    'reference': self.coordinates['radius'],
-                    'axis': 1,
+                # Radius is a function of time, so we need to interpolate over
+                # radius before interpolating over time.
+                interpolants = {
+                    'radius': {
+                        'targets': numpy.array(floats),
+                        'reference': self.coordinates['radius'],
+                        'axis': 1,
+                    },
+                    **interpolants,
                 }
         return interpolants
 
@@ -503,24 +508,26 @@ class Context(observing.Context):
         coordinates: typing.Dict[str, typing.Dict[str, typing.Any]],
     ) -> variable.Quantity:
         """Internal interpolation logic."""
+        interpolated = [
+            # We only want to subscript the uninterpolated axes.
+            'shell' if d == 'radius' else d
+            for d in coordinates
+        ]
+        dimensions = [d for d in q.dimensions if d not in interpolated]
+        base = self._subscript(q, *dimensions) if dimensions else q
         array = None
         for coordinate in coordinates.values():
+            reference = coordinate['reference']
             array = self._interpolate_coordinate(
-                q,
+                base,
                 coordinate['targets'],
-                coordinate['reference'],
+                self._subscript(reference, *dimensions)
+                if dimensions else reference,
                 axis=coordinate.get('axis'),
                 workspace=array,
             )
         meta = {k: getattr(q, k, None) for k in q.meta.parameters}
-        base = type(q)(array, **meta)
-        interpolated = [
-            # We only want to subscript the uninterpolated axes.
-            'shell' if d == 'radius' else d
-            for d in coordinates
-        ]
-        dimensions = list(set(q.dimensions) - set(interpolated))
-        return self._subscript(base, *dimensions)
+        return type(q)(array, **meta)
 
     def _interpolate_coordinate(
         self,
-- 
2.43.0


From 194f2a5a3664af4abeb34c0141feb71886dbddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:23 +0000
Subject: [PATCH 056/104] fix: interpolate coordinate quantities like other
 quantities

---
 src/goats/eprem/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index ec896ab..0cd6318 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -387,9 +387,6 @@ class Context(observing.Context):
     def _observe(self, key: str) -> observing.Quantity:
         """Create an observation within the context of this application."""
         result = self._build(key)
-        if any(k in self.coordinates for k in reference.ALIASES.find(key, [])):
-            # This is an axis-reference quantity.
-            return self._subscript(result)
         needed = self._compute_interpolants(result)
         if not needed:
             # There are no axes over which to interpolate.
-- 
2.43.0


From 84ff96aad6c4b52c965a9ae668ae370c86e8dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:47 +0000
Subject: [PATCH 057/104] fix: observe each species at the requested energies

---
 src/goats/eprem/__init__.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 0cd6318..c05e4fd 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -460,11 +460,7 @@ class Context(observing.Context):
         for dimension in q.dimensions:
             idx = self.get_index(dimension)
             if idx and idx.unit is not None:
-                contained = [
-                    self.coordinates[dimension].array_contains(target)
-                    for target in idx.values
-                ]
-                if not numpy.all(contained):
+                if not self._contains_targets(dimension, idx):
                     coordinates[dimension] = {
                         'targets': numpy.array(idx.values),
                         'reference': self.coordinates[dimension],
@@ -499,6 +495,16 @@ class Context(observing.Context):
                 }
         return interpolants
 
+    def _contains_targets(self, dimension: str, idx: index.Quantity) -> bool:
+        """True if the indexed coordinate values are the target values."""
+        this = iterables.whole(self.constraints.get(dimension, slice(None)))
+        if all(isinstance(i, (typing.SupportsIndex, slice)) for i in this):
+            # The user gave indices, so we don't need to check their values.
+            return True
+        # Other axes may affect the values (e.g., species may affect energy).
+        found = numpy.array(self._subscript(self.coordinates[dimension]))
+        return bool(numpy.all(numpy.isclose(idx.values, found, atol=0.0)))
+
     def interpolate(
         self,
         q: variable.Quantity,
@@ -579,12 +585,16 @@ class Context(observing.Context):
         """Compute the axis-indexing object for `key`."""
         if key not in self.axes:
             raise ContextKeyError(f"No axis corresponding to {key!r}") from None
+        kwargs = {}
+        if key == 'energy':
+            # Energies may depend on species.
+            kwargs['species'] = self.get_index('species')[0]
         if key not in self.constraints:
-            return self.axes[key].index()
+            return self.axes[key].index(**kwargs)
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
-        return self.axes[key].index(*iterables.whole(this))
+        return self.axes[key].index(*iterables.whole(this), **kwargs)
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
         """Get the parameter value correpsonding to `key`."""
-- 
2.43.0


From ea963b6b931ce0d0c7b3b93bc85f25cd9ecd8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:58 +0000
Subject: [PATCH 058/104] fix: use the unit of a runtime parameter

Measuring an operational argument dropped its unit, so that (e.g.) a mean free
path in au at 1 au became a length in meters. Indexing it also wrapped negative
indices beyond the first value and failed for single values.
---
 src/goats/core/operational.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index d87d3e2..6ba99ae 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -11,6 +11,7 @@ import numpy.typing
 
 from goats.core import algebraic
 from goats.core import iterables
+from goats.core import measurable
 from goats.core import metadata
 from goats.core import metric
 from goats.core import physical
@@ -182,9 +183,7 @@ class Argument:
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, typing.SupportsIndex) and index < 0:
-            index += len(self)
-        data = self.data[index]
+        data = list(self)[index]
         try:
             iter(data)
         except TypeError:
@@ -197,6 +196,13 @@ class Argument:
             else physical.Scalar(data, unit=unit)
         )
 
+    def __measure__(self):
+        """Called for `~measurable.measure`(self)."""
+        values = list(self)
+        if not all(isinstance(value, numbers.Real) for value in values):
+            raise measurable.Unmeasurable(self) from None
+        return measurable.Measurement(values, self.unit or '1')
+
     @property
     def data(self):
         """This argument's value(s)."""
-- 
2.43.0


From d50cd4ed620104e7d7a85247f9daefc52f03c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:58 +0000
Subject: [PATCH 059/104] fix: compose observable quantities that have
 different dimensions

---
 src/goats/eprem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c05e4fd..a97162d 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -408,7 +408,7 @@ class Context(observing.Context):
         if len(expression) > 1:
             for term in expression[1:]:
                 result = self.get_observable(term.base)
-                q0 *= result ** term.exponent
+                q0 = q0 * result ** term.exponent
         return q0
 
     def compute(self, q: computed.Quantity) -> variable.Quantity:
-- 
2.43.0


From 1b57592b694bdf2890c7a7ac252fdfd3cc456652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 060/104] fix: compute the metadata of composed observable
 quantities

The exponent of the first quantity did not apply to the unit of the composition,
and the parameters were inaccessible.
---
 src/goats/core/observing.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7a118e6..3beb6d8 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -56,7 +56,7 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
         for b in others:
             if isinstance(b, Parameters):
                 names.extend(b._names)
-        return Parameters(*set(names))
+        return Parameters(*names)
 
     __mul__ = merge
     """Called for self * other."""
@@ -392,7 +392,7 @@ class Context(collections.abc.Collection, typing.Generic[T]):
 
     def get_parameters(self, name: str):
         """Compute or retrieve the parameters of a physical quantity."""
-        return Parameters(self.get_metadata('parameters', name))
+        return Parameters(*self.get_metadata('parameters', name))
 
     def get_quantity(self, name: str):
         """Retrieve a physical quantity by name, if available."""
@@ -409,6 +409,8 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         expression = symbolic.Expression(reference.NAMES.get(s, s))
         term = expression[0]
         built = self.get_attribute(name, term.base)
+        if built is not None:
+            built **= term.exponent
         if len(expression) > 1:
             for term in expression[1:]:
                 built *= self.get_attribute(name, term.base)**term.exponent
@@ -418,7 +420,9 @@ class Context(collections.abc.Collection, typing.Generic[T]):
         """Get the named attribute for the target quantity, if possible."""
         for mapping in self._mappings:
             if target in mapping:
-                return getattr(mapping[target], name, None)
+                found = getattr(mapping[target], name, None)
+                # Make sure it's possible to compose sets of parameters.
+                return Parameters(*found or ()) if name == 'parameters' else found
 
 
 C = typing.TypeVar('C', bound=Context)
-- 
2.43.0


From d30087fbce28e64bc9ba885532f09d50e79edb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 061/104] fix: check the spelling of any number of unknown
 quantities

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index 2454159..f983fb1 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -91,7 +91,7 @@ class Interface:
 
     def _check_spelling(self, key: str):
         """Catch misspelled names of physical quantities, if possible."""
-        keys = self.context.available
+        keys = {name for names in self.context.available for name in names}
         if self._spellcheck is None:
             self._spellcheck = spelling.SpellChecker(*keys)
         else:
-- 
2.43.0


From a084e7d1b83ba34f71355523dc68d487cedd5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:45 +0000
Subject: [PATCH 062/104] fix: suggest names that extend a misspelled name

---
 src/goats/core/spelling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/spelling.py b/src/goats/core/spelling.py
index 1e3ed85..c5ca806 100644
--- a/src/goats/core/spelling.py
+++ b/src/goats/core/spelling.py
@@ -78,7 +78,7 @@ class SpellChecker:
         """The strings made by splitting `word` at each pair of letters."""
         return [
             (word[:i], word[i:])
-            for i in range(len(word))
+            for i in range(len(word) + 1)
         ]
 
     def deletes(self, word: str) -> typing.List[str]:
-- 
2.43.0


From 2cfd625c2ed3d3f56ff8429af8eb51ae216a01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:52 +0000
Subject: [PATCH 063/104] fix: apply observing constraints given by any alias

A constraint given by an alias (e.g., `t=0` or `lam0=(2.0, 'au')`) had no effect.
---
 src/goats/core/observing.py | 14 ++++++++++++--
 src/goats/eprem/__init__.py |  5 +++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 3beb6d8..7385ec3 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -322,14 +322,24 @@ class Context(collections.abc.Collection, typing.Generic[T]):
           new set of user constraints upon the next call to the `constraints`
           property.
         """
+        expanded = {
+            alias: value for key, value in new.items()
+            for alias in self._get_aliases(key)
+        }
         if append:
-            self._user.update(new)
+            self._user.update(expanded)
         else:
-            self._user = dict(new)
+            self._user = expanded
         self._constraints = None
+        self._available = None
+        self._keys = None
         self._cache = {}
         return self
 
+    def _get_aliases(self, key: str) -> typing.Iterable[str]:
+        """Get all names equivalent to `key`, including `key`."""
+        return reference.ALIASES.find(key, [key])
+
     def __contains__(self, __x: str) -> bool:
         """True if `__x` is an available physical quantity."""
         return __x in self.keys
diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index a97162d..255370b 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -376,6 +376,11 @@ class Context(observing.Context):
         self._parameters = None
         self._coordinates = None
 
+    def _get_aliases(self, key: str):
+        if key in self.constants:
+            return self.constants.alias(key, include=True)
+        return super()._get_aliases(key)
+
     def observe(self, name: str) -> observing.Observation:
         result = self._observe(name)
         return observing.Observation(
-- 
2.43.0


From bb50fec7d294699de33c764c7ebea12c791e4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:52 +0000
Subject: [PATCH 064/104] fix: observe functions of mass and charge with
 multiple species

The masses and charges of a multi-species run come from the dataset. Treating
them as single-valued parameters of the observation raised an exception.
---
 src/goats/eprem/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 255370b..2d034ec 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -442,6 +442,7 @@ class Context(observing.Context):
             parameters = [
                 parameter for parameter in quantity.parameters
                 if parameter in self.parameters
+                and parameter not in self.variables
             ]
             return observing.Quantity(data, parameters=parameters)
         if isinstance(quantity, variable.Quantity):
-- 
2.43.0


From a0f4eccf85bec7eac5a9240d5b4c9062d08792f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 065/104] fix: select the same part of an axis as a python
 slice

Negative, zero, or large bounds in a slice selected the wrong indices.
---
 src/goats/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/axis.py b/src/goats/core/axis.py
index 9539070..0f94bb2 100644
--- a/src/goats/core/axis.py
+++ b/src/goats/core/axis.py
@@ -42,7 +42,7 @@ class Indexer(iterables.ReprStrMixin):
         if not user:
             return range(self.size)
         if isinstance(user[0], slice):
-            return iterables.slice_to_range(user[0], stop=self.size)
+            return range(self.size)[user[0]]
         if isinstance(user[0], range):
             return user[0]
         return user
-- 
2.43.0


From d4442d8879b736c55e164b233cdc115db2f5e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:18 +0000
Subject: [PATCH 066/104] fix: refuse to observe at coordinates with an
 inconsistent unit

An axis value with the wrong unit (e.g., time=(1.25, 'm')) became the same number
in the unit of that axis.
---
 src/goats/eprem/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 2d034ec..0d9a9dd 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -255,8 +255,7 @@ class Axes(aliased.Mapping):
                 # which may be dimensionless, the default unit is the
                 # appropriate unit for both cases.
                 array = physical.Array(measured.data, unit=unit)
-            if array.unit | converted.unit: # Could also use try/except
-                array = array[converted.unit]
+            array = array[converted.unit]
             values = numpy.array(array)
             indices = [
                 numerical.find_nearest(converted, float(value)).index
@@ -483,6 +482,9 @@ class Context(observing.Context):
             return interpolants
         for key in reference.ALIASES.find('radius'):
             if values := self.get_value(key):
+                if values.unit != '1':
+                    # Make sure the user gave a length.
+                    values = values[self.coordinates['radius'].unit]
                 try:
                     iter(values)
                 except TypeError:
-- 
2.43.0


From 284fe4afc4d963c5f70cab3dbd25ddb3d11638b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:40 +0000
Subject: [PATCH 067/104] fix: use the unit of a vector of coordinates

---
 src/goats/eprem/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 0d9a9dd..c30009d 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -602,7 +602,12 @@ class Context(observing.Context):
         this = self.constraints[key]
         if isinstance(this, index.Quantity):
             return this
-        return self.axes[key].index(*iterables.whole(this), **kwargs)
+        targets = (
+            # Separating a vector's values would drop their unit.
+            (this,) if isinstance(this, measurable.Quantity)
+            else iterables.whole(this)
+        )
+        return self.axes[key].index(*targets, **kwargs)
 
     def get_value(self, key: str, default: T=None) -> physical.Scalar:
         """Get the parameter value correpsonding to `key`."""
-- 
2.43.0


From a11643bcdb80e6665612d417e99ccd938a3cdba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:00 +0000
Subject: [PATCH 068/104] fix: index the energies of a dataset with a single
 energy

---
 src/goats/eprem/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index c30009d..7d3694a 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -195,11 +195,14 @@ class Axes(aliased.Mapping):
             ) -> index.Data:
                 s = self.species.compute([species]).points
                 t = (
-                    numpy.squeeze(targets[s, :])
+                    numpy.squeeze(targets[s, :], axis=0)
                     if getattr(targets, 'ndim', None) == 2
                     else targets
                 )
-                array = numpy.squeeze(this[s, :]) if this.ndim == 2 else this
+                array = (
+                    numpy.squeeze(this[s, :], axis=0)
+                    if this.ndim == 2 else this
+                )
                 compute = self._build_coordinate(array)
                 return compute(t, unit)
             size = this.shape[this.ndim-1]
-- 
2.43.0


From 473b11c3e0c31f23bfed95e6a0771ba3677e3340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 069/104] fix: compute the acceleration rate for species that
 share energies

---
 src/goats/core/computed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index a9deac0..70aebec 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -235,6 +235,9 @@ def acceleration_rate(
     v1 = _ahead(v)
     delta_v = v1 * numpy.abs(1 - v1_dot_v2 / (v1*v1))
     kxx_kpar = numpy.cos(angle)**2 + kper_kpar*numpy.sin(angle)**2
+    if vparticle.ndim == 1:
+        # All species share the same particle speeds.
+        vparticle = vparticle[numpy.newaxis, :]
     vpara = numpy.tensordot(kxx_kpar, vparticle, axes=0)
     kappa = mfp * (vpara / 3.0)
     forward = inverse = (2, 3, 0, 1)
-- 
2.43.0


From c5d033d6cf9e65fd64b7817cb0af4cb7bb651ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:56 +0000
Subject: [PATCH 070/104] fix: compute the integral flux of every species that
 shares energies

---
 src/goats/core/computed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/computed.py b/src/goats/core/computed.py
index 70aebec..7d795a7 100644
--- a/src/goats/core/computed.py
+++ b/src/goats/core/computed.py
@@ -375,6 +375,9 @@ def integral_flux(
             # dimensions is if the species dimensions was squeezed. Is this
             # a good assumption?
             flux = flux[:, :, None, :]
+    if len(energies) == 1:
+        # All species share the same energies.
+        energies = numpy.repeat(energies, flux.shape[2], axis=0)
     int_flux = numpy.zeros((*flux.shape[:3], len(minimum_energy)))
     for i, bound in enumerate(minimum_energy):
         m = max(bound, sys.float_info.min)
-- 
2.43.0


From fd175352dc9f7b0b09073e677e4980a41f4193c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:47 +0000
Subject: [PATCH 071/104] fix: find the bounding indices in a decreasing array

---
 src/goats/core/numerical.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 58c46bd..1007966 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -46,6 +46,11 @@ def find_1d_indices(
     target: float,
 ) -> typing.Tuple[int, int]:
     """Find the bounding indices in a 1-D array."""
+    last = len(array) - 1
+    if array[0] > array[last]:
+        # The values decrease along this array.
+        lower, upper = find_1d_indices(array[::-1], target)
+        return last-upper, last-lower
     leq = array <= target
     lower = numpy.where(leq)[0].max() if any(leq) else 0
     geq = array >= target
-- 
2.43.0


From 19942b9aff688a52816e30c26116e2d1fa55da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:47 +0000
Subject: [PATCH 072/104] fix: do not raise when casting a non-numeric object
 without strictness

---
 src/goats/core/numerical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/numerical.py b/src/goats/core/numerical.py
index 1007966..4af07ae 100644
--- a/src/goats/core/numerical.py
+++ b/src/goats/core/numerical.py
@@ -158,7 +158,7 @@ def cast(
     for t in types:
         try:
             return t(arg)
-        except ValueError:
+        except (TypeError, ValueError):
             pass
     if strict:
         raise TypeError(f"Can't convert {arg!r} to a number") from None
-- 
2.43.0


From 68f05335233c2f594dedff29dceac62fad0cf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:36 +0000
Subject: [PATCH 073/104] fix: observe a quantity if any of the given names is
 observable

---
 src/goats/core/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/observer.py b/src/goats/core/observer.py
index f983fb1..5195fd3 100644
--- a/src/goats/core/observer.py
+++ b/src/goats/core/observer.py
@@ -78,7 +78,7 @@ class Interface:
         """True if this interface can observe the named quantity."""
         if isinstance(name, str):
             return self._observes(name)
-        return next((self._observes(key) for key in name), False)
+        return any(self._observes(key) for key in name)
 
     def _observes(self, key: str):
         """Internal helper for `~Interface.observes`."""
-- 
2.43.0


From 9c83cc43027fb2b375ae6dc63ea4904e6d7692f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 074/104] fix: ignore whitespace and comments when parsing a
 config file

---
 src/goats/eprem/runtime.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 9a7f9c8..1bd88a8 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -565,12 +565,11 @@ class ConfigFile(iterables.MappingBase):
         pairs = {}
         with self.filepath.open('r') as fp:
             for line in fp:
-                line = line.rstrip('\n')
-                if line == '' or line == '\n' or line[0] in self.comments:
+                line = iotools.strip_inline_comments(line, self.comments)
+                if not line:
                     continue
-                key, _tmp = line.split('=')
-                value = iotools.strip_inline_comments(_tmp, self.comments)
-                pairs[key] = value
+                key, value = line.split('=', 1)
+                pairs[key.strip()] = value.strip()
         return pairs
 
     def __str__(self) -> str:
-- 
2.43.0


From 75846c197a951c33e98c801c0cd6c44e07dbab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 075/104] fix: accept zero as the value of a runtime parameter

---
 src/goats/eprem/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 1bd88a8..bafc133 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -682,7 +682,8 @@ class Runtime(iterables.MappingBase):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := numerical.cast(current, strict=False):
+        value = numerical.cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -702,7 +703,8 @@ class Runtime(iterables.MappingBase):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.Expression(definition)
-- 
2.43.0


From 3f53d3e31df0305d6bfd1b9d099b9a68d2a4a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 076/104] fix: pass config-file options to the runtime values
 of the interface

---
 src/goats/eprem/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index bafc133..617e983 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -846,7 +846,7 @@ class Interface(aliased.Mapping[str, _VT]):
         `pathlib.Path`), may be relative, and may contain standard wildcard
         characters (e.g., `~`).
         """
-        runtime = Runtime(config_path=path)
+        runtime = Runtime(config_path=path, **opts)
         values = {key: info.get('default') for key, info in _LOCAL.items()}
         values.update(dict(runtime))
         keys = tuple(set(tuple(_LOCAL) + tuple(runtime)))
-- 
2.43.0


From 9d701aa07fafdb951e1c7d7ee7848cf4c761a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 077/104] fix: compare config files outside the current
 directory

---
 src/goats/eprem/runtime.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 617e983..72697e7 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1547,6 +1547,8 @@ def compare_arguments(
     if mode not in {'show', 'diff'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     args = _build_arg_dict(files, source=source, mode=mode)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -1585,8 +1587,11 @@ def _build_arg_dict(
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
     default = Interface()
-    paths = _get_relative_paths(files)
-    targets = {path: Interface(path) for path in paths}
+    paths = [iotools.ReadOnlyPath(f) for f in files]
+    targets = {
+        name: Interface(path)
+        for name, path in zip(_get_relative_paths(paths), paths)
+    }
     keys = sorted(ConfigurationC(source))
     built = {key: {} for key in keys}
     for key in keys:
@@ -1606,13 +1611,10 @@ def _build_arg_dict(
     return {k: v for k, v in built.items() if v}
 
 
-def _get_relative_paths(paths: typing.Iterable[iotools.PathLike]):
-    """Strip the common ancestor, if any, from `paths`."""
-    these = {iotools.ReadOnlyPath(f) for f in paths}
-    common = os.path.commonpath(these)
-    if not common:
-        return these
-    return [os.path.relpath(path, start=common) for path in these]
+def _get_relative_paths(paths: typing.Iterable[pathlib.Path]):
+    """Strip the common parent directory from `paths`."""
+    common = os.path.commonpath([path.parent for path in paths])
+    return [os.path.relpath(path, start=common) for path in paths]
 
 
 def _format_arg(arg: operational.Argument):
-- 
2.43.0


From cda6962a77af30ebb884aeb9f61448f108a02390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:45 +0000
Subject: [PATCH 078/104] fix: close the file of generated defaults

---
 src/goats/eprem/runtime.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/goats/eprem/runtime.py b/src/goats/eprem/runtime.py
index 72697e7..aa56f97 100644
--- a/src/goats/eprem/runtime.py
+++ b/src/goats/eprem/runtime.py
@@ -1642,13 +1642,15 @@ def generate_defaults(
     if mode not in {'append', 'write'}:
         raise ValueError(f"Unrecognized action: {action!r}")
     if mode == 'append':
-        obj.update(json.load(outpath.open('r')))
-    json.dump(
-        obj,
-        outpath.open('w'),
-        indent=4,
-        sort_keys=True,
-    )
+        with outpath.open('r') as fp:
+            obj.update(json.load(fp))
+    with outpath.open('w') as fp:
+        json.dump(
+            obj,
+            fp,
+            indent=4,
+            sort_keys=True,
+        )
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 857aacbfd71e9772820d1e45df62287775710956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 079/104] fix: identify path-based objects by class and full
 path

---
 src/goats/core/iotools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 90e8c4c..37fee24 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -26,7 +26,7 @@ class PathSet(iterables.InstanceSet):
         if not kwargs and len(args) == 1:
             arg = args[0]
             if isinstance(arg, (str, pathlib.Path)):
-                return arg
+                return self, pathlib.Path(arg).expanduser().resolve()
         return super()._generate_key()
 
 
-- 
2.43.0


From d6efce6e324e8e2e125e2015b03232f1dc6b831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 080/104] fix: prevent writing to a read-only path

---
 src/goats/core/iotools.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 37fee24..61d29cb 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -1,4 +1,3 @@
-import os
 import pathlib
 import typing
 
@@ -54,7 +53,7 @@ class ReadOnlyPathError(Exception):
         return f"Objects of type {self._obj} are read-only."
 
 
-class ReadOnlyPath(pathlib.Path):
+class ReadOnlyPath(type(pathlib.Path())):
     """A wrapper for read-oriented paths.
     
     This class creates ``pathlib.Path`` objects intended for reading. The instance path is fully resolved with the user wildcard expanded, and raises an exception if the requested path does not exist. 
@@ -70,20 +69,16 @@ class ReadOnlyPath(pathlib.Path):
 
     def __new__(cls, *args, **kwargs):
         """Create a new path object of the appropriate type."""
-        _type = (
-            pathlib.WindowsPath if os.name == 'nt'
-            else pathlib.PosixPath
-        )
-        path = super().__new__(_type, *args, **kwargs)
+        path = super().__new__(cls, *args, **kwargs)
         inst = path.expanduser().resolve()
         if not inst.exists():
             raise NonExistentPathError(inst)
         return inst
 
-    def open(self, *args, **kwargs):
-        if 'w' in args:
+    def open(self, mode='r', *args, **kwargs):
+        if set(mode) & set('wax+'):
             raise ReadOnlyPathError(self.__class__)
-        return super().open(*args, **kwargs)
+        return super().open(mode, *args, **kwargs)
 
     def write_bytes(self, *args, **kwargs):
         raise ReadOnlyPathError(self.__class__)
-- 
2.43.0


From 19c55511d6ce7c3cf84820391b69fbed4b0774ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 081/104] fix: search the current directory for a file by
 default

---
 src/goats/core/iotools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/goats/core/iotools.py b/src/goats/core/iotools.py
index 61d29cb..5176353 100644
--- a/src/goats/core/iotools.py
+++ b/src/goats/core/iotools.py
@@ -197,10 +197,10 @@ def search(paths: typing.Iterable[PathLike], file: PathLike):
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike=None,
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
-    d = ReadOnlyPath(directory)
+    d = ReadOnlyPath(directory or pathlib.Path.cwd())
     for template in templates:
         test = d / str(template(name))
         if test.exists():
-- 
2.43.0


From 1600f096b531af64956c971bf99eccddd9a687b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 082/104] fix: refuse a dataset of unknown type

---
 src/goats/core/datafile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index 3b00a7d..b642730 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -167,7 +167,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         try:
             viewers = self._viewer_map[path.suffix]
         except KeyError:
-            TypeError(f"Unrecognized file type for {path}")
+            raise TypeError(f"Unrecognized file type for {path}") from None
         else:
             return viewers
 
-- 
2.43.0


From 39dd7ba0af30e25db98688eaebf9484830552e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 083/104] fix: apply new viewers to the given dataset only

---
 src/goats/core/datafile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/datafile.py b/src/goats/core/datafile.py
index b642730..51b7daa 100644
--- a/src/goats/core/datafile.py
+++ b/src/goats/core/datafile.py
@@ -169,7 +169,7 @@ class ViewerFactory(collections.abc.MutableMapping):
         except KeyError:
             raise TypeError(f"Unrecognized file type for {path}") from None
         else:
-            return viewers
+            return dict(viewers)
 
     def __getitem__(self, group: str):
         """Get the appropriate viewer for this dataset group."""
@@ -265,6 +265,9 @@ class Interface(iterables.ReprStrMixin, metaclass=iotools.PathSet):
     def use(self, **viewers) -> 'Interface':
         """Update the viewers for this instance."""
         self.viewers.update(viewers)
+        self._variables = None
+        self._axes = None
+        self._units = None
         return self
 
     def __str__(self) -> str:
-- 
2.43.0


From b242c51beba8d28723a01450551b7d14dca856ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:43 +0000
Subject: [PATCH 084/104] fix: look for the config file in the current data
 directory

---
 src/goats/eprem/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 7d3694a..3f9f5ab 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -732,6 +732,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
         if source:
             self._source = source
             self._datapath = None
+            self._confpath = None
         if self.datapath and self.confpath:
             dataset = datafile.Interface(self.datapath)
             variables = Variables(dataset, system=self._system)
@@ -752,7 +753,7 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
         if self._config is None:
             return
         # Compare the current config-file string to its filename.
-        if pathlib.Path(self._config).name == self._config:
+        if pathlib.Path(self._config).name == str(self._config):
             # The current config-file string is just a filename.
             full = self.datapath.parent / self._config
             if full.exists():
-- 
2.43.0


From f794d9ada69d354c71303acc44ba0d5cea74bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 085/104] fix: register an object under a key that is not in
 use

---
 src/goats/core/iterables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index ce86da7..cf04062 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -853,6 +853,9 @@ class ObjectRegistry(collections.abc.Mapping):
                     return proposed
                 new_default_key = f"{proposed}_{self._default_key_count}"
                 self._default_key_count += 1
+                while new_default_key in self._items:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
                 return new_default_key
 
     def reset(self) -> None:
-- 
2.43.0


From c6374fe2aa3be25232f685da1896977152cb3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 086/104] fix: guard against subclasses of a known exception

---
 src/goats/core/iterables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index cf04062..1ec7837 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1674,7 +1674,10 @@ class Guard:
         try:
             return self._call(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
+            value = next(
+                self._substitutions[known] for known in type(err).mro()
+                if known in self._substitutions
+            )
             if value != Ellipsis:
                 return value
             if not kwargs:
-- 
2.43.0


From e567d5a7d359a6ea4e6dcc5f93c188dc4faf35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:44 +0000
Subject: [PATCH 087/104] fix: convert a slice that stops at zero

---
 src/goats/core/iterables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index 1ec7837..f5b53d5 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -190,7 +190,7 @@ def slice_to_range(s: slice, stop: int=0) -> range:
     if stop is None:
         raise TypeError(f"Cannot convert {s} to a range.")
     start = s.start or 0
-    stop = s.stop or stop
+    stop = stop if s.stop is None else s.stop
     step = s.step or 1
     return range(start, stop, step)
 
-- 
2.43.0


From ada0522881ef82f740ccd67ad2e1595724764948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:10 +0000
Subject: [PATCH 088/104] fix: return the unique table entry that matches a
 request

---
 src/goats/core/iterables.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/iterables.py b/src/goats/core/iterables.py
index f5b53d5..75fd948 100644
--- a/src/goats/core/iterables.py
+++ b/src/goats/core/iterables.py
@@ -1108,11 +1108,10 @@ class Table(MappingBase):
                 if entry[key] == value
             ]
             if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
                 if len(subset) == 1:
                     return subset[0]
+                if len(subset) > 1 and len(request) == n_checked:
+                    raise AmbiguousRequestError(request)
         if strict and len(subset) == 1:
             return subset[0]
         raise TableLookupError(request)
-- 
2.43.0


From 7512deeb0881df9b600ad2e7b0d8f0d53baa7aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 089/104] fix: treat a string argument as a single value

---
 src/goats/core/operational.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index 6ba99ae..dea6eb8 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -153,22 +153,19 @@ class Argument:
 
     def _cast_to(self, __type: typing.Type[T]) -> T:
         """Internal method for casting to numeric type."""
-        try:
-            nv = len(self.data)
-        except TypeError:
-            nv = 0
+        nv = len(self)
         if nv > 1:
             errmsg = f"Can't convert data with {nv} values to {__type}"
             raise NumericCastError(errmsg) from None
-        if nv == 1:
-            return __type(self.data[0])
-        try: # nv == 0
+        try:
             return __type(self.data)
         except ValueError as err:
             raise ValueError(f"Can't convert {self!r} to {__type}.") from err
 
     def __iter__(self) -> typing.Iterator:
         """Called for iter(self)."""
+        if isinstance(self.data, str):
+            return iter([self.data])
         try:
             return iter(self.data)
         except TypeError:
@@ -176,6 +173,8 @@ class Argument:
 
     def __len__(self) -> int:
         """Called for len(self)."""
+        if isinstance(self.data, str):
+            return 1
         try:
             return len(self.data)
         except TypeError:
-- 
2.43.0


From 9ff6a8e83775987f4cb1dec2d6e36ed1538edf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 090/104] fix: compare the values and units of two arguments

---
 src/goats/core/operational.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/goats/core/operational.py b/src/goats/core/operational.py
index dea6eb8..dd9e5b7 100644
--- a/src/goats/core/operational.py
+++ b/src/goats/core/operational.py
@@ -221,10 +221,10 @@ class Argument:
     def __eq__(self, other):
         """Called for self == other."""
         if isinstance(other, Argument):
-            same_data = other.data == self.data
-            if self.unit:
+            same_data = numpy.array_equal(other.data, self.data)
+            if self.unit and other.unit:
                 return same_data and other.unit == self.unit
-            return same_data
+            return same_data and not (self.unit or other.unit)
         return other == self.data
 
     def __repr__(self) -> str:
-- 
2.43.0


From 086edd33d28e53d986111405851f9ec0d08244ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 091/104] fix: keep the name of an assumption when selecting a
 value

---
 src/goats/core/constant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/constant.py b/src/goats/core/constant.py
index 1eb62bd..90af66f 100644
--- a/src/goats/core/constant.py
+++ b/src/goats/core/constant.py
@@ -18,7 +18,7 @@ class Assumption(physical.Vector):
     def __getitem__(self, arg):
         if isinstance(arg, str):
             return super().__getitem__(arg)
-        values = super().__getitem__(arg)
+        values = self.data[arg]
         try:
             iter(values)
         except TypeError:
-- 
2.43.0


From a47373edef02f7874e77b4114ad66c50a952ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 092/104] fix: keep the given name of a vector made from a
 measurement

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index e24b492..0aada92 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -161,7 +161,7 @@ class Vector(Quantity):
 
     def __init__(self, __data, **meta) -> None:
         if isinstance(__data, measurable.Measurement):
-            meta = {'unit': __data.unit}
+            meta = {**meta, 'unit': __data.unit}
             __data = __data.data
         elif isinstance(__data, (Scalar, Vector)):
             meta = {k: getattr(__data, k) for k in ('unit', 'name')}
-- 
2.43.0


From 6169933dc50174cd83cd48e19ab4dcb67d42b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:07 +0000
Subject: [PATCH 093/104] fix: correct the cgs value of the first radiation
 constant

---
 src/goats/core/fundamental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/fundamental.py b/src/goats/core/fundamental.py
index b526727..a4ad0c2 100644
--- a/src/goats/core/fundamental.py
+++ b/src/goats/core/fundamental.py
@@ -100,7 +100,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From 8fae3b5dd7cec68e2063775226b7e3f15423cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:31 +0000
Subject: [PATCH 094/104] fix: give the mass and charge of every species a unit

---
 src/goats/core/plasma.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/goats/core/plasma.py b/src/goats/core/plasma.py
index 8769276..1421e6d 100644
--- a/src/goats/core/plasma.py
+++ b/src/goats/core/plasma.py
@@ -22,17 +22,19 @@ class Species(iterables.ReprStrMixin):
     def symbol(self) -> str:
         """The elemental symbol of this species."""
         if self._symbol is None:
-            s = fundamental.elements([self._mass], [self._charge])
+            s = fundamental.elements([float(self.mass)], [float(self.charge)])
             self._symbol = s[0]
         return self._symbol
 
     @property
     def mass(self) -> physical.Scalar:
         """The mass of this species."""
-        if self._mass is None:
-            base = self._symbol.rstrip('+-')
-            element = fundamental.ELEMENTS.find(base, unique=True)
-            value = element['mass']
+        if not isinstance(self._mass, physical.Scalar):
+            value = self._mass
+            if value is None:
+                base = self._symbol.rstrip('+-')
+                element = fundamental.ELEMENTS.find(base, unique=True)
+                value = element['mass']
             unit = 'nucleon'
             aliases = ['m', 'mass']
             self._mass = physical.Scalar(value, unit=unit, name=aliases)
@@ -46,10 +48,12 @@ class Species(iterables.ReprStrMixin):
     @property
     def charge(self) -> physical.Scalar:
         """The charge of this species."""
-        if self._charge is None:
-            base = self._symbol.rstrip('+-')
-            sign = self._symbol.lstrip(base)
-            value = sum(float(f"{s}1.0") for s in sign)
+        if not isinstance(self._charge, physical.Scalar):
+            value = self._charge
+            if value is None:
+                base = self._symbol.rstrip('+-')
+                sign = self._symbol.lstrip(base)
+                value = sum(float(f"{s}1.0") for s in sign)
             unit = 'e'
             aliases = ['q', 'charge']
             self._charge = physical.Scalar(value, unit=unit, name=aliases)
-- 
2.43.0


From 62edb178e084a23f904752452b2deeecdf88bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 095/104] fix: make the species of an observation readable

---
 src/goats/core/observing.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index 7385ec3..b4e66cb 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -145,17 +145,13 @@ class Observation:
             else indices.items()
         )
         tmp = {
-            k: physical.Array( # <- eventually want an `axis.Array` class
-                index.values,
-                unit=index.unit,
-            )
-            for k, index in items
+            k: self._build_axis(q) for k, q in items
             # HACK: This handles cases in which a function added a
             # non-standard axis. For example, integral flux removes the
             # 'energy' axis and adds a 'minimum energy' axis. A long-term
             # solution should treat non-standard axes as equivalent to
             # standard axes.
-            if index
+            if q
         }
         self._axes = aliased.Mapping(tmp)
         self._indices = indices
@@ -165,6 +161,14 @@ class Observation:
         self._unit = None
         self._dimensions = None
 
+    def _build_axis(self, q: index.Quantity):
+        """Create an array of the axis values in the given index quantity."""
+        if q.unit is None:
+            # The values may not be numbers (e.g., the symbols of species).
+            return index.Array(q)
+        # <- eventually want an `axis.Array` class
+        return physical.Array(q.values, unit=q.unit)
+
     @property
     def array(self):
         """The observed data array, with singular dimensions removed.
-- 
2.43.0


From 6db92cabc57aa5ac3002d9fe28f112a75ff95fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 096/104] fix: compare observations by their data, axes, and
 assumptions

---
 src/goats/core/observing.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index b4e66cb..f419629 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -231,12 +231,20 @@ class Observation:
 
     def __eq__(self, __o) -> bool:
         """True if two instances have equivalent attributes."""
-        if isinstance(__o, Quantity):
-            return all(
-                getattr(self, attr) == getattr(__o, attr)
-                for attr in ('data', 'indices', 'assumptions')
+        if not isinstance(__o, Observation):
+            return NotImplemented
+        return (
+            self.data == __o.data
+            and self._assumptions == __o._assumptions
+            and set(self._axes) == set(__o._axes)
+            and all(
+                self._axes[k].unit == __o._axes[k].unit
+                and numpy.array_equal(
+                    numpy.array(self._axes[k]),
+                    numpy.array(__o._axes[k]),
+                ) for k in self._axes
             )
-        return NotImplemented
+        )
 
     def __repr__(self) -> str:
         """An unambiguous representation of this object."""
-- 
2.43.0


From 6cc7d92ddc90d9793583e7776a807de892dff8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:28 +0000
Subject: [PATCH 097/104] fix: tell apart different names of dimensions or
 parameters

---
 src/goats/core/metadata.py  | 2 ++
 src/goats/core/observing.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/metadata.py b/src/goats/core/metadata.py
index 75f48ba..98529be 100644
--- a/src/goats/core/metadata.py
+++ b/src/goats/core/metadata.py
@@ -843,8 +843,10 @@ class Dimensions(collections.abc.Sequence, iterables.ReprStrMixin):
             )
             or (
                 isinstance(other, typing.Iterable)
+                and not isinstance(other, str)
                 and len(other) == len(self)
                 and all(i in self for i in other)
+                and all(i in other for i in self)
             )
         )
 
diff --git a/src/goats/core/observing.py b/src/goats/core/observing.py
index f419629..5706890 100644
--- a/src/goats/core/observing.py
+++ b/src/goats/core/observing.py
@@ -82,14 +82,16 @@ class Parameters(collections.abc.Sequence, iterables.ReprStrMixin):
             )
             or (
                 isinstance(other, typing.Iterable)
+                and not isinstance(other, str)
                 and len(other) == len(self)
                 and all(i in self for i in other)
+                and all(i in other for i in self)
             )
         )
 
     def __hash__(self):
         """Support use as a mapping key."""
-        return hash(self._names)
+        return hash(frozenset(self._names))
 
     def __len__(self) -> int:
         """Called for len(self)."""
-- 
2.43.0


From 53ec7846e550b94758e35eb6eac9f7fec903ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 098/104] fix: stop showing the old data when the new source
 has none

---
 src/goats/eprem/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 3f9f5ab..157df1e 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -718,11 +718,9 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             simulation runtime parameter arguments.
         """
         context = self._build_context(source=source, config=config)
-        if context:
-            self._variables = context.variables
-            self._axes = context.axes
-            return super().update(context)
-        return self
+        self._variables = context.variables if context else None
+        self._axes = context.axes if context else None
+        return super().update(context)
 
     def _build_context(self, source=None, config=None):
         """Create an instance of the EPREM observing context."""
-- 
2.43.0


From ff62f0ec8475a96a6de795ebe0ad927e301ea42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 099/104] fix: leave an observer as it was when its update
 fails

---
 src/goats/eprem/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/goats/eprem/__init__.py b/src/goats/eprem/__init__.py
index 157df1e..deb5ab9 100644
--- a/src/goats/eprem/__init__.py
+++ b/src/goats/eprem/__init__.py
@@ -717,7 +717,13 @@ class Observer(observer.Interface, iterables.ReprStrMixin):
             The path to a new EPREM configuration file from which to extract
             simulation runtime parameter arguments.
         """
-        context = self._build_context(source=source, config=config)
+        paths = (self._source, self._config, self._datapath, self._confpath)
+        try:
+            context = self._build_context(source=source, config=config)
+        except Exception:
+            # Keep the paths of the current observing context.
+            self._source, self._config, self._datapath, self._confpath = paths
+            raise
         self._variables = context.variables if context else None
         self._axes = context.axes if context else None
         return super().update(context)
-- 
2.43.0


From 9dbbeeaaeb8b1b3821d8a801dbec2c369099d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 100/104] fix: apply the scale of a reduced unit only once

---
 src/goats/core/metric.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 3fc96a0..98d971b 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1016,8 +1016,7 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -1027,15 +1026,14 @@ class Reduction(iterables.ReprStrMixin):
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit**other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From a6230158631be90c5c42eae1ddb1913999b9e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:38 +0000
Subject: [PATCH 101/104] fix: show something when printing a variable

---
 src/goats/core/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/goats/core/variable.py b/src/goats/core/variable.py
index a19b848..a0ca886 100644
--- a/src/goats/core/variable.py
+++ b/src/goats/core/variable.py
@@ -510,6 +510,10 @@ class Quantity(Array):
                 f" must equal number of array dimensions ({self.ndim})"
             )
 
+    def __str__(self) -> str:
+        """A simplified representation of this object."""
+        return repr(self)
+
     def __repr__(self) -> str:
         values = numpy.array2string(
             numpy.array(self),
-- 
2.43.0


From fadc722d1627328b40c9383d8f40669c9f0d0596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:16 +0000
Subject: [PATCH 102/104] fix: keep the numerical coefficient of a unit when
 converting and combining

Unit('2 m') was equal to Unit('m'), and its factor with respect to any other
unit of length was that of 'm'; products and powers dropped the coefficient.
---
 src/goats/core/metric.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/goats/core/metric.py b/src/goats/core/metric.py
index 98d971b..7689e40 100644
--- a/src/goats/core/metric.py
+++ b/src/goats/core/metric.py
@@ -1774,11 +1774,16 @@ class Conversion(iterables.ReprStrMixin):
         e0, e1 = (symbolic.Expression(unit) for unit in (u0, u1))
         if e0 == e1:
             return 1.0
-        terms = [term for term in e0 / e1 if term.base not in UNITY]
+        ratio = e0 / e1
+        terms = [term for term in ratio if term.base not in UNITY]
+        # Keep the numerical coefficient of each unit (e.g., '2 m' to 'm').
+        scale = 1.0
+        for term in ratio:
+            scale *= float(term.coefficient)
         if factor := self._resolve_terms(terms):
-            return factor
+            return scale * factor
         if factor := self._convert_by_dimensions(terms):
-            return factor
+            return scale * factor
         raise UnitConversionError(self.u0, self.u1)
 
     def _convert_by_dimensions(self, terms: typing.List[symbolic.Term]):
@@ -2195,7 +2200,11 @@ class Unit(symbolic.Expression, metaclass=_UnitMeta):
         # If the attempt to decompose this unit term succeeded,
         # we need to distribute the term's exponent over the new
         # terms and append each to the running list.
-        return [base**term.exponent for base in current]
+        parts = [base**term.exponent for base in current]
+        # Keep the numerical coefficient of the original term.
+        if term.coefficient != 1:
+            parts.append(symbolic.Term(coefficient=term.coefficient))
+        return parts
 
     def __floordiv__(self, other):
         """Compute the magnitude of this unit relative to `other`.
-- 
2.43.0


From d017606527d2a017cca8ea26d2a072dc5aba0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:19 +0000
Subject: [PATCH 103/104] fix: compare a scalar with a vector instead of
 raising an error

---
 src/goats/core/measurable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/goats/core/measurable.py b/src/goats/core/measurable.py
index 7d39285..6fa7c23 100644
--- a/src/goats/core/measurable.py
+++ b/src/goats/core/measurable.py
@@ -3,6 +3,8 @@ import collections.abc
 import numbers
 import typing
 
+import numpy
+
 from goats.core import algebraic
 from goats.core import iterables
 from goats.core import metadata
@@ -99,7 +101,9 @@ class Quantified(algebraic.Quantity, iterables.ReprStrMixin):
         """Called for self == other."""
         if not isinstance(other, Quantified):
             return other == self.data
-        if other.data != self.data:
+        if numpy.size(other.data) != numpy.size(self.data):
+            return False
+        if numpy.any(other.data != self.data):
             return False
         for name in self.meta.parameters:
             v = getattr(self, name)
-- 
2.43.0


From b3281388da82811db8a22744672fbe503f3671fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 104/104] fix: convert a vector to a unit given as an object

---
 src/goats/core/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/goats/core/physical.py b/src/goats/core/physical.py
index 0aada92..58732ef 100644
--- a/src/goats/core/physical.py
+++ b/src/goats/core/physical.py
@@ -179,7 +179,7 @@ class Vector(Quantity):
 
     def __getitem__(self, index):
         """Called for index-based value access."""
-        if isinstance(index, str):
+        if isinstance(index, metadata.UnitLike):
             return super().__getitem__(index)
         values = self.data[index]
         iter_values = isinstance(values, typing.Iterable)
-- 
2.43.0

