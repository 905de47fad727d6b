From 233f34ca04d595db3f2c355edd26bba311bfd962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 01/61] fix: return the compiled expression when the path cache
 is full

pathexpr() returned the builtin compile() for every expression first seen
after the cache had reached its maximum size, so Element.find() raised
TypeError.
---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From 86cc7a561554687996a01c808147d6d14b18a87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 02/61] fix: format NANPphone extensions from integers

The %03i/%i template was given strings, so any number with an extension raised
TypeError when extensions were enabled.
---
 flatland/validation/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..b77bdcf 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,8 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]), int(value[3:6]),
+                                    int(value[6:10]), int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From fa74a73c845ac12df062921218ff8d4307a7ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 03/61] fix: List.pop returns the removed element, not its slot

The hidden ListSlot leaked to the caller and the removed element kept the
slot as its parent.
---
 flatland/schema/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..98d9e95 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -515,10 +515,10 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        element = list.pop(self, index).element
         self._renumber()
-        value.parent = None
-        return value
+        element.parent = None
+        return element
 
     def insert(self, index, value):
         list.insert(self, index, self._new_slot(value))
-- 
2.43.0


From 9e2438c4586493d87412375355646d762237b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 04/61] fix: List item assignment accepts member elements

Assigning an instance of the member schema tried to set() the element object
as a raw value on the current member, which does not adapt it.
---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 98d9e95..aa96936 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -495,8 +495,12 @@ class List(Sequence):
             list.__setitem__(self, index, value)
             self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            if isinstance(value, Element):
+                slot = list.__getitem__(self, index)
+                slot.element = value
+                value.parent = slot
+            else:
+                self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From b7225b295dbfc87cd81e6816fff07d6db09e833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 05/61] fix: Sequence item assignment adopts element values

An Element assigned to an index was stored without its parent being set.
---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index aa96936..9ba0529 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From fb8789a52901461a6fccb6823db9eade390dbd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:23 +0000
Subject: [PATCH 06/61] fix: wrap values added to a Sequence with +=

list.__iadd__ stored plain values (or unwrapped elements, in a List) directly,
leaving a sequence that could not be iterated, flattened or validated.
---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9ba0529..f749d0a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -338,6 +338,10 @@ class Sequence(Container, list):
     def __setslice__(self, i, j, value):
         self.__setitem__(slice(i, j), value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def remove(self, value):
         """Remove member with value *value*.
 
-- 
2.43.0


From 1e152056916e0f633c4803bda6462a6c2811ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 07/61] fix: set_flat tolerates keys that stop at a container
 list member

A key naming just a List index ('l_0') is passed to the member with a key of
None.  Only scalars can use it, but Dict, List and Array members raised on it;
Listed compound fields could not restore their own flatten() output.
---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index f749d0a..965762c 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -570,7 +570,7 @@ class List(Sequence):
         prune = self.prune_empty
 
         for key, value in pairs:
-            if value == u'' and prune:
+            if key is None or (value == u'' and prune):
                 continue
             m = regex.match(key)
             if not m:
@@ -677,6 +677,8 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
+                if key is None:
+                    continue
                 m = regex.match(key)
                 if not m:
                     continue
@@ -844,7 +846,9 @@ class Mapping(Container, dict):
 
     def _set_flat(self, pairs, sep):
         if self.name is None:
-            possibles = pairs  # accept all
+            # accept all, save for a pair addressing the mapping itself
+            possibles = [(key, value) for key, value in pairs
+                         if key is not None]
         else:
             possibles = []
             prefix = self.name + sep
-- 
2.43.0


From 4f3633e51671e9420177d4dd3435ef5831107d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 08/61] fix: Array.set_flat ignores keys that do not name its
 members

Unrelated keys sharing the array's prefix added an empty member.
---
 flatland/schema/containers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 965762c..37d8f81 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -669,7 +669,7 @@ class Array(Sequence):
                     continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
@@ -683,9 +683,7 @@ class Array(Sequence):
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
-                    continue
-                elif remainder and not child_name:
+                if remainder != child_name:
                     continue
                 elif prune and value == u'' and remainder == child_name:
                     continue
-- 
2.43.0


From e47f595f31ef63437e9a1ae9aeaa12d40ac09cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 09/61] fix: set_flat matches Mapping fields by whole name

A SparseDict created a field for any key that merely began with its name:
setting 'ab' also brought 'a' into existence.
---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 37d8f81..a478401 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -866,7 +866,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key == field or key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From b03013f2243fdcbb884cde9371eb2b76bcadf665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 10/61] fix: String.set fails adaptation for undecodable bytes

set() is documented to report failure by returning False; a bytestring that is
not ASCII raised UnicodeDecodeError out of it instead.
---
 flatland/schema/scalars.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..0e2654f 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -180,10 +180,14 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
+        try:
+            text = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        if self.strip:
+            return text.strip()
         else:
-            return six.text_type(value)
+            return text
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From b155379d3a07dc9097999733c82cd2e068f04e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 11/61] fix: anonymous Array prunes empty values inside a List

As a List member the array sees a key of None, which the prune_empty test did
not recognize as its own.
---
 flatland/schema/containers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index a478401..a0c3016 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -663,14 +663,13 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
-                    continue
                 if key == u'':
                     key = None
                 if key != child_name:
                     continue
+                if prune and value == u'':
+                    continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
         else:
-- 
2.43.0


From c846085c7a65fea742ee719c61ce099a4d899f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 12/61] fix: DateYYYYMMDD can be set to None

set(None) on a populated element failed on a swallowed AttributeError and left
the previous date in place.
---
 flatland/schema/compound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..4cac76b 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -236,6 +236,10 @@ class DateYYYYMMDD(Compound, Date):
         try:
             value = Date.adapt(self, value)
 
+            if value is None:
+                for child_schema in self.field_schema:
+                    self[child_schema.name].set(None)
+                return
             for attrib, child_schema in zip(self.used, self.field_schema):
                 self[child_schema.name].set(
                     getattr(value, attrib))
-- 
2.43.0


From 2b258649dc504a035f6981ec7fbfa11392093eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 13/61] fix: DateYYYYMMDD.set returns False when adaptation
 fails

---
 flatland/schema/compound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 4cac76b..2a579af 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -246,6 +246,7 @@ class DateYYYYMMDD(Compound, Date):
         except (AdaptationError, TypeError):
             for child_schema in self.field_schema:
                 self[child_schema.name].set(None)
+            return False
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 00543a6b31e81700d7f181715af7e26a969e74db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 14/61] fix: JoinedString.set accepts None and rejects
 non-iterables by returning False

Both raised TypeError.  set() is documented to report failed adaptation with
its return value, and None to be represented as an empty string.
---
 flatland/schema/compound.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 2a579af..9ff5beb 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -299,10 +299,16 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
-        if isinstance(value, (list, tuple)):
+        if value is None:
+            values = ()
+        elif isinstance(value, (list, tuple)):
             values = value
         elif not isinstance(value, six.string_types):
-            values = list(value)
+            try:
+                values = list(value)
+            except TypeError:
+                del self[:]
+                return False
         elif self.separator_regex:
             # a basestring, regexp separator
             values = self.separator_regex.split(value)
-- 
2.43.0


From 8e8c24bce96f3642f96b144ee09057b61d8d47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 15/61] fix: JoinedString prunes by the member's text

A zero in a list of numbers was dropped as if it were empty, while a component
of only whitespace survived as an empty one, so that setting the element to its
own value changed it.
---
 flatland/schema/compound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 9ff5beb..8c4b861 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -320,10 +320,11 @@ class JoinedString(Array, String):
         prune = self.prune_empty
         success = []
         for value in values:
-            if prune and not value:
-                continue
             child = self.member_schema()
-            success.append(child.set(value))
+            converted = child.set(value)
+            if prune and child.u == u'':
+                continue
+            success.append(converted)
             self.append(child)
         return all(success)
 
-- 
2.43.0


From 9bab8b52ec03f2b32507c9b025d7cc658f6e5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 16/61] fix: compound types record the raw value on set

Element.raw is the unadapted value from input; Compound and JoinedString left
it Unset.
---
 flatland/schema/compound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 8c4b861..5698eb3 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -165,6 +165,7 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
     del set_value
 
     def set(self, value):
+        self.raw = value
         try:
             # TODO: historically explode() did not need to have a return value
             # but it would be nice to return it form set() as below.
@@ -299,6 +300,7 @@ class JoinedString(Array, String):
     children_flattenable = False
 
     def set(self, value):
+        self.raw = value
         if value is None:
             values = ()
         elif isinstance(value, (list, tuple)):
-- 
2.43.0


From 7efa8921e8242755745c1663fb85fb5edd08186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 17/61] fix: flatten honors children_flattenable below the top
 element

A JoinedString nested in another container emitted one more pair under its own
name for each of its members, next to its joined value.
---
 flatland/schema/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..79ecffa 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -693,9 +693,17 @@ class Element(_BaseElement):
         else:
             pairs = []
         if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+            seen, queue = set((id(self),)), collections.deque(self.children)
+            while queue:
+                element = queue.popleft()
+                if id(element) in seen:
+                    continue
+                seen.add(id(element))
+                if element.flattenable:
+                    pairs.append((element.flattened_name(sep),
+                                  value(element)))
+                if element.children_flattenable:
+                    queue.extend(element.children)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From 20a2c64d37ee15a4780b988eff0a907af9978f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 18/61] fix: unsigned Decimal rejects values that can not be
 compared

set('sNaN') raised InvalidOperation.
---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 0e2654f..71b6420 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -250,12 +250,12 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
-        except (ValueError, TypeError, ArithmeticError):
-            raise AdaptationError()
-        else:
             if not self.signed:
                 if native < 0:
                     raise AdaptationError()
+        except (ValueError, TypeError, ArithmeticError):
+            raise AdaptationError()
+        else:
             return native
 
     def serialize(self, value):
-- 
2.43.0


From e228c17e6aaedb5bdba72f8a4f6acb308d10c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 19/61] fix: luhn10 terminates for negative numbers

Floor division never reaches zero from below: Luhn10 validation of a negative
Integer did not return.
---
 flatland/util/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..6cc71a4 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,8 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From e3b1511ef9e5df51bef301236b34f52fed1e5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 20/61] fix: recognize 13 digit Visa numbers

\\d{3}? is a non-greedy repeat, not an optional group.
---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..ef5000a 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(?:\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
-- 
2.43.0


From 466c7f3c913e61ea203e0f4608eaaecaba5e4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 21/61] fix: CreditCardNumber fails adaptation for input with
 no digits

A string of 15 or more separators raised ValueError from set().
---
 flatland/ext/creditcard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index ef5000a..e1ce1a4 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,10 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    if not digits:
+        return None
+    return int(digits)
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From d2c65f796ee3eaeb1deb50d9820bf21d4ce743e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 22/61] fix: do not repeat the last accepted card type in
 AcceptedType's message

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index e1ce1a4..7c2efa4 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
-- 
2.43.0


From 979db2ee878702d971933b00af06a6a8c4dc3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 23/61] fix: properties pop and setdefault honor inheritance
 and deletion

pop() on an instance removed the value from its class, affecting every other
instance.  setdefault() on a class ignored inherited values, and all three could
return the internal deletion marker.
---
 flatland/schema/properties.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..fb4c05f 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self._base_frame[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
@@ -201,15 +205,20 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self.local[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self.local[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 08e2ea79f5414f8e02900a9c2ab4fbdfef5991c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 24/61] fix: HTTPURLValidator requires an http or https scheme
 by default

The documented default was keyed by a misspelled part name and never applied.
---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From 15bb0c6c8c45cf12722a3339f8fbbe92de3c1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 25/61] fix: HTTPURLValidator reports unparseable URLs as
 bad_format

urlparse raises ValueError for some malformed netlocs, e.g. 'http://[::1'.
---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..6f23c6a 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except ValueError:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From 29ce3aa6755e8170e5ca98a778d30c8b5c261bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 26/61] fix: HTTPURLValidator treats blank URL parts as missing

urlparse reports absent path, params, query and fragment as '', never None, so
requiring them had no effect; 'http://:80/' passed without a hostname.
---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 6f23c6a..48ec054 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if value is None or value == '':
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From f6fff21bbd38817b63cc67f3dd71f4d9c37afcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 27/61] fix: IsEmail rejects a newline after the domain

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index 48ec054..6daf7bb 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 41430929a93ba06ad4c7fcf25fa9ab57670eb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 28/61] fix: set_by_object includes renamed attributes
 regardless of omit

As documented, and as already the case for include.
---
 flatland/schema/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index a0c3016..6288943 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1087,7 +1087,8 @@ class Dict(Mapping, dict):
                                   if value in attributes)
         if omit:
             omit = list(omit)
-            attributes.difference_update(omit)
+            renamed = [key for key, value in rename] if rename else ()
+            attributes.difference_update(set(omit).difference(renamed))
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From 701e83004e1ade6daa3211700fd6c004e9b6ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 29/61] fix: Decimal fails adaptation for signaling NaNs

set('sNaN'), reachable from flat form data, raised out of number formatting.
---
 flatland/schema/scalars.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 71b6420..48a6182 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -313,6 +313,18 @@ class Decimal(Number):
     format = u'%f'
     """``u'%f'``"""
 
+    def adapt(self, value):
+        """Generic numeric coercion.
+
+        :returns: a ``decimal.Decimal`` or ``None``
+
+        Signaling NaNs can not be formatted or compared and are not accepted.
+        """
+        native = Number.adapt(self, value)
+        if isinstance(native, decimal.Decimal) and native.is_snan():
+            raise AdaptationError()
+        return native
+
 
 class Boolean(Scalar):
     """Element type for Python's ``bool``."""
-- 
2.43.0


From 7d46188c1fbe0a364506a19ebd6c5dc44debb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 30/61] fix: set_flat tolerates member-only keys for named
 Mappings too

A pair keyed exactly by the mapping's prefix is ignored, as its comment says.
---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 6288943..99ddeeb 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -851,9 +851,9 @@ class Mapping(Container, dict):
             prefix = self.name + sep
             plen = len(prefix)
             for key, value in pairs:
-                if key == prefix:
+                if key is None or key == prefix:
                     # No flat representation of mappings, ignore.
-                    pass
+                    continue
                 if key.startswith(prefix):
                     # accept child element
                     possibles.append((key[plen:], value))
-- 
2.43.0


From efcc548e970f5d9f50676b78bd529bdcf0ebe506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 31/61] fix: format integers of either integer type

int() may return a long, e.g. for a Decimal, which was serialized without the
element's format.
---
 flatland/schema/scalars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 48a6182..c712dc1 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -269,7 +269,9 @@ class Number(Scalar):
         the format as a single, positional format argument.
 
         """
-        if type(value) is self.type_:
+        if type(value) is self.type_ or (
+            self.type_ in six.integer_types and
+            type(value) in six.integer_types):
             return self.format % value
         return six.text_type(value)
 
-- 
2.43.0


From 79da2f8e1fd76550779a67486107f393f3f2ef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 32/61] fix: simple slices with out of range negative indexes

Python 2 adds the length to negative indexes before calling __getslice__
and friends, so what is still negative lies before the first item.
---
 flatland/schema/containers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 99ddeeb..b29b32a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -336,7 +336,7 @@ class Sequence(Container, list):
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-        self.__setitem__(slice(i, j), value)
+        self.__setitem__(slice(max(0, i), max(0, j)), value)
 
     def __iadd__(self, iterable):
         self.extend(iterable)
@@ -491,7 +491,8 @@ class List(Sequence):
         return list.__getitem__(self, index).element
 
     def __getslice__(self, i, j):
-        return self.__getitem__(slice(i, j))
+        # negative indexes have already been offset by the length
+        return self.__getitem__(slice(max(0, i), max(0, j)))
 
     def __setitem__(self, index, value):
         if isinstance(index, slice):
@@ -507,7 +508,7 @@ class List(Sequence):
                 self[index].set(value)
 
     def __setslice__(self, i, j, sequence):
-        return self.__setitem__(slice(i, j), sequence)
+        return self.__setitem__(slice(max(0, i), max(0, j)), sequence)
 
     def __iter__(self):
         for i in list.__iter__(self):
@@ -520,7 +521,7 @@ class List(Sequence):
         self._renumber()
 
     def __delslice__(self, i, j):
-        return self.__delitem__(slice(i, j))
+        return self.__delitem__(slice(max(0, i), max(0, j)))
 
     def pop(self, index=-1):
         element = list.pop(self, index).element
-- 
2.43.0


From f199803b36a86ccfea7ee13f106b3f9b7a546b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 33/61] fix: pass elements, not slots, to List.sort's key

---
 flatland/schema/containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index b29b32a..7ae0f5c 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -539,7 +539,11 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
-        list.sort(self, key=key, reverse=reverse)
+        if key is None:
+            slot_key = None
+        else:
+            slot_key = lambda slot: key(slot.element)
+        list.sort(self, key=slot_key, reverse=reverse)
         self._renumber()
 
     def reverse(self):
-- 
2.43.0


From e1a9648043e41b53bf64bc9d4592560ffc8047ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 34/61] fix: a path slice may stop at 0

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..68d5cef 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -184,7 +184,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 2d144a890be34b67c147a5f5e6b024d26cfabaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:58 +0000
Subject: [PATCH 35/61] fix: only parse well formed path indexes and slices

[-] and [1:-] raised ValueError rather than being part of a name.
---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 68d5cef..ad546e8 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -21,7 +21,7 @@ _tokenize_re = re.compile(r"""
     | # /
       (?<!\\)/
     | # [1:2:3]
-      (?<!\\)\[(-?\d*:?-?\d*\:?-?\d*)(?<!\\)\](?=$|/|\[)
+      (?<!\\)\[(-?\d+|(?:-?\d+)?:(?:-?\d+)?(?::(?:-?\d+)?)?)\](?=$|/|\[)
     | # [bogus]
       (?<!\\)\[[^\]]*(?<!\\)\](?=$|/|\[)
     | # . or .. at start
-- 
2.43.0


From f513e09858d7885d9b442f7a838e07f993bb64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 36/61] fix: '..' finds the parent element, even if it is false
 or a list

A parent may be false (an unset compound) and the parent of a list member
is its slot, which is not traversable.
---
 flatland/schema/paths.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index ad546e8..635d0dd 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -55,6 +55,7 @@ class PathExpression(object):
         self.ops = tokenize(expr)
 
     def __call__(self, element, strict=False):
+        from flatland.schema.base import Slot
         found = []
         contexts = [(self.ops, element)]
 
@@ -64,8 +65,12 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
-                        el = el.parent
+                    parent = el.parent
+                    # slots mark positions in a list, they aren't path steps
+                    if isinstance(parent, Slot):
+                        parent = parent.parent
+                    if parent is not None:
+                        el = parent
                 elif op is HERE:
                     pass
                 elif op is NAME:
-- 
2.43.0


From 2f3cc8942bedd7e2ad1ec11366ed68f7bb614896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:11 +0000
Subject: [PATCH 37/61] fix: fq_name of Array members is their index

An Array's members can only be located with el() by index, and may have no
name at all.
---
 flatland/schema/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 79ecffa..e5b4e4d 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -475,6 +475,14 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
+            elif isinstance(element.parent, list):
+                # members of sequences without slots (e.g. Arrays) are also
+                # indexed by position
+                for idx, child in enumerate(element.parent.children):
+                    if child is element:
+                        parts.append(six.text_type(idx))
+                        break
+                continue
             parts.append(element.name)
         return sep + sep.join(parts)
 
-- 
2.43.0


From b412e47740e03d85faca7d6cf75ac3ab453b7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:34 +0000
Subject: [PATCH 38/61] fix: split a JoinedString's default text

The default was taken as a sequence of members, one per character.
---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 5698eb3..3f44c83 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -330,6 +330,11 @@ class JoinedString(Array, String):
             self.append(child)
         return all(success)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
-- 
2.43.0


From 86e845ac755608a00984e10e84903be4c3c3f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 39/61] fix: bracketed text in a path only extends a name it
 directly follows

'a/[b]' was parsed as the single name '/[b]', and escapes before bracketed
text ('x\\.y[b]') were left in the name.
---
 flatland/schema/paths.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 635d0dd..107ad9b 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -136,10 +136,10 @@ def tokenize(path):
             tokens.append(_parse_slice(slice_spec))
 
         # /foo/bar[quux]/ -> 'foo', 'bar[quux]'
-        elif token.startswith('[') and last_type is NAME:
-            previous = tokens.pop()
-            last = last + _unescape_re.sub(r'\1', token)
-            tokens.append((previous[0], last))
+        elif token.startswith('[') and last_type is NAME and last != '/':
+            tokens.pop()
+            last = last + token
+            tokens.append((NAME, _unescape_re.sub(r'\1', last)))
             continue
 
         # foo/bar/baz[bogus] -> 'foo', 'bar', 'baz[bogus]'
-- 
2.43.0


From 33911761322f1d9e1b8dbcd9cce0ead6bcf8bb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 40/61] fix: validate(recurse=False) fails if descent
 validation fails

As when recursing, a successful ascent does not make it valid.
---
 flatland/schema/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index e5b4e4d..fcb2b16 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -807,8 +807,8 @@ class Element(_BaseElement):
 
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
-            # of descent validation
-            if up is not Unevaluated:
+            # of descent validation, and neither overrides a failed descent
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
             return self.valid
 
-- 
2.43.0


From ce0783ea1e1da5030cfd06c002a279aeb81fb111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 41/61] fix: any indexable state may be used when expanding
 messages

The state can be anything, such as a string or list.
---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From 2ca2ddb039b5db2c1fcbbe317c96d1909f310696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 42/61] fix: do not translate the number that selects a plural
 form

---
 flatland/validation/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..efeaa62 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -239,11 +239,14 @@ class Validator(object):
                 'ungettext', element, state, message)
 
             single, plural, n_key = message
+            # not format_map: n is a number, not text to be translated
+            numbers = as_format_mapping(
+                extra_format_args, state, self, element)
             try:
-                n = format_map[n_key]
+                n = numbers[n_key]
                 try:
                     n = int(n)
-                except TypeError:
+                except (TypeError, ValueError):
                     pass
             except KeyError:
                 n = n_key
-- 
2.43.0


From 13674c92895f1f5734bed79349e5df89a17393f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 43/61] fix: MapEqual's default transform takes one argument

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From 3cf7c797e3c074f89f1cafd67bd0b90f536a2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:15 +0000
Subject: [PATCH 44/61] fix: container length validators count members

The value of a MultiValue or JoinedString is not a list of its members.
---
 flatland/validation/containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..ce3a35d 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,8 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
-        if self.minimum <= length <= self.maximum:
+        if self.minimum <= len(element) <= self.maximum:
             return True
 
         message = 'exact' if self.minimum == self.maximum else 'range'
-- 
2.43.0


From 915a6d95467445b5986119ce7c0c92b6733fabd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 45/61] fix: NANPphone keeps leading zeros when translating
 digits

An eleven digit number with a leading non-ASCII zero was taken for a ten
digit number.
---
 flatland/validation/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index b77bdcf..36b1c2a 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -28,7 +28,7 @@ class NANPphone(Validator):
 
         if not self.re_lowbit.match(value):
             # Translate to single-byte numbers.
-            value = six.text_type(str(int(value)))
+            value = u''.join(six.text_type(int(digit)) for digit in value)
 
         if len(value) < 10:
             return self.note_error(element, state, 'invalid')
-- 
2.43.0


From c2a20e3cbc2aa463a6e74d1384932f75f7fc6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:56 +0000
Subject: [PATCH 46/61] fix: AcceptedType's message takes the element and state

Refusing a card of another issuer raised TypeError.
---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 7c2efa4..496e257 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From 5681a24146b9362c1ee362e55e9b7ca31204388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 47/61] fix: classes derived from a used DateYYYYMMDD complete
 their own fields

The first instance of a DateYYYYMMDD class fixed the optional setting of
the generated fields of all classes derived from it later.
---
 flatland/schema/compound.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 3f44c83..7d4939e 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -196,13 +196,22 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # The field_schema as declared, and after missing fields were added.
+    _declared_schema = None
+    _completed_schema = None
+
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        if cls.field_schema is not cls._completed_schema:
+            cls._declared_schema = cls.field_schema
+        # otherwise the fields added for the class this one is derived from
+        # are added anew, to reflect the configuration of this class.
+
+        fields = list(cls._declared_schema)
+        assert len(fields) < 4
+        if len(fields) == 3:
             return
 
-        fields = list(cls.field_schema)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -215,7 +224,7 @@ class DateYYYYMMDD(Compound, Date):
             fields.append(Integer.named(u'day').using(format=u'%02i',
                                                       optional=optional))
 
-        cls.field_schema = fields
+        cls.field_schema = cls._completed_schema = fields
 
     #if any(not field.name for field in fields):
     #    raise TypeError("Child fields of %s %r must be named." %
-- 
2.43.0


From d3bbd6b990666380f8da6c60a4d22ba6bd866a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 48/61] fix: a Ref follows its path when its target is replaced

Setting a container replaces its children: a Ref that had been read before
kept answering for the discarded target.
---
 flatland/schema/scalars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index c712dc1..4bc7de3 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -8,9 +8,9 @@ from flatland.exc import AdaptationError
 from flatland.util import (
     Unspecified,
     as_mapping,
+    assignable_property,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -600,7 +600,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @assignable_property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From d4f46b3dcd32bf647096eb4156d5c41d05472517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 49/61] fix: JoinedString.set returns False for undecodable
 bytes

---
 flatland/schema/compound.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 7d4939e..7784022 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -320,12 +320,18 @@ class JoinedString(Array, String):
             except TypeError:
                 del self[:]
                 return False
-        elif self.separator_regex:
-            # a basestring, regexp separator
-            values = self.separator_regex.split(value)
         else:
-            # a basestring, static separator
-            values = value.split(self.separator)
+            try:
+                value = six.text_type(value)
+            except UnicodeDecodeError:
+                del self[:]
+                return False
+            if self.separator_regex:
+                # a basestring, regexp separator
+                values = self.separator_regex.split(value)
+            else:
+                # a basestring, static separator
+                values = value.split(self.separator)
 
         del self[:]
         prune = self.prune_empty
-- 
2.43.0


From d97b9ee4c0f9aa808a8eb694799c6886427de12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 50/61] fix: a Ref without a default leaves its target to its
 own default

set_default() on a tree with a writable Ref could clear the target again,
and raised TypeError for a Ref that may not be written.
---
 flatland/schema/scalars.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 4bc7de3..5a0565d 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -592,6 +592,13 @@ class Ref(Scalar):
             raise TypeError("Could not parse path %r" % name)
         return cls
 
+    def set_default(self):
+        # the target applies its own default: a lack of one here is not to
+        # replace that.
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     def adapt(self, value):
         return self.target.adapt(value)
 
-- 
2.43.0


From 2a74d5a66835a351edbba5ee7921e057b2e72550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 51/61] fix: Genshi: expressions yielding a single tag can be
 tag contents

---
 flatland/out/genshi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..e42b3a4 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -373,8 +373,8 @@ def _simplify_stream(stream, ctxt, vars):
                     value = _simplify_stream(value, ctxt, vars)
                 if not isinstance(value, six.text_type):
                     stream[idx:idx + 1] = value
-                else:
-                    stream[idx] = (TEXT, value, pos)
+                    return stream
+                stream[idx] = (TEXT, value, pos)
             elif not isinstance(value, six.text_type):
                 value = six.text_type(value)
             parts.append(value)
-- 
2.43.0


From d98a2c7b5c75c94bcb282dda018120fae0ddd18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 52/61] fix: Genshi: form:set evaluates filters like form:with

---
 flatland/out/genshi.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index e42b3a4..d5b17d7 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -201,6 +201,15 @@ class RenderContextManipulator(TagOnly):
         TagOnly.__init__(self, transformed, template, namespaces,
                          lineno, offset)
 
+    def settings(self, ctxt, vars):
+        """Return the attributes with the *filters* expression evaluated."""
+        if 'filters' not in self.attributes:
+            return self.attributes
+        attrs = self.attributes.copy()
+        attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                      ctxt, vars)
+        return attrs
+
 
 class With(RenderContextManipulator):
     _name = 'with'
@@ -212,15 +221,8 @@ class With(RenderContextManipulator):
         except KeyError:
             ctxt['flatland_render_context'] = render_context = Context()
 
-        if 'filters' not in self.attributes:
-            attrs = self.attributes
-        else:
-            attrs = self.attributes.copy()
-            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
-                                          ctxt, vars)
-
         render_context.push()
-        render_context.update(attrs)
+        render_context.update(self.settings(ctxt, vars))
         assert not directives
         for event in stream:
             yield event
@@ -236,7 +238,7 @@ class Set(RenderContextManipulator):
             render_context = ctxt['flatland_render_context']
         except KeyError:
             ctxt['flatland_render_context'] = render_context = Context()
-        render_context.update(self.attributes)
+        render_context.update(self.settings(ctxt, vars))
         assert not directives
         return stream
 
-- 
2.43.0


From 529526fbe34d9a6868eed51287347a779590d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 53/61] fix: Genshi: markup in the contents and attributes of
 bound tags is not escaped again

---
 flatland/out/genshi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index d5b17d7..4ed743d 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,7 @@
 from __future__ import absolute_import
 from collections import deque
 
-from genshi.core import Namespace, QName, END, START, TEXT
+from genshi.core import Markup, Namespace, QName, END, START, TEXT
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -368,7 +368,7 @@ def _simplify_stream(stream, ctxt, vars):
         elif kind is EXPR:
             value = _eval_expr(data, ctxt, vars)
             if hasattr(value, '__html__'):
-                value = _unpack(value)
+                value = Markup(_unpack(value))
             if hasattr(value, '__next__') or hasattr(value, 'next'):
                 while hasattr(value, '__next__') or hasattr(value, 'next'):
                     value = list(value)
@@ -382,4 +382,6 @@ def _simplify_stream(stream, ctxt, vars):
             parts.append(value)
         else:
             return stream
+    if any(isinstance(part, Markup) for part in parts):
+        return Markup(u'').join(parts)
     return u''.join(parts)
-- 
2.43.0


From 7b9625e2db77fb5250e67a90c589db4259572c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 54/61] fix: Generator.tag() renders like the tag's own method

---
 flatland/out/markup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..da317de 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -7,6 +7,7 @@ import six
 
 _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
+_always_paired_tags = (u'form', u'textarea', u'select', u'option')
 
 
 class Generator(Context):
@@ -197,10 +198,12 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        tag = self._tag(tagname, tagname == u'input',
+                        tagname in _always_paired_tags)
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From ea763f7aed9a7bef32d55cea8ab385570306b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 55/61] fix: Generator.set() changes nothing when it refuses a
 setting

---
 flatland/out/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index da317de..6530149 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -68,10 +68,11 @@ class Generator(Context):
 
         """
 
-        for key, value in settings.items():
+        for key in settings:
             if key not in self:
                 raise TypeError(
                     "%r is not a valid argument." % key)
+        for key, value in settings.items():
             if key.startswith('auto_'):
                 value = parse_trool(value)
             self[key] = value
-- 
2.43.0


From 33666c5188fc78be8b0a7ee52bc0e88ddc8896ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:51 +0000
Subject: [PATCH 56/61] fix: checkboxes and radio buttons without a value are
 left alone

---
 flatland/out/generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..9bf2fce 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -130,12 +130,12 @@ def transform_value(tagname, attributes, contents, context, bind):
     if tagname == u'input':
         subtype = attributes.get(u'type', u'')
         if subtype in (u'radio', u'checkbox'):
-            if subtype == u'checkbox':
-                current = attributes.get(u'value')
-                if current is None and isinstance(bind, Boolean):
+            current = attributes.get(u'value')
+            if current is None:
+                if subtype == u'checkbox' and isinstance(bind, Boolean):
                     attributes[u'value'] = current = bind.true
-            else:
-                current = attributes.get(u'value', u'')
+                else:
+                    return contents
 
             if isinstance(bind, Array):
                 toggle = current in bind
-- 
2.43.0


From d6f27aeea1faede70bdc4ac6b7427a55d4e28c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 57/61] fix: Genshi: options with control attributes work in
 bound selects

---
 flatland/out/genshi.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 4ed743d..fe2fe9f 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -334,6 +334,14 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
+                if (substream[0][0] is START and
+                    substream[0][1][0] == qname and
+                    any(isinstance(d, ControlAttribute)
+                        for d in directives)):
+                    # bind the tag itself, along with its control attributes
+                    directives = [Binding(u'', bind=bind)] + directives
+                    yield kind, (directives, substream), pos
+                    continue
                 substream = list(_bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
-- 
2.43.0


From e13143eefdf64d7a96962ad61a70ebb0c9889953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:55 +0000
Subject: [PATCH 58/61] fix: generated ids of tags with markup values are not
 escaped twice

---
 flatland/out/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 9bf2fce..7bfcf81 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -298,7 +298,8 @@ def _sanitize_domid_suffix(string):
 
     """
     # as this is suffix only, no need to test string[0] for validity
-    return _id_invalid_re.sub(u'', string)
+    # (markup values must not make markup of the rest of the id)
+    return six.text_type(_id_invalid_re.sub(u'', string))
 
 
 def _unpack(html_string):
-- 
2.43.0


From 89f5cb368730760b108451b348c17021bd1ad04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 59/61] fix: set_by_object fills fields a SparseDict does not
 hold yet

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 7ae0f5c..826868a 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1084,7 +1084,7 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(self.field_schema_mapping)
         attributes = fields.copy()
         if rename:
             rename = list(to_pairs(rename))
-- 
2.43.0


From 5839c9cb20d9ae47b08a1d477cc963577e32d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 60/61] fix: Boolean recognizes its own false text first

A false text that is also among the true synonyms, as u'1' is in
Boolean.using(true=u'0', false=u'1'), was set back as True.
---
 flatland/schema/scalars.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 5a0565d..04fa122 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -363,9 +363,13 @@ class Boolean(Scalar):
         """
         if not isinstance(value, six.string_types):
             return bool(value)
-        elif value == self.true or value in self.true_synonyms:
+        elif value == self.true:
             return True
-        elif value == self.false or value in self.false_synonyms:
+        elif value == self.false:
+            return False
+        elif value in self.true_synonyms:
+            return True
+        elif value in self.false_synonyms:
             return False
         raise AdaptationError()
 
-- 
2.43.0


From c9454cc522099996f9aecb232e0f138db81b628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:04 +0000
Subject: [PATCH 61/61] fix: Genshi: iterators of plain values in bound tags

Expressions in the contents or attributes of a bound tag that produce an
iterator of texts raised ValueError; iterators of markup events only worked.
---
 flatland/out/genshi.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index fe2fe9f..ee2714d 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,15 @@
 from __future__ import absolute_import
 from collections import deque
 
-from genshi.core import Markup, Namespace, QName, END, START, TEXT
+from genshi.core import (
+    Markup,
+    Namespace,
+    QName,
+    END,
+    START,
+    TEXT,
+    _ensure,
+)
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -379,7 +387,7 @@ def _simplify_stream(stream, ctxt, vars):
                 value = Markup(_unpack(value))
             if hasattr(value, '__next__') or hasattr(value, 'next'):
                 while hasattr(value, '__next__') or hasattr(value, 'next'):
-                    value = list(value)
+                    value = list(_ensure(value))
                     value = _simplify_stream(value, ctxt, vars)
                 if not isinstance(value, six.text_type):
                     stream[idx:idx + 1] = value
-- 
2.43.0

