From f0ef09bc2ef6821cae23e3c44d81063758637ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 01/77] fix: ListCollection.insert inserts the value, not the
 items of it

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index feb95fb..e80ac3e 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -375,7 +375,7 @@ class ListCollection(KeyedCollection):
             i += len(self)
         if i < 0:
             i = 0
-        self[i:i] = x
+        self[i:i] = (x,)
 
     def pop(self, i=-1):
         if i < 0:
-- 
2.43.0


From 23bc31d415a8e60ffcd617a36783ebe7d203157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 02/77] fix: ListCollection.pop raises IndexError for an index
 before the start

---
 normalize/coll.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e80ac3e..ceac5f6 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -378,10 +378,6 @@ class ListCollection(KeyedCollection):
         self[i:i] = (x,)
 
     def pop(self, i=-1):
-        if i < 0:
-            i += len(self)
-            if i < 0:
-                i = 0
         x = self[i]
         del self[i]
         return x
-- 
2.43.0


From e2322d3a59a08dd61ad17b63296ac17c4bccb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 03/77] fix: ListCollection.extend is all-or-nothing, and can
 extend a list by itself

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index ceac5f6..e6108b8 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -348,7 +348,7 @@ class ListCollection(KeyedCollection):
         """Adds new values to the end of the collection, coercing items.
         """
         # perhaps: self[len(self):len(self)] = iterable
-        self._values.extend(self.coerce_value(item) for item in iterable)
+        self._values.extend([self.coerce_value(item) for item in iterable])
 
     def count(self, value):
         return self._values.count(value)
-- 
2.43.0


From 03f651c62fc5ab132337466345d1dd6763d0389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 04/77] fix: ListCollection.index accepts an end bound past the
 end of the list

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index e6108b8..9bdb2d5 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -365,7 +365,7 @@ class ListCollection(KeyedCollection):
             j += len_
             if j < 0:
                 j = 0
-        for k in range(i, j):
+        for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
         raise ValueError("%r is not in list" % x)
-- 
2.43.0


From 0c749ab4a3f17c39077e397767aedcc5274dd0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 05/77] fix: record dicts copy other record dicts and reject
 what is no collection, instead of dropping it silently

---
 normalize/coll.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 9bdb2d5..b73e045 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -221,10 +221,10 @@ class DictCollection(KeyedCollection):
                 passed=coll,
                 colltype=cls,
             )
-        if isinstance(coll, collections.abc.Mapping):
+        if isinstance(coll, (collections.abc.Mapping, DictCollection)):
             for k, v in coll.items():
                 yield k, v
-        elif isinstance(coll, collections.abc.Sequence):
+        elif isinstance(coll, (collections.abc.Sequence, ListCollection)):
             i = 0
             for v in coll:
                 yield (i, v)
@@ -238,6 +238,11 @@ class DictCollection(KeyedCollection):
                 else:
                     yield (i, v)
                 i += 1
+        elif coll is not None:
+            raise exc.CollectionCoerceError(
+                passed=coll,
+                colltype=cls,
+            )
 
     def itertuples(self):
         return iter(self._values.items())
-- 
2.43.0


From 4f518574dba6ffbcb0bdf3cedb82e7b5e1b3d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 06/77] fix: DictCollection.update with a value that cannot be
 coerced changes nothing

---
 normalize/coll.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index b73e045..f73c181 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -276,14 +276,17 @@ class DictCollection(KeyedCollection):
 
     def update(self, iterable=None, **kw):
         keys = getattr(iterable, "keys", None)
+        tuples = []
         if keys and callable(keys):
             for k in list(iterable.keys()):
-                self[k] = self.coerce_value(iterable[k])
+                tuples.append((k, self.coerce_value(iterable[k])))
         elif iterable is not None:
             for k, v in iterable:
-                self[k] = self.coerce_value(v)
+                tuples.append((k, self.coerce_value(v)))
         for k, v in list(kw.items()):
-            self[k] = self.coerce_value(v)
+            tuples.append((k, self.coerce_value(v)))
+        for k, v in tuples:
+            self[k] = v
 
     def __repr__(self):
         """Implemented: prints a valid constructor.
-- 
2.43.0


From aa259eeca0a467bc89aa6624ec774e72e2b8776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 07/77] fix: composing a property type mixes in the type that
 was selected

---
 normalize/property/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index f424f20..8522f3a 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -198,7 +198,7 @@ def create_property_type_from_traits(trait_set):
 
             if mix_in:
                 base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[other]
+                other_type = PROPERTY_TYPES[mix_in]
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-- 
2.43.0


From 5af67a2c2a4c7fd3ceda20faa4ade1bd2464bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 08/77] fix: deleting an unset property raises AttributeError,
 not KeyError

---
 normalize/property/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 6828f8b..817a7b3 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -417,6 +417,8 @@ class SafeProperty(Property):
         it is false"""
         if self.required:
             raise exc.PropertyRequired(prop=self)
+        if self.name not in obj.__dict__:
+            return self.attribute_error_hook()
         del obj.__dict__[self.name]
 
 
-- 
2.43.0


From 665331d3a88dac5cb0f17d3126026fd4c4feef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 09/77] fix: a read-only property mixed with a safe one is
 read-only

---
 normalize/property/meta.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 8522f3a..9d027b9 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -202,7 +202,13 @@ def create_property_type_from_traits(trait_set):
                 new_name = _merge_camel_case_names(
                     base_type.__name__, other_type.__name__,
                 )
-                new_type = type(new_name, (base_type, other_type), {})
+                attrs = {}
+                if "ro" in mixed_in_product:
+                    # read-only stays read-only, whatever it is mixed with
+                    ro_type = PROPERTY_TYPES[("ro",)]
+                    attrs['__set__'] = ro_type.__set__
+                    attrs['__delete__'] = ro_type.__delete__
+                new_type = type(new_name, (base_type, other_type), attrs)
                 stock_types[mixed_in_product] = new_type
                 made_types.append(new_type)
                 made_type = True
-- 
2.43.0


From 36c4d60cf77e855eb5203b796bba5159d87a5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 10/77] fix: initialize properties whose composed type is no
 sub-class of the one called

---
 normalize/property/meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 9d027b9..99e219e 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -270,3 +270,11 @@ class MetaProperty(type):
             for kwarg in duckwargs:
                 DUCKWARGS[kwarg].add((traits, self))
         return self
+
+    def __call__(cls, *args, **kwargs):
+        """``has`` may select a type that is not a sub-class of the one called
+        (but provides all of its traits); it has to be initialized as well."""
+        prop = super(MetaProperty, cls).__call__(*args, **kwargs)
+        if not isinstance(prop, cls):
+            prop.__init__(**kwargs)
+        return prop
-- 
2.43.0


From 0b23d6f543d35a02f62d156e5f3550d5cf1bf357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 11/77] fix: a lazy property with a falsy default computes that
 default

---
 normalize/property/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 817a7b3..503c4b4 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -444,7 +444,8 @@ class V1Property(SafeProperty):
             raise exc.NoneMutable(passed=v1_none)
         self.v1_upgraded = False
         if v1_none is _none and 'default' in kwargs and \
-           looks_like_v1_none(kwargs['default']):
+           looks_like_v1_none(kwargs['default']) and \
+           not isinstance(self, LazyProperty):
             v1_none = kwargs['default']
             del kwargs['default']
             self.v1_upgraded = True
-- 
2.43.0


From 848d5f5f99d739b9a547b940bc5c2174c0c0424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 12/77] fix: a mutable v1_none is rejected with NoneMutable

---
 normalize/exc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 16a1fa9..02406cd 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -300,6 +300,10 @@ class MultipleInheritanceClash(SubclassError):
     )
 
 
+class NoneMutable(PropertyDefinitionError):
+    message = "v1_none= value must be hashable; got {passed!r}"
+
+
 class NotCallable(EmptyAttributeError, TypeError):
     message = (
         "No types in ({typenames}) support invoking"
-- 
2.43.0


From 9fc22b41a14ee557ca85df705f2ac2d88793bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 13/77] fix: slot_is_empty of v1 properties

---
 normalize/property/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 503c4b4..933dff5 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -457,7 +457,7 @@ class V1Property(SafeProperty):
     def slot_is_empty(self, obj):
         if self.v1_upgraded:
             return False
-        return super(V1Property, obj).slot_is_empty(obj)
+        return super(V1Property, self).slot_is_empty(obj)
 
     def attribute_error_hook(self):
         return self.v1_none
-- 
2.43.0


From 0baf21b77aad4208d49b84549249e1353633080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 14/77] fix: ambiguous property arguments are rejected with
 AmbiguousPropertyTraitArg

---
 normalize/exc.py           | 7 +++++++
 normalize/property/meta.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 02406cd..92b439f 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -132,6 +132,13 @@ class AmbiguousConstruction(UsageException):
     message = "only init_dict or kwargs may be specified"
 
 
+class AmbiguousPropertyTraitArg(PropertyDefinitionError):
+    message = (
+        "Property argument '{trait_arg}' is ambiguous; it could mean any of: "
+        "{could_be}"
+    )
+
+
 class BadAssignment(EmptyAttributeError, TypeError):
     message = (
         "Can't assign to the empty placeholder for ({typenames})"
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 99e219e..9953669 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -72,7 +72,7 @@ def has(selfie, self, args, kwargs):
                 raise exc.AmbiguousPropertyTraitArg(
                     trait_arg=argname,
                     could_be=" ".join(
-                        sorted(x.__name__ for x in implies_traits)
+                        sorted("+".join(x) for x in implies_traits)
                     ),
                     matched_traits=implies_traits,
                 )
-- 
2.43.0


From ad0044c06e897a26bc425a93dd0ed21d3a042cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 15/77] fix: property types made with defaults for other traits
 can be declared

---
 normalize/property/__init__.py |  4 +---
 normalize/property/meta.py     | 31 +++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 933dff5..2ae21ac 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -553,9 +553,7 @@ def make_property_type(name, base_type=Property,
         trait_name = "trait%d" % trait_num
 
     def __init__(self, **kwargs):
-        for arg, val in default_kwargs.items():
-            if arg not in kwargs:
-                kwargs[arg] = val
+        # the metaclass has added default_kwargs to the arguments already
         return super(self_type[0], self).__init__(**kwargs)
 
     attrs['default_kwargs'] = default_kwargs
diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 9953669..22cec64 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -113,6 +113,24 @@ def has(selfie, self, args, kwargs):
     return super(selfie, self).__new__(property_type)
 
 
+def add_defaults(proptype, kwargs):
+    """Returns the passed property arguments, along with the defaults that
+    ``make_property_type`` was given for the type, its base classes and the
+    named traits; they are arguments like any other, so every type which is
+    mixed in has to see them."""
+    types = list(proptype.__mro__)
+    for trait in kwargs.get('traits', ()):
+        types.extend(
+            x for x in list(PROPERTY_TYPES.values()) if
+            vars(x).get('__trait__', None) == trait
+        )
+    kwargs = dict(kwargs)
+    for x in types:
+        for arg, val in vars(x).get('default_kwargs', {}).items():
+            kwargs.setdefault(arg, val)
+    return kwargs
+
+
 def _merge_camel_case_names(base_name, new_name):
     import re
     name_parts = re.sub(
@@ -230,12 +248,10 @@ class MetaProperty(type):
     def __new__(mcs, name, bases, attrs):
         """This __new__ method is called when new property trait combinations
         are created."""
-        selfie = [None, attrs.get('default_kwargs', {})]
+        selfie = [None]
 
         def _has(self, *args, **kwargs):
-            mixed_kwargs = dict(selfie[1])
-            mixed_kwargs.update(kwargs)
-            return has(selfie[0], self, args, mixed_kwargs)
+            return has(selfie[0], self, args, add_defaults(self, kwargs))
 
         attrs['__new__'] = _has
         duckwargs = set()
@@ -274,7 +290,6 @@ class MetaProperty(type):
     def __call__(cls, *args, **kwargs):
         """``has`` may select a type that is not a sub-class of the one called
         (but provides all of its traits); it has to be initialized as well."""
-        prop = super(MetaProperty, cls).__call__(*args, **kwargs)
-        if not isinstance(prop, cls):
-            prop.__init__(**kwargs)
-        return prop
+        self = cls.__new__(cls, *args, **kwargs)
+        self.__init__(**add_defaults(type(self), kwargs))
+        return self
-- 
2.43.0


From 8204300a509b87c0392b08b555df56063d874026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 16/77] fix: an explicitly unsafe collection property is not
 made safe behind its back

---
 normalize/property/meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 22cec64..0ff8750 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -110,7 +110,9 @@ def has(selfie, self, args, kwargs):
             base=type(self).__name__,
         )
 
-    return super(selfie, self).__new__(property_type)
+    # not super().__new__; the type is selected already, and selecting again
+    # without the arguments forgets what they asked for
+    return object.__new__(property_type)
 
 
 def add_defaults(proptype, kwargs):
-- 
2.43.0


From b4aa4356d09e25f5567be2d38e7360aae4012920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 17/77] fix: the property type composed for some traits does
 not depend on what was composed before

---
 normalize/property/meta.py | 93 +++++++++++++-------------------------
 1 file changed, 31 insertions(+), 62 deletions(-)

diff --git a/normalize/property/meta.py b/normalize/property/meta.py
index 0ff8750..cd3b147 100644
--- a/normalize/property/meta.py
+++ b/normalize/property/meta.py
@@ -22,6 +22,9 @@ import normalize.exc as exc
 
 PROPERTY_TYPES = dict()
 
+# the ones of them that were made by create_property_type_from_traits
+COMPOSED_TYPES = set()
+
 # Duck typing kwargs... for picking the right Property sub-class to instantiate
 # based on the kwargs used in the Property() constructor
 DUCKWARGS = defaultdict(set)
@@ -162,9 +165,11 @@ def create_property_type_from_traits(trait_set):
     the composition order will be the same every time.
     """
     wanted_traits = set(trait_set)
+    # only mix types which were declared as such; what was composed before must
+    # not make a difference
     stock_types = dict(
         (k, v) for k, v in list(PROPERTY_TYPES.items()) if
-        set(k).issubset(wanted_traits)
+        set(k).issubset(wanted_traits) and v not in COMPOSED_TYPES
     )
 
     traits_available = set()
@@ -178,68 +183,32 @@ def create_property_type_from_traits(trait_set):
             missing=repr(tuple(sorted(missing_traits))),
         )
 
-    made_types = []
-    # mix together property types, until we have made the right type.
-    while trait_set not in PROPERTY_TYPES:
-
-        # be somewhat deterministic: always start with types which provide the
-        # 'first' trait on the list
-        start_with = set(
-            k for k in list(stock_types.keys()) if k and k[0] == trait_set[0]
-        )
-
-        # prefer extending already composed trait sets, by only adding to the
-        # longest ones
-        longest = max(len(x) for x in start_with)
-        made_type = False
-
-        for base in sorted(start_with):
-            if len(base) != longest:
-                continue
-
-            # pick a type to join on which reduces the short-fall as much as
-            # possible.
-            shortfall = len(wanted_traits) - len(base)
-            mix_in = None
-            for other in sorted(stock_types.keys()):
-                # skip mixes that will fail; this means that the type on the
-                # list is a trait subset of 'base'
-                mixed_traits = tuple(sorted(set(base) | set(other)))
-                if mixed_traits in PROPERTY_TYPES:
-                    continue
-
-                this_shortfall = len(wanted_traits - (set(base) | set(other)))
-                if this_shortfall < shortfall:
-                    mix_in = other
-                    mixed_in_product = mixed_traits
-                    shortfall = this_shortfall
-                    if shortfall == 0:
-                        break
-
-            if mix_in:
-                base_type = PROPERTY_TYPES[base]
-                other_type = PROPERTY_TYPES[mix_in]
-                new_name = _merge_camel_case_names(
-                    base_type.__name__, other_type.__name__,
-                )
-                attrs = {}
-                if "ro" in mixed_in_product:
-                    # read-only stays read-only, whatever it is mixed with
-                    ro_type = PROPERTY_TYPES[("ro",)]
-                    attrs['__set__'] = ro_type.__set__
-                    attrs['__delete__'] = ro_type.__delete__
-                new_type = type(new_name, (base_type, other_type), attrs)
-                stock_types[mixed_in_product] = new_type
-                made_types.append(new_type)
-                made_type = True
-
-        if not made_type:
-            raise exc.PropertyTypeMixinFailure(
-                traitlist=repr(trait_set),
-                newtypelist=", ".join(
-                    "%r (%s)" % (x.traits, x.__name__) for x in made_types
-                )
+    # leave out the types which others provide all of the traits of
+    bases = tuple(
+        stock_types[k] for k in sorted(stock_types) if
+        not any(set(k) < set(other) for other in stock_types)
+    )
+    new_name = bases[0].__name__
+    for base in bases[1:]:
+        new_name = _merge_camel_case_names(new_name, base.__name__)
+
+    attrs = {}
+    for base in bases:
+        if "ro" in base.traits:
+            # read-only stays read-only, whatever it is mixed with
+            attrs['__set__'] = base.__set__
+            attrs['__delete__'] = base.__delete__
+            break
+
+    try:
+        COMPOSED_TYPES.add(type(new_name, bases, attrs))
+    except TypeError:
+        raise exc.PropertyTypeMixinFailure(
+            traitlist=repr(trait_set),
+            newtypelist=", ".join(
+                "%r (%s)" % (x.traits, x.__name__) for x in bases
             )
+        )
 
 
 class MetaProperty(type):
-- 
2.43.0


From 7636df3fd4d8948f200b3de01ea86678439ef01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 18/77] fix: record lists and dicts are hashable, and so are
 records with empty ones

---
 normalize/coll.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index f73c181..5f2ea38 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -127,6 +127,9 @@ class Collection(Record):
         """Implemented, for compatibility"""
         return not self.__eq__(other)
 
+    # defining __eq__ drops the inherited __hash__
+    __hash__ = Record.__hash__
+
     def __len__(self):
         """Forwarded to the ``values`` property."""
         return len(self._values)
-- 
2.43.0


From 2bf5c34d0e7b65c70dd3228d7f1c6776882ad664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 19/77] fix: the identity of a record dict depends on its keys,
 and not on their order

---
 normalize/diff.py     |  4 ++++
 normalize/identity.py | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index aa36428..e7a6954 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -532,6 +532,8 @@ def collection_generator(collection):
 def _nested_falsy(x):
     if isinstance(x, tuple):
         return not all(not _nested_falsy(y) for y in x)
+    elif isinstance(x, frozenset):
+        return any(_nested_falsy(v) for k, v in x)
     else:
         return x is _nothing or not x
 
@@ -539,6 +541,8 @@ def _nested_falsy(x):
 def _nested_empty(x):
     if isinstance(x, tuple):
         return all(_nested_empty(y) for y in x)
+    elif isinstance(x, frozenset):
+        return all(_nested_empty(v) for k, v in x)
     else:
         return x is _nothing or x is None or x == ''
 
diff --git a/normalize/identity.py b/normalize/identity.py
index 759fe23..61615da 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -51,19 +51,28 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     if not pk_cols and issubclass(
         type_, normalize.coll.Collection
     ):
-        # FIXME: unordered collections will rarely match each other
         gen = (
             object_.itertuples() if hasattr(object_, "itertuples") else
             type_.coll_to_tuples(object_)
         )
-        return tuple(
-            record_id(
+        ids = tuple(
+            (k, record_id(
                 v, type_.itemtype, selector[k], normalize_object_slot,
-            ) for k, v in gen if selector[(k,)]
+            )) for k, v in gen if selector[(k,)]
         ) if selector else tuple(
-            record_id(v, type_.itemtype, None, normalize_object_slot) for
+            (k, record_id(v, type_.itemtype, None, normalize_object_slot)) for
             k, v in gen
         )
+        if issubclass(type_, normalize.coll.DictCollection):
+            # the keys matter, but not the order they were added in
+            try:
+                return (frozenset(ids),) if ids else ()
+            except TypeError:
+                raise exc.KeyHashError(
+                    prop=type_.__name__,
+                    typename=type_.__name__,
+                )
+        return tuple(v for k, v in ids)
 
     if not pk_cols:
         all_properties = type_._sorted_properties
-- 
2.43.0


From 7f8f844515b7e376964c66bc1efb06b3f4968564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 20/77] fix: the identity of a value of several possible types
 is that of the type it has

---
 normalize/identity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/identity.py b/normalize/identity.py
index 61615da..6311937 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -94,6 +94,10 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
             )
+            # the types that the value has, if any, tell how to identify it
+            value_type_list = tuple(
+                x for x in value_type_list if isinstance(val, x)
+            ) or value_type_list
             val_pk = ()
             set_elements = 0
             for value_type in value_type_list:
-- 
2.43.0


From 073a3e4c4bdee30ce0b24e266a0a3a21844ba918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 21/77] fix: pickling and copying a generic collection keeps
 its own properties

---
 normalize/coll.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 5f2ea38..42990db 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -24,6 +24,7 @@ import types
 from builtins import range, object
 
 import normalize.exc as exc
+from normalize.record import OhPickle
 from normalize.record import Record
 
 """This class contains container classes which can act like collections but
@@ -468,7 +469,10 @@ class _GenericPickler(object):
     def __call__(self, values):
         if (len(self.typekey) > 1) and (self.typekey[1].startswith('__builtin__')):
             self.typekey = (self.typekey[0], self.typekey[1].replace('__builtin__', 'builtins'))
-        return GENERIC_TYPES[self.typekey](values=values)
+        generic_type = GENERIC_TYPES[self.typekey]
+        if isinstance(values, OhPickle):
+            return generic_type.__new__(generic_type)
+        return generic_type(values=values)
 
 
 class _Generic(Collection):
@@ -476,7 +480,8 @@ class _Generic(Collection):
     things."""
     def __reduce__(self):
         """helper method for pickling"""
-        return (_GenericPickler(type(self).generic_key), (self._values,))
+        return (_GenericPickler(type(self).generic_key), (OhPickle(),),
+                self.__getstate__())
 
 
 def _make_generic(of, coll):
-- 
2.43.0


From 9fa895125684e3022a8ca2a7fc14432c90b4ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:26 +0000
Subject: [PATCH 22/77] fix: a copy of a record list or dict does not share its
 container

---
 normalize/coll.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 42990db..efba084 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -135,6 +135,13 @@ class Collection(Record):
         """Forwarded to the ``values`` property."""
         return len(self._values)
 
+    def __getstate__(self):
+        """As for other records, except that a copy gets its own container"""
+        state = dict(self.__dict__)
+        if "_values" in state:
+            state["_values"] = self.colltype(state["_values"])
+        return state
+
     @classmethod
     def coerce_value(cls, v):
         """Coerce a value to the right type for the collection, or return it if
-- 
2.43.0


From cb52d63e7c68b579c1eb876b2b004576b2b4b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:58 +0000
Subject: [PATCH 23/77] fix: repr of JsonRecordDict

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index f571c84..2d89f0a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -497,7 +497,7 @@ class JsonRecordDict(RecordDict, JsonRecord):
         return to_json(self, extraneous)
 
     def __repr__(self):
-        super_repr = super(JsonRecordList, self).__repr__()
+        super_repr = super(JsonRecordDict, self).__repr__()
         return super_repr.replace("{", "values={", 1)
 
 
-- 
2.43.0


From 1a5dfaab3f983d969a34894ebb15f24ea01fd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 24/77] fix: str() of a record with values that cannot be part
 of a key

---
 normalize/record/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/normalize/record/__init__.py b/normalize/record/__init__.py
index e317d9b..2429c25 100644
--- a/normalize/record/__init__.py
+++ b/normalize/record/__init__.py
@@ -94,7 +94,14 @@ class Record(metaclass=RecordMeta):
         of all of the defined attributes with their values) is included, up to
         the first 30 characters or so.
         """
-        pk = self.__pk__
+        try:
+            pk = self.__pk__
+        except (exc.KeyHashError, exc.IdentityCrisis):
+            # no implicit key, because of values which can't be part of one
+            pk = tuple(
+                self.__dict__.get(prop.name, None)
+                for prop in type(self)._sorted_properties
+            )
         key = repr(pk[0] if len(pk) == 1 else pk)
         return "<%s %s>" % (
             type(self).__name__, key[:30] + "..." if len(key) > 32 else key
-- 
2.43.0


From 0ab1f45be005ab6505105ca600a2605a7d508021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 25/77] fix: empty placeholders support what the declared type
 inherits

---
 normalize/empty.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index c631ef7..6d5a2e8 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -32,6 +32,13 @@ def itertypes(iterable):
                 yield entry
 
 
+def supports(type_, method):
+    """Does this type define or inherit the given special method?"""
+    return bool([
+        x for x in type_.__mro__ if x.__dict__.get(method) is not None
+    ])
+
+
 class EmptyVal(object):
     """Empty Value placeholder for a given tuple of types.  This object's
     ``__nonzero__`` always returns ``False``, and it knows how to infer types
@@ -64,7 +71,7 @@ class EmptyVal(object):
             for type_ in self._typetuple:
                 prop = getattr(type_, attr_name, None)
                 if prop is None:
-                    if '__getattr__' in type_.__dict__:
+                    if supports(type_, '__getattr__'):
                         attrs_found.append(None)
                 else:
                     attrs_found.append(prop)
@@ -98,7 +105,7 @@ class EmptyVal(object):
         if self._typetuple is any:
             return self
         for type_ in self._typetuple:
-            if type_.__dict__.get("__call__", False):
+            if supports(type_, "__call__"):
                 return placeholder(any)
         raise self._exc('NotCallable')
 
@@ -113,7 +120,7 @@ class EmptyVal(object):
                 is_coll = issubclass(type_, normalize.coll.Collection)
                 if is_coll:
                     coll_types.append(type_.itemtype)
-                elif '__getitem__' in type_.__dict__:
+                elif supports(type_, '__getitem__'):
                     coll_types.append(any)
 
             if not coll_types:
-- 
2.43.0


From edcbabf107753d12ce25b558908da1a6328158e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 26/77] fix: slicing the empty placeholder of a type without
 items is an error

---
 normalize/empty.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/normalize/empty.py b/normalize/empty.py
index 6d5a2e8..608eee2 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -112,9 +112,7 @@ class EmptyVal(object):
     def __getitem__(self, item):
         if self._typetuple is any:
             return self
-        if isinstance(item, slice):
-            return self
-        elif self._member_type is None:
+        if self._member_type is None:
             coll_types = []
             for type_ in self._typetuple:
                 is_coll = issubclass(type_, normalize.coll.Collection)
@@ -129,7 +127,7 @@ class EmptyVal(object):
                 self._member_type = placeholder(tuple(itertypes(coll_types)))
             else:
                 self._member_type = placeholder(any)
-        return self._member_type
+        return self if isinstance(item, slice) else self._member_type
 
     def __bool__(self):
         return False
-- 
2.43.0


From 9fa612b437758deb07f8ae4ab978fb842339bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:01 +0000
Subject: [PATCH 27/77] fix: iterating over an empty placeholder ends

---
 normalize/empty.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalize/empty.py b/normalize/empty.py
index 608eee2..5f05297 100644
--- a/normalize/empty.py
+++ b/normalize/empty.py
@@ -129,6 +129,10 @@ class EmptyVal(object):
                 self._member_type = placeholder(any)
         return self if isinstance(item, slice) else self._member_type
 
+    def __iter__(self):
+        self[0]  # raises NotSubscriptable, if no type has any items
+        return iter(())
+
     def __bool__(self):
         return False
 
-- 
2.43.0


From f264cd28ece5db5ef796432a8eb3e0f4fb74242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 28/77] fix: the empty accessor of a property does not hide
 what is declared by that name

---
 normalize/record/meta.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 398ba4e..2bb6221 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -80,7 +80,10 @@ class RecordMeta(type):
                     good_props.append(prop)
             return tuple(good_props)
 
-        attrs.update(aux_props)
+        for aux_name, aux_prop in aux_props.items():
+            # not at the expense of anything declared with that name
+            if aux_name not in attrs and aux_name not in properties:
+                attrs[aux_name] = aux_prop
         attrs['primary_key'] = coerce_prop_list('primary_key')
         attrs['properties'] = properties
         attrs['_sorted_properties'] = sorted(
-- 
2.43.0


From 2ce3dc605932ba71755a378b07e41552df2e424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 29/77] fix: records inside other records are read from JSON by
 their JSON names

---
 normalize/record/json.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 2d89f0a..d0e41fb 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -38,17 +38,41 @@ from normalize.selector import FieldSelector
 
 
 def _json_to_value_initializer(json_val, proptype):
-    if proptype:
-        if isinstance(proptype, JsonRecord):
+    if isinstance(proptype, type):
+        if isinstance(json_val, proptype):
             return json_val
         elif hasattr(proptype, "from_json"):
             return proptype.from_json(json_val)
-        elif isinstance(proptype, Record) and isinstance(json_val, dict):
+        elif issubclass(proptype, Collection):
+            return _json_to_items(json_val, proptype)
+        elif issubclass(proptype, Record) and isinstance(json_val, dict):
             return from_json(proptype, json_val)
 
     return json_val
 
 
+def _json_to_items(json_val, colltype):
+    """Converts the items of a JSON array or object, which is to become the
+    passed (not JSON-aware) collection type."""
+    if issubclass(colltype, RecordDict) and isinstance(json_val, dict):
+        items = list(json_val.items())
+    elif issubclass(colltype, RecordList) and isinstance(json_val, list):
+        items = list(enumerate(json_val))
+    else:
+        return json_val
+    values = []
+    for k, v in items:
+        try:
+            values.append((k, _json_to_value_initializer(
+                v, colltype.itemtype,
+            )))
+        except Exception as e:
+            raise _box_ingress_error(k, e)
+    return dict(values) if isinstance(json_val, dict) else [
+        v for k, v in values
+    ]
+
+
 def _box_ingress_error(context, exception):
     error_fs = FieldSelector([context])
     if hasattr(exception, "error_fs"):
-- 
2.43.0


From 723236b18cec9172ce52e98b59f985f741ff5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 30/77] fix: from_json of record lists and dicts that are not
 JSON-aware

---
 normalize/record/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index d0e41fb..d8bb915 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -174,6 +174,9 @@ def from_json(record_type, json_struct):
     if issubclass(record_type, JsonRecord):
         return record_type(json_struct)
 
+    elif issubclass(record_type, Collection):
+        return record_type(_json_to_items(json_struct, record_type))
+
     elif issubclass(record_type, Record):
         # do what the default JsonRecord __init__ does
         init_kwargs = json_to_initkwargs(record_type, json_struct)
-- 
2.43.0


From ccd757c036060f733a4f1c6b743ff7a7c32e17b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:11 +0000
Subject: [PATCH 31/77] fix: two properties can read the same JSON key

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index d8bb915..1e608a0 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -123,10 +123,10 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                             )
                         except Exception as e:
                             raise _box_ingress_error(json_name, e)
-                    unknown_keys.remove(json_name)
+                    unknown_keys.discard(json_name)
         elif prop.name in json_struct:
             json_val = json_struct[prop.name]
-            unknown_keys.remove(prop.name)
+            unknown_keys.discard(prop.name)
             if prop.name not in kwargs:
                 proptype = prop.valuetype
                 try:
-- 
2.43.0


From 8dc007d00a88acd5c6d858e36eb10c5436459bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 32/77] fix: a field selector reports missing keys like missing
 indices, and says what it did not find

---
 normalize/selector.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 45d9ae2..87955fc 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -160,7 +160,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
@@ -199,18 +199,12 @@ class FieldSelector(object):
                 try:
                     record[selector] = value
                 except LookupError:
-                    raise FieldSelectorException(
-                        "Could not find Record specified by index: %s." %
-                        selector
-                    )
+                    raise FieldSelectorKeyError(key=selector)
             else:
                 try:
                     setattr(record, selector, value)
                 except AttributeError:
-                    raise FieldSelectorException(
-                        "Could not find Record specified by property "
-                        "name: %s." % selector
-                    )
+                    raise FieldSelectorAttributeError(name=selector)
         else:
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
@@ -221,19 +215,13 @@ class FieldSelector(object):
                 if _try_index(record, selector):
                     try:
                         sub_record = record[selector]
-                    except IndexError:
-                        raise FieldSelectorException(
-                            "Could not find Record specified by index: %s." %
-                            selector
-                        )
+                    except LookupError:
+                        raise FieldSelectorKeyError(key=selector)
                 else:
                     try:
                         sub_record = getattr(record, selector)
                     except AttributeError:
-                        raise FieldSelectorException(
-                            "Could not find Record specified by property "
-                            "name: %s." % selector
-                        )
+                        raise FieldSelectorAttributeError(name=selector)
                 sub_selector.put(sub_record, value)
 
     def post(self, record, value):
@@ -337,7 +325,7 @@ class FieldSelector(object):
             elif _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
+                except LookupError:
                     raise FieldSelectorKeyError(key=selector)
             else:
                 if not hasattr(record, selector):
-- 
2.43.0


From 700a291d3d87c6560ed47bad2ebf8ae4bb2364d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 33/77] fix: deleting with a field selector what is not there
 is an error

---
 normalize/selector.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 87955fc..c4f52ff 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -341,10 +341,14 @@ class FieldSelector(object):
                 else:
                     record[:] = ()
             else:
-                del record[to_delete]
+                try:
+                    del record[to_delete]
+                except LookupError:
+                    raise FieldSelectorKeyError(key=to_delete)
         else:
-            if hasattr(record, to_delete):
-                delattr(record, to_delete)
+            if not hasattr(record, to_delete):
+                raise FieldSelectorAttributeError(name=to_delete)
+            delattr(record, to_delete)
 
     def __eq__(self, other):
         """Implemented; field selectors must have identical paths to compare
@@ -887,7 +891,11 @@ class MultiFieldSelector(object):
 
         for fs, val in fs_val:
             if val is _None:
-                fs.delete(target)
+                try:
+                    fs.delete(target)
+                except FieldSelectorException:
+                    # there is nothing to be deleted
+                    pass
             else:
                 fs.post(target, val if not copy else copy(val))
 
-- 
2.43.0


From 7a1b05f6382b98b555cb33d69aba4f437ffca27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 34/77] fix: wildcards in field selectors cover the items of
 dicts, and pass the value on

---
 normalize/selector.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c4f52ff..57871c1 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -39,6 +39,13 @@ def _try_index(instance, selector):
     return False
 
 
+def _all_items(coll):
+    """what a ``None`` in a field selector stands for"""
+    if isinstance(coll, (dict, DictCollection)):
+        return list(coll.values())
+    return coll
+
+
 @functools.total_ordering
 class FieldSelector(object):
     """
@@ -144,7 +151,7 @@ class FieldSelector(object):
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 rv = []
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     val = None
                     try:
                         val = sub_field_selector.get(r)
@@ -194,7 +201,12 @@ class FieldSelector(object):
         if len(self.selectors) == 1:
             selector = self.selectors[0]
             if selector is None:
-                record[:] = value
+                if isinstance(record, (dict, DictCollection)):
+                    value = type(record)(value)
+                    record.clear()
+                    record.update(value)
+                else:
+                    record[:] = value
             elif _try_index(record, selector):
                 try:
                     record[selector] = value
@@ -209,7 +221,7 @@ class FieldSelector(object):
             selector = self.selectors[0]
             sub_selector = type(self)(self.selectors[1:])
             if selector is None:
-                for x in record:
+                for x in _all_items(record):
                     sub_selector.put(x, value)
             else:
                 if _try_index(record, selector):
@@ -243,7 +255,10 @@ class FieldSelector(object):
         for selector in self.selectors[:-1]:
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
-                return sum(sub_field_selector.post(r) for r in record)
+                return sum(
+                    sub_field_selector.post(r, value)
+                    for r in _all_items(record)
+                )
 
             # supports the case where an item is created by setting
             # a single required field value
@@ -311,7 +326,7 @@ class FieldSelector(object):
             if selector is None:
                 sub_field_selector = type(self)(self.selectors[i + 1:])
                 all_exc = None
-                for r in record:
+                for r in _all_items(record):
                     try:
                         sub_field_selector.delete(r)
                         all_exc = False
-- 
2.43.0


From d0204671155d8d2675239e492ca1fab013f72168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 35/77] fix: field selectors can refer to the properties of a
 list collection

---
 normalize/selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/normalize/selector.py b/normalize/selector.py
index 57871c1..d5689ed 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -34,6 +34,9 @@ def _try_index(instance, selector):
         return False
     if isinstance(selector, int):
         return True
+    if isinstance(instance, ListCollection) and isinstance(selector, str):
+        # a property of the collection itself
+        return False
     if getattr(instance, "__getitem__", False):
         return True
     return False
-- 
2.43.0


From 675732fcbbe6aa6214f79de7ca9b49f4b33f4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 36/77] fix: FieldSelector.post creates what is missing along
 the path, for all kinds of collections

---
 normalize/exc.py      |  4 +++
 normalize/selector.py | 58 +++++++++++++++++++++++++++----------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 92b439f..5649cc2 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -262,6 +262,10 @@ class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
 
 
+class FieldSelectorVivifyError(FieldSelectorException):
+    message = "Must specify default= or isa= to auto-vivify {prop}"
+
+
 class IdentityCrisis(FeatureNotImplementedException):
     message = (
         "Can't obtain anything hashable from {val_type_name} instance "
diff --git a/normalize/selector.py b/normalize/selector.py
index d5689ed..868e96d 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -27,6 +27,7 @@ from normalize.coll import ListCollection
 from normalize.exc import FieldSelectorAttributeError
 from normalize.exc import FieldSelectorException
 from normalize.exc import FieldSelectorKeyError
+from normalize.exc import FieldSelectorVivifyError
 
 
 def _try_index(instance, selector):
@@ -266,46 +267,61 @@ class FieldSelector(object):
             # supports the case where an item is created by setting
             # a single required field value
             kwarg = {}
-            if i >= len(self.selectors) - 2 and self.selectors[-1] is not None:
+            if i >= len(self.selectors) - 2 and isinstance(
+                self.selectors[-1], str
+            ):
                 kwarg[self.selectors[-1]] = value
 
             if _try_index(record, selector):
                 try:
                     record = record[selector]
-                except IndexError:
-                    if isinstance(selector, int):
+                except LookupError:
+                    itemtype = getattr(type(record), "itemtype", None)
+                    if not itemtype:
+                        raise FieldSelectorKeyError(key=selector)
+                    if isinstance(record, ListCollection):
                         if len(record) != selector:
                             raise ValueError(
                                 "FieldSelector set out of order: "
                                 "[%d]" % selector
                             )
-                        record.append(type(record).itemtype(**kwarg))
-                        if kwarg:
-                            put_final = True
+                        item, put_final = self._vivify(itemtype, kwarg)
+                        record.append(item)
                     else:
-                        raise
+                        item, put_final = self._vivify(itemtype, kwarg)
+                        record[selector] = item
                     record = record[selector]
-                except KeyError:
-                    record[selector] = type(record).itemtype(**kwarg)
-                    if kwarg:
-                        put_final = True
             else:
                 if not hasattr(record, selector):
-                    prop = type(record).properties[selector]
-                    if not prop.valuetype:
-                        raise FieldSelectorException(
-                            "Must specify default= or isa= to auto-vivify "
-                            "%s" % prop
-                        )
-                    setattr(record, selector, prop.valuetype(**kwarg))
-                    if kwarg:
-                        put_final = True
+                    properties = getattr(type(record), "properties", {})
+                    if selector not in properties:
+                        raise FieldSelectorAttributeError(name=selector)
+                    prop = properties[selector]
+                    if not isinstance(prop.valuetype, type):
+                        raise FieldSelectorVivifyError(prop=prop)
+                    item, put_final = self._vivify(prop.valuetype, kwarg)
+                    setattr(record, selector, item)
                 record = getattr(record, selector)
             i = i + 1
         if not put_final:
-            type(self)([self.selectors[-1]]).put(record, value)
+            last = self.selectors[-1]
+            if isinstance(last, int) and isinstance(
+                record, (list, ListCollection)
+            ) and len(record) == last:
+                record.append(value)
+            else:
+                type(self)([last]).put(record, value)
         return 1
 
+    @staticmethod
+    def _vivify(newtype, kwarg):
+        """Makes an empty value of a type, or one with just the passed field
+        set, and returns that and whether it has the field set."""
+        if issubclass(newtype, DictCollection):
+            # the last selector is a key of it
+            kwarg = {}
+        return newtype(**kwarg), bool(kwarg)
+
     def delete(self, record):
         """
         Like 'put', but deletes the item from the specified location.
-- 
2.43.0


From df572d8871667ab262d23d4895c0b3ffcad6b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 37/77] fix: falsy values that are no field selector components
 are rejected

---
 normalize/selector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 868e96d..59495d2 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -81,10 +81,9 @@ class FieldSelector(object):
                 expr_selectors = list(expr)
 
             # Validate the selector
-            if any(
-                e for e in expr_selectors if not (
-                    isinstance(e, str) or isinstance(e, int) or e is None
-                )
+            if not all(
+                isinstance(e, str) or isinstance(e, int) or e is None
+                for e in expr_selectors
             ):
                 raise ValueError(
                     "FieldSelectors can only contain ints/longs, "
-- 
2.43.0


From c0442e1240d8023d193f05dffe7b4d81c4022abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 38/77] fix: equal field selectors have equal hashes

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 59495d2..c1e1f46 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -393,7 +393,7 @@ class FieldSelector(object):
         return self.selectors == other.selectors
 
     def __hash__(self):
-        return super(FieldSelector, self).__hash__()
+        return hash(tuple(self.selectors))
 
     def __ne__(self, other):
         """
-- 
2.43.0


From 6c48fb75c083d0d387c7d06ee3d0489ed89f778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 39/77] fix: FieldSelector.startswith with something longer is
 False

---
 normalize/selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index c1e1f46..7c6746d 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -497,13 +497,13 @@ class FieldSelector(object):
                 that passed.
         """
         if isinstance(key_or_fs, (FieldSelector, list, tuple)):
-            return all(
+            return len(key_or_fs) <= len(self.selectors) and all(
                 key_or_fs[i] == self.selectors[i] for i in range(
                     0, len(key_or_fs),
                 )
             )
         else:
-            return self.selectors[0] == key_or_fs
+            return self.selectors[:1] == [key_or_fs]
 
     @property
     def path(self):
-- 
2.43.0


From 16d19199dae00c062588a0a8771bf7460a37c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 40/77] fix: field selector paths keep all keys and negative
 indices

---
 normalize/selector.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 7c6746d..062bcd7 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -529,7 +529,7 @@ def _fmt_selector_path(selector):
         return "[%d]" % selector
     elif selector is None:
         return "[*]"
-    elif not re.match(r'^[a-zA-Z_]\w*$', selector):
+    elif not re.match(r'[a-zA-Z_]\w*\Z', selector):
         return u"['%s']" % selector.replace("\\", "\\\\").replace("'", "\\'")
     else:
         return ".%s" % selector
@@ -538,11 +538,11 @@ def _fmt_selector_path(selector):
 _PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -552,11 +552,11 @@ def _scan_selector_path(path):
 
         text_item = m.group('key')
         if text_item is not None:
-            text_item = re.sub(r'\\(.)', lambda m: m.group(1), text_item)
+            text_item = re.sub(r'(?s)\\(.)', lambda m: m.group(1), text_item)
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
@@ -949,13 +949,13 @@ class MultiFieldSelector(object):
 _MFS_PATH_TOK = re.compile(
     r'''\.(?P<attr>\w+)|
         \[(?:
-            (?P<idx>\d+)|
+            (?P<idx>-?\d+)|
             (?P<wild>\*)|
-            '(?P<key>(?:[^']+|\\')*)'
+            '(?P<key>(?:[^'\\]|\\.)*)'
         )\]|
         (?P<branch>[()|])
         ''',
-    re.X,
+    re.X | re.S,
 )
 
 
@@ -983,11 +983,11 @@ def _scan_mfs_path(path):
 
         text_item = m.group('key')
         if text_item is not None:
-            text_item = re.sub(r'\\(.)', lambda m: m.group(1), text_item)
+            text_item = re.sub(r'(?s)\\(.)', lambda m: m.group(1), text_item)
         else:
             text_item = m.group('attr')
 
-        if text_item:
+        if text_item is not None:
             fs.append(text_item)
         else:
             idx_item = m.group('idx')
-- 
2.43.0


From f5f59ba865276d4710d53879644f5da8bd8a87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 41/77] fix: the path of an empty MultiFieldSelector selects
 nothing

---
 normalize/selector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 062bcd7..e3b7484 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -975,7 +975,9 @@ def _scan_mfs_path(path):
                 fs = list(stack[-1])
             else:
                 if not popping:
-                    mfs.append(fs)
+                    # '()' selects nothing
+                    if fs != stack[-1]:
+                        mfs.append(fs)
                     popping = True
                 fs = stack.pop()
         else:
-- 
2.43.0


From c9fafed5bb990d524879b0edc804f96557b607cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 42/77] fix: subscripting a MultiFieldSelector with an item its
 wildcard matches

---
 normalize/selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index e3b7484..1127153 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -743,7 +743,7 @@ class MultiFieldSelector(object):
                 return self  # XXX wat
 
         tail = (
-            self.heads[None] if self.complete else
+            self.heads[None] if self.has_none else
             self.heads.get(index, None)
         )
         return type(self).complete_mfs() if tail == all else tail
-- 
2.43.0


From f958cd8a262c9dcb93b551bea4d6cf2f3c56c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 43/77] fix: MultiFieldSelector.patch and .delete work on
 several items of a list

---
 normalize/selector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 1127153..0bcdeaf 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -683,7 +683,9 @@ class MultiFieldSelector(object):
             <FieldSelector: .c>
             >>>
         """
-        for head, tail in self.heads.items():
+        for head, tail in sorted(
+            self.heads.items(), key=lambda x: (isinstance(x[0], str), x[0]),
+        ):
             head_selector = self.FieldSelector((head,))
             if tail is all:
                 if head is None:
@@ -886,7 +888,8 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        for fs in self:
+        # backwards, for indices not to change before they are used
+        for fs in reversed(list(self)):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From a4ce9c414d5f2599575edcf6b4c6f8b831c87390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 44/77] fix: MultiFieldSelector.get keeps values that are None
 and skips items there are none of

---
 normalize/selector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 0bcdeaf..5ee807e 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -832,7 +832,8 @@ class MultiFieldSelector(object):
             else:
                 vals = list(
                     self._get(obj[head], tail) for head, tail in
-                    sorted(self.heads.items())
+                    sorted(self.heads.items()) if
+                    -len(obj) <= head < len(obj)
                 )
 
             if isinstance(obj, ListCollection):
@@ -862,9 +863,10 @@ class MultiFieldSelector(object):
             else:
                 kwargs = dict()
                 for head, tail in self.heads.items():
-                    val = getattr(obj, head, None)
-                    if val is not None:
-                        kwargs[head] = self._get(val, tail)
+                    val = getattr(obj, head, _None)
+                    if val is _None or val is None and tail is not all:
+                        continue
+                    kwargs[head] = self._get(val, tail)
                 return ctor(**kwargs)
 
     def delete(self, obj, force=False):
-- 
2.43.0


From d7c79f5dd78ad610329848cadb764140744e1b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:48 +0000
Subject: [PATCH 45/77] fix: MultiFieldSelector.patch copies item by item where
 there are wildcards

---
 normalize/selector.py | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index 5ee807e..b8863d6 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -580,6 +580,26 @@ class _None(object):
     pass
 
 
+def _each_item(fs, objs):
+    """Generator for the field selectors that a field selector with wildcards
+    within stands for, given the items that any of the objects has."""
+    if None not in fs.selectors[:-1]:
+        yield fs
+        return
+    i = fs.selectors.index(None)
+    keys = []
+    for obj in objs:
+        coll = fs[:i].get_or_none(obj)
+        if isinstance(coll, (dict, DictCollection)):
+            obj_keys = coll.keys()
+        else:
+            obj_keys = range(len(coll or ()))
+        keys.extend(k for k in obj_keys if k not in keys)
+    for key in keys:
+        for x in _each_item(fs[:i] + [key] + fs[i + 1:], objs):
+            yield x
+
+
 class MultiFieldSelector(object):
     """Version of a FieldSelector which stores multiple FieldSelectors combined
     into a single tree structure."""
@@ -916,13 +936,18 @@ class MultiFieldSelector(object):
         """
         # TODO: this could also be a whole lot more efficient!
         fs_val = []
-        for fs in self:
-            try:
-                fs_val.append((fs, fs.get(source)))
-            except AttributeError:
-                fs_val.append((fs, _None))
-            except FieldSelectorException:
-                raise
+        for wild_fs in self:
+            for fs in _each_item(wild_fs, (source, target)):
+                try:
+                    # a final 'None' is the contents of the collection
+                    val = (fs if fs[-1] is not None else fs[:-1]).get(source)
+                    fs_val.append((fs, val))
+                except AttributeError:
+                    fs_val.append((fs, _None))
+                except FieldSelectorException:
+                    if fs is wild_fs:
+                        raise
+                    fs_val.append((fs, _None))
 
         if copy and not callable(copy):
             copy = deepcopy
-- 
2.43.0


From 8bdc051ecdc88ac4753ee92525d7256abfc59a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 46/77] fix: compare_as is not called for slots that are not
 set when records are identified

---
 normalize/diff.py     |  6 +++++-
 normalize/identity.py | 19 ++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index e7a6954..c8b4b79 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -327,7 +327,11 @@ class DiffOptions(object):
         """Retrieve an object identifier from the given record; if it is an
         alien class, and the type is provided, then use duck typing to get the
         corresponding fields of the alien class."""
-        pk = record_id(record, type_, selector, self.normalize_object_slot)
+        def normalize_object_slot(value=_nothing, prop=None, obj=None):
+            value = self.normalize_object_slot(value, prop, obj)
+            return None if value is _nothing else value
+
+        pk = record_id(record, type_, selector, normalize_object_slot)
         return pk
 
     def id_args(self, type_, fs):  # XXX deprecated
diff --git a/normalize/identity.py b/normalize/identity.py
index 6311937..0c29fa6 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -20,6 +20,9 @@ import normalize.exc as exc
 import normalize.record
 
 
+_unset = object()
+
+
 def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
@@ -82,14 +85,16 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
             )
 
     for prop in pk_cols or all_properties:
-        val = getattr(object_, prop.name, None)
+        val = getattr(object_, prop.name, _unset)
         if normalize_object_slot:
-            val = normalize_object_slot(val, prop, object_)
-        _none = (
-            normalize_object_slot(None, prop, object_) if
-            normalize_object_slot else None
-        )
-        if val is not _none and prop.valuetype:
+            val = (
+                normalize_object_slot(prop=prop, obj=object_) if
+                val is _unset else
+                normalize_object_slot(val, prop, object_)
+            )
+        elif val is _unset:
+            val = None
+        if val is not None and prop.valuetype:
             value_type_list = (
                 prop.valuetype if isinstance(prop.valuetype, tuple) else
                 (prop.valuetype,)
-- 
2.43.0


From c1a5050bf6587395c31e7e8d4f04653c958603bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 47/77] fix: items of which a compare_filter selects only some
 fields are compared

---
 normalize/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index c8b4b79..4dfdd0d 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -659,7 +659,7 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
 
         for k, v in collection_generator(propval_x):
             if callable(id_args):
-                if fs_a + [k] not in options.compare_filter:
+                if not options.compare_filter[fs_a + [k]]:
                     continue
             pk = options.record_id(
                 v, **(id_args(k) if callable(id_args) else id_args))
-- 
2.43.0


From a003ab27d528186cc08a70d1a9ec43bf94985fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 48/77] fix: comparing records with values that are frozen sets

---
 normalize/diff.py     | 5 +++--
 normalize/identity.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index 4dfdd0d..eeaabaa 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -30,6 +30,7 @@ from normalize.property import SafeProperty
 from normalize.coll import Collection
 from normalize.coll import DictCollection
 from normalize.coll import ListCollection
+from normalize.identity import DictItems
 from normalize.record import Record
 from normalize.record import record_id
 from normalize.selector import FieldSelector
@@ -536,7 +537,7 @@ def collection_generator(collection):
 def _nested_falsy(x):
     if isinstance(x, tuple):
         return not all(not _nested_falsy(y) for y in x)
-    elif isinstance(x, frozenset):
+    elif isinstance(x, DictItems):
         return any(_nested_falsy(v) for k, v in x)
     else:
         return x is _nothing or not x
@@ -545,7 +546,7 @@ def _nested_falsy(x):
 def _nested_empty(x):
     if isinstance(x, tuple):
         return all(_nested_empty(y) for y in x)
-    elif isinstance(x, frozenset):
+    elif isinstance(x, DictItems):
         return all(_nested_empty(v) for k, v in x)
     else:
         return x is _nothing or x is None or x == ''
diff --git a/normalize/identity.py b/normalize/identity.py
index 0c29fa6..e895606 100644
--- a/normalize/identity.py
+++ b/normalize/identity.py
@@ -23,6 +23,10 @@ import normalize.record
 _unset = object()
 
 
+class DictItems(frozenset):
+    """The keys and identities of the items of a collection like ``dict``"""
+
+
 def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
     """Implementation of id() which is overridable and knows about record's
     primary_key property.  Returns if the two objects may be the "same";
@@ -69,7 +73,7 @@ def record_id(object_, type_=None, selector=None, normalize_object_slot=None):
         if issubclass(type_, normalize.coll.DictCollection):
             # the keys matter, but not the order they were added in
             try:
-                return (frozenset(ids),) if ids else ()
+                return (DictItems(ids),) if ids else ()
             except TypeError:
                 raise exc.KeyHashError(
                     prop=type_.__name__,
-- 
2.43.0


From 697796497d4d0242af02e729e3a19beac57a7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 49/77] fix: comparing lists and dicts of values that are not
 hashable

---
 normalize/diff.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/normalize/diff.py b/normalize/diff.py
index eeaabaa..c25d3ca 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -798,6 +798,27 @@ def compare_collection_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                 )
 
 
+def _hashable(value):
+    """Converts values of the standard containers, recursively, to something
+    which can be hashed, and which is equal for equal values."""
+    try:
+        hash(value)
+    except TypeError:
+        if isinstance(value, dict):
+            return (dict, frozenset(
+                (k, _hashable(v)) for k, v in value.items()
+            ))
+        elif isinstance(value, (list, tuple)):
+            return (
+                tuple if isinstance(value, tuple) else list,
+                tuple(_hashable(v) for v in value),
+            )
+        elif isinstance(value, set):
+            return frozenset(value)
+        return repr(value)
+    return value
+
+
 def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
                       options=None):
     """Generator for comparing 'simple' lists when they are encountered.  This
@@ -821,8 +842,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = i
@@ -906,8 +926,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-            if not v.__hash__:
-                v = repr(v)
+            v = _hashable(v)
             if v is not _nothing or not options.ignore_empty_slots:
                 vals.add((v, seen[v]))
                 rev_key[(v, seen[v])] = k
-- 
2.43.0


From 440ef5135c855bd0c1be74c5ea99baa5ca2127bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 50/77] fix: a compare_filter restricts the comparison of
 simple lists and dicts to the items selected

---
 normalize/diff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/normalize/diff.py b/normalize/diff.py
index c25d3ca..f4b7d98 100644
--- a/normalize/diff.py
+++ b/normalize/diff.py
@@ -830,6 +830,7 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         fs_b = FieldSelector(tuple())
     if not options:
         options = DiffOptions()
+    selected = options.compare_filter and options.compare_filter[fs_a]
     propvals = dict(a=propval_a, b=propval_b)
     values = dict()
     indices = dict()
@@ -839,6 +840,8 @@ def compare_list_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = indices[x] = dict()
         seen = collections.Counter()
         for i, v in collection_generator(propval_x):
+            if selected and not selected[(i,)]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
@@ -914,6 +917,7 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         fs_b = FieldSelector(tuple())
     if not options:
         options = DiffOptions()
+    selected = options.compare_filter and options.compare_filter[fs_a]
     propvals = dict(a=propval_a, b=propval_b)
     values = dict()
     rev_keys = dict()
@@ -923,6 +927,8 @@ def compare_dict_iter(propval_a, propval_b, fs_a=None, fs_b=None,
         rev_key = rev_keys[x] = dict()
         seen = collections.Counter()
         for k, v in collection_generator(propval_x):
+            if selected and not selected[(k,)]:
+                continue
             v = options.normalize_item(
                 v, propval_a if options.duck_type else propval_x
             )
-- 
2.43.0


From c4f36ed1cd0c59131f977a43f7623ec957ccc9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:48 +0000
Subject: [PATCH 51/77] fix: the items of a dict passed for a list have
 different indices

---
 normalize/coll.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index efba084..077734c 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -341,6 +341,7 @@ class ListCollection(KeyedCollection):
             i = 0
             for k in sorted(coll.keys()):
                 yield (i, coll[k])
+                i += 1
         elif isinstance(coll, (collections.abc.Sequence, types.GeneratorType)) or (
             hasattr(coll, "next") and callable(coll.next)
         ) or (
-- 
2.43.0


From 3bd98d38cc82064fd0e46a1992c86029350b918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 52/77] fix: visiting what is no collection raises
 VisitorUnpackError

---
 normalize/visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 2e42d87..87a477a 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -232,7 +232,7 @@ class VisitorPattern(object):
                 else:
                     raise exc.VisitorUnpackError(
                         passed=value,
-                        colltype=value_type.colltype.__name__,
+                        colltype=value_type.colltype,
                         context=visitor,
                     )
         else:
-- 
2.43.0


From 7e236089ae34a1bb909ad89f2c091b4eecdd2bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:52 +0000
Subject: [PATCH 53/77] fix: visiting a dict as a record

---
 normalize/visitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 87a477a..7c1efc9 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -240,6 +240,8 @@ class VisitorPattern(object):
 
         if issubclass(value_type, Record):
             def propget(prop):
+                if isinstance(value, collections.abc.Mapping):
+                    return value[prop.name]
                 return prop.__get__(value)
         else:
             propget = None
-- 
2.43.0


From 4adb573c92d61d70e2bcbc5b14602553f0acb335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 54/77] fix: visiting with apply_empty_slots where slots for
 records are empty

---
 normalize/visitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 7c1efc9..50b7db9 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -698,7 +698,10 @@ class VisitorPattern(object):
         # those who don't declare their isa= for complex object types.
         value_type = prop.valuetype or type(value)
 
-        if isinstance(value_type, tuple):
+        if isinstance(value, (AttributeError, KeyError)):
+            # nothing there to descend into (see apply_empty_slots)
+            mapped = visitor.apply(value, prop, visitor)
+        elif isinstance(value_type, tuple):
             mapped = cls.map_type_union(
                 visitor, value, value_type, prop,
             )
-- 
2.43.0


From e7c8ce6394f74f8a532204baaf9dcc26c8bd5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 55/77] fix: a visit_filter restricts the visit of simple lists
 and dicts to the items selected

---
 normalize/visitor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 50b7db9..608f82f 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -90,6 +90,15 @@ class Visitor(object):
             self.visit_filter and not self.visit_filter[self.cue + [prop.name]]
         )
 
+    def is_filtered_item(self, item_type):
+        # records have slots, which are filtered individually
+        return (
+            self.visit_filter and
+            not (isinstance(item_type, type) and
+                 issubclass(item_type, Record)) and
+            not self.visit_filter[self.cue]
+        )
+
     @property
     def field_selector(self):
         return FieldSelector(self.cue)
@@ -681,6 +690,9 @@ class VisitorPattern(object):
         rv = visitor.copy()
         for key, value in coll_generator:
             rv.push(key)
+            if rv.is_filtered_item(coll_type.itemtype):
+                rv.pop(key)
+                continue
             mapped = cls.map(rv, value, coll_type.itemtype)
             rv.pop(key)
             if mapped is None and visitor.ignore_none:
-- 
2.43.0


From c3718d3a289e628d9b8e2a1bcbb4b71f67d6d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 56/77] fix: casting with a visit_filter drops records of which
 no field is selected

---
 normalize/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/normalize/visitor.py b/normalize/visitor.py
index 608f82f..a2cd299 100644
--- a/normalize/visitor.py
+++ b/normalize/visitor.py
@@ -418,9 +418,11 @@ class VisitorPattern(object):
         ``value_type`` is not appropriate for ``value``.
         """
         is_coll = issubclass(value_type, Collection)
-        is_record = issubclass(value_type, Record) and any(
-            not visitor.is_filtered(prop) for prop in
-            list(value_type.properties.values())
+        is_record = issubclass(value_type, Record) and (
+            not is_coll or any(
+                not visitor.is_filtered(prop) for prop in
+                list(value_type.properties.values())
+            )
         )
 
         if is_record and not isinstance(value, cls.grok_mapping_types):
-- 
2.43.0


From 6ef0aa4020c24a884f3d81be3a8811fb779a1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 57/77] fix: attributes of auto JSON records can be set and
 deleted, and missing ones raise AttributeError

---
 normalize/record/json.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 1e608a0..b158be5 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -612,20 +612,27 @@ class AutoJsonRecord(JsonRecord):
     def __getattr__(self, attr):
         if attr in type(self).properties:
             return type(self).properties[attr].__get__(self)
-        else:
+        try:
             return self.unknown_json_keys[attr]
+        except KeyError:
+            raise AttributeError(
+                "%r object has no attribute %r" % (type(self).__name__, attr)
+            )
 
     def __setattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__set__(self)
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__setattr__(attr, value)
         else:
-            self.unknown_json_keys[attr]
+            self.unknown_json_keys[attr] = value
 
-    def __delattr__(self, attr, value):
-        if attr in type(self).properties:
-            return type(self).properties[attr].__del__(self)
+    def __delattr__(self, attr):
+        if hasattr(type(self), attr):
+            super(AutoJsonRecord, self).__delattr__(attr)
         else:
-            del self.unknown_json_keys[attr]
+            try:
+                del self.unknown_json_keys[attr]
+            except KeyError:
+                raise AttributeError(attr)
 
 
 class NCAutoJsonRecord(AutoJsonRecord):
-- 
2.43.0


From b7b5447d6100d1d4147fc10ab82296bc85aae970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 58/77] fix: auto JSON records accept lists of which only some
 items are objects

---
 normalize/record/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index b158be5..02c0c6b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -554,7 +554,7 @@ class AutoJsonRecord(JsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(AutoJsonRecord)(thing)
         else:
             return thing
@@ -652,7 +652,7 @@ class NCAutoJsonRecord(AutoJsonRecord):
 
     @classmethod
     def auto_upgrade_list(cls, thing):
-        if len(thing) and isinstance(thing[0], dict):
+        if len(thing) and all(isinstance(x, dict) for x in thing):
             return list_of(NCAutoJsonRecord)(thing)
         else:
             return thing
-- 
2.43.0


From e9607f37cc66bdc6adedd6e03e824c4b1dbfea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 59/77] fix: auto JSON records write the keys that they were
 passed

---
 normalize/record/json.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 02c0c6b..771d04b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -547,6 +547,9 @@ class AutoJsonRecord(JsonRecord):
     unknown_json_keys = JsonProperty(
         json_name=None, extraneous=False, default=lambda: {},
     )
+    # the keys which were passed in, where it is not what the attribute's name
+    # is converted to on output
+    json_key_names = JsonProperty(json_name=None, extraneous=True)
 
     @classmethod
     def auto_upgrade_dict(cls, thing):
@@ -592,10 +595,19 @@ class AutoJsonRecord(JsonRecord):
         # upgrade any dictionaries to AutoJsonRecord, and
         # any lists of dictionaries to list_of(AutoJsonRecord)
         if 'unknown_json_keys' in kwargs:
-            kwargs['unknown_json_keys'] = {
-                cls.convert_json_key_in(k): cls.auto_upgrade_any(v) for
-                k, v in list(kwargs['unknown_json_keys'].items())
-            }
+            unknown_keys = kwargs['unknown_json_keys']
+            values = {}
+            key_names = {}
+            for k, v in list(unknown_keys.items()):
+                attr = cls.convert_json_key_in(k)
+                if attr != k and attr in unknown_keys or attr in values:
+                    attr = k
+                values[attr] = cls.auto_upgrade_any(v)
+                if cls.convert_json_key_out(attr) != k:
+                    key_names[attr] = k
+            kwargs['unknown_json_keys'] = values
+            if key_names:
+                kwargs['json_key_names'] = key_names
         return kwargs
 
     def json_data(self, extraneous=False):
@@ -603,8 +615,11 @@ class AutoJsonRecord(JsonRecord):
         if hasattr(self, "unknown_json_keys"):
             prop = type(self).properties['unknown_json_keys']
             if extraneous or not prop.extraneous:
-                for k, v in self.unknown_json_keys.items():
-                    k = type(self).convert_json_key_out(k)
+                key_names = getattr(self, "json_key_names", {})
+                for attr, v in self.unknown_json_keys.items():
+                    k = key_names.get(attr)
+                    if k is None:
+                        k = type(self).convert_json_key_out(attr)
                     if k not in jd:
                         jd[k] = to_json(v, extraneous)
         return jd
-- 
2.43.0


From f2fa29a79f8fe4bd97c71f28dcabd12e519d9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:52 +0000
Subject: [PATCH 60/77] fix: auto JSON records write the keys of the objects
 within

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 771d04b..c14e48a 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -621,7 +621,7 @@ class AutoJsonRecord(JsonRecord):
                     if k is None:
                         k = type(self).convert_json_key_out(attr)
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def __getattr__(self, attr):
-- 
2.43.0


From 6cab6ba2c8570ab9ad6475b250892de496fc92f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 61/77] fix: datetimes with microseconds can be read back from
 JSON without dateutil

---
 normalize/property/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index 3d81890..5432716 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -33,6 +33,7 @@ except ImportError:
         14: "%Y%m%d%H:%MZ",
         16: "%Y%m%d%H:%M:%S",
         17: "%Y%m%d%H:%M:%SZ",
+        23: "%Y%m%d%H:%M:%S.%f",
     }
 
     def parse_datetime(not_a_datetime):
-- 
2.43.0


From 1606a256b9f012f772766edcda0e68e8d4e8921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:10 +0000
Subject: [PATCH 62/77] fix: incomplete dates are not taken for others without
 dateutil

---
 normalize/property/types.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index 5432716..c6e70c4 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -18,6 +18,7 @@
 types"""
 import datetime
 import numbers
+import re
 from sys import maxsize
 
 from . import make_property_type
@@ -39,7 +40,11 @@ except ImportError:
     def parse_datetime(not_a_datetime):
         datetime_stripped = not_a_datetime.replace(
             "-", "").replace("T", "").replace(" ", "")
-        if len(datetime_stripped) in formats:
+        # other dates could be taken for different ones without separators
+        if len(datetime_stripped) in formats and re.match(
+            r'(\d{4}|\d\d)(-?)\d\d\2\d\d([T ]|\d\d:|$)',
+            not_a_datetime.strip(),
+        ):
             return datetime.datetime.strptime(
                 datetime_stripped, formats[len(datetime_stripped)],
             )
-- 
2.43.0


From aea6e12eec73ff80d826abe241aeecb929062607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 63/77] fix: StringProperty refuses what is not a string, as
 documented

---
 normalize/property/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/normalize/property/types.py b/normalize/property/types.py
index c6e70c4..1695f05 100644
--- a/normalize/property/types.py
+++ b/normalize/property/types.py
@@ -84,6 +84,7 @@ NumberProperty = make_property_type(
 )
 StringProperty = make_property_type(
     "StringProperty", isa=str, trait_name="str",
+    coerce=lambda s: s,
     attrs={
         "__doc__": "A property which must be a ``basestring`` or "
                    "``unicode``, and if not, throws a coerce error",
-- 
2.43.0


From cef5f50eeed4f2b5d4b6bfb566ca89e058332799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:36 +0000
Subject: [PATCH 64/77] fix: bound methods, classes and built-in functions work
 as default= and compare_as=

---
 normalize/property/__init__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/normalize/property/__init__.py b/normalize/property/__init__.py
index 2ae21ac..583c35b 100644
--- a/normalize/property/__init__.py
+++ b/normalize/property/__init__.py
@@ -156,19 +156,23 @@ class Property(metaclass=MetaProperty):
         self.empty_attr = empty_attr
         self.extraneous = extraneous
 
-    def func_info(self, func):
-        args = inspect.getfullargspec(func)
-        is_method = False
-        if not args.args:
-            required_args = 0
-        else:
-            required_args = len(args.args)
-            if args.defaults:
-                required_args -= len(args.defaults)
-            if required_args and args.args[0] == "self":
-                is_method = True
-                required_args -= 1
-        return is_method, required_args
+    def func_info(self, func, unknown=0):
+        """Returns whether the callable wants the object (as ``self``), and
+        how many other arguments it requires; ``unknown`` stands for those of
+        built-in types and functions which do not tell."""
+        try:
+            signature = inspect.signature(func, follow_wrapped=False)
+        except ValueError:
+            return False, unknown
+        required = [
+            p for p in signature.parameters.values() if
+            p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and
+            p.default is p.empty
+        ]
+        # not the 'self' of a method of a built-in type, eg str.lower
+        is_method = bool(required) and required[0].name == "self" and \
+            not inspect.ismethoddescriptor(func)
+        return is_method, len(required) - (1 if is_method else 0)
 
     @property
     def bound(self):
@@ -485,7 +489,7 @@ class DiffasProperty(Property):
         """
         super(DiffasProperty, self).__init__(**kwargs)
         self.compare_as = compare_as
-        is_method, nargs = self.func_info(compare_as)
+        is_method, nargs = self.func_info(compare_as, unknown=1)
         self.compare_as_info = is_method, nargs
         if nargs > 1:
             raise exc.CompareAsSignatureError(
-- 
2.43.0


From c5899da43a5c70c203e4170bb1d84996e6fee3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 65/77] fix: an unknown name in primary_key raises
 PropertiesNotKnown

---
 normalize/record/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/meta.py b/normalize/record/meta.py
index 2bb6221..93074d1 100644
--- a/normalize/record/meta.py
+++ b/normalize/record/meta.py
@@ -69,7 +69,7 @@ class RecordMeta(type):
             if proplist:
                 for prop in proplist:
                     if isinstance(prop, str):
-                        prop = properties[prop]
+                        prop = properties.get(prop, prop)
                     if not isinstance(prop, Property) or (
                         prop not in all_properties
                     ):
-- 
2.43.0


From 73abefc04ec853ee0644814afc00ca3d10882ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:44 +0000
Subject: [PATCH 66/77] fix: collections do not take items of the wrong type
 from coerceitem

---
 normalize/coll.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 077734c..cc889c5 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -150,7 +150,9 @@ class Collection(Record):
             return v
         else:
             try:
-                return cls.coerceitem(v)
+                item = cls.coerceitem(v)
+                if not isinstance(item, cls.itemtype):
+                    raise TypeError("coerceitem returned %r" % (item,))
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
@@ -158,6 +160,7 @@ class Collection(Record):
                     passed=v,
                     exc=e,
                 )
+            return item
 
     @classmethod
     def coerce_tuples(cls, generator):
-- 
2.43.0


From 0ebc9bf82d34fb72ec8debf62a68c0b89eada89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:46 +0000
Subject: [PATCH 67/77] fix: a bad item for a collection of several types is a
 CollectionItemCoerceError

---
 normalize/coll.py | 5 +++++
 normalize/exc.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index cc889c5..7af1f13 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -156,6 +156,11 @@ class Collection(Record):
             except Exception as e:
                 raise exc.CollectionItemCoerceError(
                     itemtype=cls.itemtype,
+                    typename=(
+                        "(" + ", ".join(x.__name__ for x in cls.itemtype) +
+                        ")" if isinstance(cls.itemtype, tuple) else
+                        cls.itemtype.__name__
+                    ),
                     colltype=cls,
                     passed=v,
                     exc=e,
diff --git a/normalize/exc.py b/normalize/exc.py
index 5649cc2..861e96b 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -172,7 +172,7 @@ class CollectionCoerceError(CoercionError):
 
 class CollectionItemCoerceError(CoercionError):
     message = (
-        "coerce to {itemtype.__name__} for insertion to "
+        "coerce to {typename} for insertion to "
         "{colltype.__name__} failed for value {passed!r}: {exc}"
     )
 
-- 
2.43.0


From 031c3526579423566ea003af2f7f1dead4353fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 68/77] fix: generic types of different collection classes of
 one name are not taken for each other

---
 normalize/coll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 7af1f13..88068c8 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -517,7 +517,8 @@ def _make_generic(of, coll):
     assert(issubclass(coll, Collection))
     key = (coll.__name__, "%s.%s" % (of.__module__, of.__name__))
     if key in GENERIC_TYPES:
-        if GENERIC_TYPES[key].itemtype != of:
+        if GENERIC_TYPES[key].itemtype != of or \
+                not issubclass(GENERIC_TYPES[key], coll):
             raise exc.PropertyNotUnique(key=key)
     else:
         # oh, we get to name it?  Goodie!
-- 
2.43.0


From bb75f55df2eaa125dd171b21607e2696674fbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:50 +0000
Subject: [PATCH 69/77] fix: repr of an exception with a tuple for a positional
 argument

---
 normalize/exc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/exc.py b/normalize/exc.py
index 861e96b..098b59a 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -68,7 +68,7 @@ class StringFormatException(NormalizeError):
         return "%s%s(%s)" % (
             "exc." if self.__module__.endswith(".exc") else "",
             type(self).__name__, ", ".join(
-                tuple("%r" % x for x in self.args) +
+                tuple("%r" % (x,) for x in self.args) +
                 tuple("%s=%r" % (k, v) for k, v in self.kwargs.items())
             )
         )
-- 
2.43.0


From dff9a5b3379b367b476718168a4fc41877b22b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 70/77] fix: FieldSelectorAttributeError carries the name again

---
 normalize/exc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalize/exc.py b/normalize/exc.py
index 098b59a..3ccb14f 100644
--- a/normalize/exc.py
+++ b/normalize/exc.py
@@ -257,6 +257,11 @@ class EmptySignatureError(PropertyDefinitionError):
 class FieldSelectorAttributeError(FieldSelectorException, AttributeError):
     message = "Could not find property specified by name: {name}"
 
+    def __init__(self, *args, **kwargs):
+        super(FieldSelectorAttributeError, self).__init__(*args, **kwargs)
+        # AttributeError has a 'name' of its own, which hides the argument
+        self.name = kwargs["name"]
+
 
 class FieldSelectorKeyError(FieldSelectorException, KeyError):
     message = "Could not find Record specified by index: {key}"
-- 
2.43.0


From 74915eb4923837d411b93ae61d2fc2bd3814d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:54 +0000
Subject: [PATCH 71/77] fix: json_data methods with another keyword-only
 argument are not passed extraneous=

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index c14e48a..51e94d5 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -206,7 +206,7 @@ def _json_data(x, extraneous):
         has_json_data[type(x)] = htj
         if htj:
             argspec = inspect.getfullargspec(x.json_data)
-            tjte = 'extraneous' in argspec.args or argspec.kwonlyargs
+            tjte = 'extraneous' in argspec.args + argspec.kwonlyargs
             json_data_takes_extraneous[type(x)] = tjte
             if tjte:
                 return x.json_data(extraneous=extraneous)
-- 
2.43.0


From a5bbf3abd1b94b04caf6ace47c620fab892c871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:56 +0000
Subject: [PATCH 72/77] fix: an AttributeError in json_out or json_data is not
 taken for an unset slot

---
 normalize/record/json.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 51e94d5..8f5b95b 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -216,6 +216,13 @@ def _json_data(x, extraneous):
             return to_json(x, extraneous)
 
 
+def _prop_to_json(val, extraneous, prop):
+    if hasattr(prop, "to_json"):
+        return prop.to_json(val, extraneous, _json_data)
+    else:
+        return _json_data(val, extraneous)
+
+
 def to_json(record, extraneous=True, prop=None):
     """JSON conversion function: a 'visitor' function which implements marshall
     out (to JSON data form), honoring JSON property types/hints but does not
@@ -241,11 +248,7 @@ def to_json(record, extraneous=True, prop=None):
     if prop:
         if isinstance(prop, str):
             prop = type(record).properties[prop]
-        val = prop.__get__(record)
-        if hasattr(prop, "to_json"):
-            return prop.to_json(val, extraneous, _json_data)
-        else:
-            return _json_data(val, extraneous)
+        return _prop_to_json(prop.__get__(record), extraneous, prop)
 
     elif isinstance(record, Collection):
         if isinstance(record, RecordDict):
@@ -265,9 +268,10 @@ def to_json(record, extraneous=True, prop=None):
             elif not hasattr(prop, "json_name") or prop.json_name is not None:
                 json_name = getattr(prop, "json_name", prop.name)
                 try:
-                    rv_dict[json_name] = to_json(record, extraneous, prop)
+                    val = prop.__get__(record)
                 except AttributeError:
-                    pass
+                    continue
+                rv_dict[json_name] = _prop_to_json(val, extraneous, prop)
         return rv_dict
 
     elif isinstance(record, int):
-- 
2.43.0


From 19821358e7fbe3878e26f994c8d3bd3754656370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 73/77] fix: index and remove of a tuple that is not in the
 list raise ValueError

---
 normalize/coll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/coll.py b/normalize/coll.py
index 88068c8..8210d45 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -396,7 +396,7 @@ class ListCollection(KeyedCollection):
         for k in range(i, min(j, len_)):
             if self[k] == x:
                 return k
-        raise ValueError("%r is not in list" % x)
+        raise ValueError("%r is not in list" % (x,))
 
     def insert(self, i, x):
         if i < 0:
-- 
2.43.0


From dc1a9fee0b69232670949f9aa5fedd302f68b9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:29 +0000
Subject: [PATCH 74/77] fix: adding what is no list to a list is a TypeError

---
 normalize/coll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/normalize/coll.py b/normalize/coll.py
index 8210d45..6a77210 100644
--- a/normalize/coll.py
+++ b/normalize/coll.py
@@ -448,6 +448,8 @@ class ListCollection(KeyedCollection):
         if not isinstance(other, type(self)) and \
                 isinstance(other, self.colltype):
             other = type(self)(other)
+        if not isinstance(other, Collection):
+            return NotImplemented
         return type(self)(self._values + other._values)
 
     @property
-- 
2.43.0


From 7d23d91d0d090d68cc339263b29e52249d67fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:31 +0000
Subject: [PATCH 75/77] fix: deleting several items by negative index deletes
 the selected ones

---
 normalize/selector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/normalize/selector.py b/normalize/selector.py
index b8863d6..e538360 100644
--- a/normalize/selector.py
+++ b/normalize/selector.py
@@ -910,8 +910,10 @@ class MultiFieldSelector(object):
                 except FieldSelectorException:
                     raise
 
-        # backwards, for indices not to change before they are used
-        for fs in reversed(list(self)):
+        # farthest first, for indices not to change before they are used
+        for fs in sorted(self, key=lambda fs: [
+            (1, x) if isinstance(x, str) else (0, -abs(x or 0)) for x in fs
+        ]):
             try:
                 fs.delete(obj)
             except FieldSelectorException:
-- 
2.43.0


From 2a48a2771ef3793b38660ae5e8e2036a7c722ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 76/77] fix: a json_data method is used also among unknown JSON
 keys

---
 normalize/record/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index 8f5b95b..b8c636f 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -363,7 +363,7 @@ class JsonRecord(Record):
             if extraneous or not prop.extraneous:
                 for k, v in self.unknown_json_keys.items():
                     if k not in jd:
-                        jd[k] = to_json(v, extraneous)
+                        jd[k] = _json_data(v, extraneous)
         return jd
 
     def diff_iter(self, other, **kwargs):
-- 
2.43.0


From 248232b43cc67d1b246bccd396ae1f3801ee4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:59 +0000
Subject: [PATCH 77/77] fix: unknown JSON keys keep their order

---
 normalize/record/json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/normalize/record/json.py b/normalize/record/json.py
index b8c636f..ad151fa 100644
--- a/normalize/record/json.py
+++ b/normalize/record/json.py
@@ -137,7 +137,8 @@ def json_to_initkwargs(record_type, json_struct, kwargs=None):
                     raise _box_ingress_error(prop.name, e)
     if unknown_keys:
         kwargs["unknown_json_keys"] = dict(
-            (k, deepcopy(json_struct[k])) for k in unknown_keys
+            (k, deepcopy(v)) for k, v in json_struct.items()
+            if k in unknown_keys
         )
     return kwargs
 
-- 
2.43.0

