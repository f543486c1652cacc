From 463bcba2b68f834715c8d977ead818cbf761c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 01/37] fix: accept valid absolute quantities at the FATAL
 validation level

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..d6e9d2b 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif messages:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From 8c47c2766afbc13271b84df083d253f9d642081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 02/37] fix: restore the validation level when its context
 exits with an exception

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From ef559d3885328a325ac262776ae231a82887e4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:02 +0000
Subject: [PATCH 03/37] fix: keep the case-insensitive key registry in step
 under setdefault, |=, update and copying

---
 gemd/entity/case_insensitive_dict.py | 57 +++++++++++++++++++---------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..bfbdb06 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -157,24 +157,45 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
-            if key.lower() in self.lowercase_dict:
-                prev = self.lowercase_dict[key.lower()]
-                if prev != key:
-                    raise ValueError(
-                        "Key '{}' already exists in dict with different case: "
-                        "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
-            self._register_key(key)
+        incoming = dict(mapping or {}, **kwargs)
+        registry = dict(self.lowercase_dict)  # Check everything before changing anything
+        for key in incoming:
+            prev = registry.setdefault(key.lower(), key)
+            if prev != key:
+                raise ValueError(
+                    "Key '{}' already exists in dict with different case: "
+                    "'{}'".format(key, prev))
+        super().update(incoming)
+        self.lowercase_dict = registry
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, inserting a default if it is absent.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`.
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def __ior__(self, other) -> 'CaseInsensitiveDict':
+        self.update(other)
+        return self
+
+    def __reduce__(self):
+        return type(self), (dict(self),)
 
     def _register_key(self, key: str) -> None:
         """
-- 
2.43.0


From 8badedf38c0e6b3ede03f2bf5aa3635e8785b317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:03 +0000
Subject: [PATCH 04/37] fix: accept any scope name and any mapping as uids

---
 gemd/entity/base_entity.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..086bd90 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -1,5 +1,6 @@
 """Base class for all entities."""
-from typing import TypeVar, Optional, Union, Iterable, List, Set, FrozenSet, MutableMapping, Dict
+from typing import TypeVar, Optional, Union, Iterable, List, Set, FrozenSet, Mapping, \
+    MutableMapping, Dict
 
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.has_dependencies import HasDependencies
@@ -53,10 +54,10 @@ class BaseEntity(DictSerializable):
         """Set the uids."""
         if uids is None:
             self._uids = CaseInsensitiveDict()
-        elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+        elif isinstance(uids, Mapping):
+            self._uids = CaseInsensitiveDict(uids)
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict({uids[0]: uids[1]})
 
     def add_uid(self, scope: str, uid: str):
         """
-- 
2.43.0


From 0832bf05b897f471ce7aeff27af070a46a80d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 05/37] fix: validate every element added to a typed list, from
 any iterable and by any operation

---
 .../template/has_condition_templates.py       |  1 +
 .../template/has_parameter_templates.py       |  1 +
 .../entity/template/has_property_templates.py |  1 +
 gemd/entity/valid_list.py                     | 22 +++++++++++++------
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..b8e3be5 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -64,6 +64,7 @@ class HasConditionTemplates(HasDependencies):
 
         """
         if isinstance(conditions, Iterable):
+            conditions = list(conditions)  # Iterate only once, in case it is consumable
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..11a9783 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -64,6 +64,7 @@ class HasParameterTemplates(HasDependencies):
 
         """
         if isinstance(parameters, Iterable):
+            parameters = list(parameters)  # Iterate only once, in case it is consumable
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..dd4fe2a 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -62,6 +62,7 @@ class HasPropertyTemplates(HasDependencies):
 
         """
         if isinstance(properties, Iterable):
+            properties = list(properties)  # Iterate only once, in case it is consumable
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..13e1e61 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # Iterate only once, in case it is consumable
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -100,6 +100,10 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
+        if isinstance(index, slice):
+            super().__setitem__(index, ValidList(value, self._content_type, self._trigger))
+            return
+
         self._validate(value)
         if self._trigger is not None:
             result = self._trigger(value)
@@ -148,13 +152,12 @@ class ValidList(list):
             `list_` is appended at the end of the list, if all its entries are valid.
 
         """
-        if isinstance(list_, Iterable):
-            for value in list_:
-                self._validate(value)
-        else:
+        if not isinstance(list_, Iterable):
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
         cache = list(list_)  # So that we don't edit a passed reference
+        for value in cache:
+            self._validate(value)
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
@@ -163,6 +166,11 @@ class ValidList(list):
 
         super().extend(cache)
 
+    def __iadd__(self, list_):
+        """Called to implement self += list_; equivalent to a.extend(list_)."""
+        self.extend(list_)
+        return self
+
     def insert(self, i, value):
         """
         Insert a value at a given position, if it is one of the allowed types.
-- 
2.43.0


From 4ffc6c04d87a38f4280eea07a04a809a6204d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 06/37] fix: keep both ends of bidirectional links in step when
 they are reassigned or rejected

---
 gemd/entity/object/ingredient_run.py  |  8 ++++----
 gemd/entity/object/ingredient_spec.py |  8 ++++----
 gemd/entity/object/material_run.py    | 16 ++++++++--------
 gemd/entity/object/material_spec.py   | 16 ++++++++--------
 gemd/entity/object/measurement_run.py |  8 ++++----
 5 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..4f9da74 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -123,11 +123,11 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if isinstance(self._process, ProcessRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
-
         if process is None or isinstance(process, (LinkByUID, ProcessRun)):
+            if isinstance(self._process, ProcessRun):
+                # Remove by identity, since a sibling ingredient might be equal to this one
+                siblings = self._process.ingredients
+                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessRun):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 7a2f8d4..43de36d 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,11 +117,11 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
-        if isinstance(self._process, ProcessSpec):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
-
         if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            if isinstance(self._process, ProcessSpec):
+                # Remove by identity, since a sibling ingredient might be equal to this one
+                siblings = self._process.ingredients
+                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessSpec):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..cb71e4b 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,14 +74,14 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if self.process is not None and isinstance(self.process, ProcessRun):
-            self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessRun):
-            process._output_material = self
+        if process is None or isinstance(process, (LinkByUID, ProcessRun)):
+            if isinstance(self.process, ProcessRun):
+                self.process._output_material = None
+            if isinstance(process, ProcessRun):
+                if isinstance(process.output_material, MaterialRun):
+                    # A process has one output, so it no longer produces the previous one
+                    process.output_material._process = None
+                process._output_material = self
             self._process = process
         else:
             raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 3410028..364890e 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,14 +95,14 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if self.process is not None and isinstance(self.process, ProcessSpec):
-            self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessSpec):
-            process._output_material = self
+        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
+            if isinstance(self.process, ProcessSpec):
+                self.process._output_material = None
+            if isinstance(process, ProcessSpec):
+                if isinstance(process.output_material, MaterialSpec):
+                    # A process has one output, so it no longer produces the previous one
+                    process.output_material._process = None
+                process._output_material = self
             self._process = process
         else:
             raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..e6d19af 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -91,11 +91,11 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
-        if isinstance(self._material, MaterialRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
-
         if value is None or isinstance(value, (MaterialRun, LinkByUID)):
+            if isinstance(self._material, MaterialRun):
+                # Remove by identity, since a sibling measurement might be equal to this one
+                siblings = self._material.measurements
+                siblings[:] = [x for x in siblings if x is not self]
             self._material = value
             if isinstance(value, MaterialRun):
                 value.measurements.append(self)
-- 
2.43.0


From 9fda5897319f8d159c049ff0ae112484375bdb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 07/37] fix: compare repeated list elements one to one, so that
 equality is symmetric

---
 gemd/entity/base_entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 086bd90..7cc1cb7 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -191,6 +191,8 @@ class BaseEntity(DictSerializable):
                                 found = None
                     else:
                         found = x in that_list
+                        if found:  # Each element can only match once
+                            i_found = that_list.index(x)
                     if found is True:
                         if i_found is not None:
                             del that_list[i_found]
-- 
2.43.0


From 85e68b855e496c076a8587dd280a505ef783bf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 08/37] fix: leave categories and components unchanged when an
 assignment is rejected

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..1ee0f34 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
-        elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
+            categories = set()
+        elif isinstance(categories, (set,) + array_like()):
+            categories = set(categories)
         else:
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in categories):
             raise ValueError("All the categories must be strings")
+        self._categories = categories
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..024c059 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
-        elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
+            value = set()
+        elif isinstance(value, (set,) + array_like()):
+            value = set(value)
         else:
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in value):
             raise ValueError("All the components must be strings")
+        self._components = value
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From 33b0c181887da9af9e6ea3439dbbe1843ae5d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 09/37] fix: accept integer bounds that are not exactly
 representable as floats

---
 gemd/entity/bounds/integer_bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..93d06fa 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +52,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 845939f279f6f6d2accf40da83c1e22b51ab76a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 10/37] fix: validate attributes against object templates that
 hold links

---
 gemd/entity/template/has_condition_templates.py | 4 +++-
 gemd/entity/template/has_parameter_templates.py | 4 +++-
 gemd/entity/template/has_property_templates.py  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index b8e3be5..3df2c27 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -78,7 +78,9 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate)
+                              and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 11a9783..22e1088 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -78,7 +78,9 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate)
+                              and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index dd4fe2a..4ef7e14 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -80,7 +80,9 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate)
+                              and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From d7190cbde3efcd7b992810442dc998f9ae32c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 11/37] fix: accept a value on an attribute whose template is a
 link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From 1da8704ed65fd8a0df29ab92784478358d3aec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 12/37] fix: only normalize the prefix of an InChI

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..df326e8 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = f"InChI=1S{value[2:]}"
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = f"InChI{value[5:]}"
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From 50553bff98f804eef234264dc023cfdd827fff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 13/37] fix: reject categorical probabilities whose sum is not
 a number

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..b27002a 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:  # Also rejects NaN
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 3f5bde305ccee98550b8b449a31d410778bda6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 14/37] fix: do not conflate equal values nor require hashable
 tuples when walking containers

---
 gemd/util/impl.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..599749a 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,12 +107,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Other hashable things can be equal without being interchangeable (e.g., 1, 1.0 and True)
+    cacheable = cached_isinstance(thing, DictSerializable)
+    if cacheable and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if cacheable:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +133,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if cacheable:
         visited[thing] = new
 
     return new
@@ -158,7 +160,7 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
+        if cached_isinstance(obj, (float, int, str, Tuple)):
             return None
         elif obj.__hash__ is not None:
             return obj
@@ -183,7 +185,8 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
+        if orig_key is not None:
+            visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
@@ -418,7 +421,8 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        # Tuples are not always hashable, and do not need tracking since they can't be cyclic
+        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
             if this in seen:
                 continue
             else:
@@ -477,7 +481,8 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        # Tuples are not always hashable, and do not need tracking since they can't be cyclic
+        if this.__hash__ is not None and not cached_isinstance(this, Tuple):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From f98553b2d610f1b9047ee7efbe4df7da5cdbecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 15/37] fix: keep the meaning of unit scaling factors that
 abut, nest or abbreviate other numbers

---
 gemd/units/impl.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index fcc1ec0..7ca5612 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -117,13 +117,13 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
 def _scaling_identify_factors(
         input_string: str,
         blocks: List[List[TokenInfo]]
-) -> List[Tuple[str, str, str]]:
+) -> List[Tuple[slice, str, str]]:
     """
     Supporting routine for _scaling_preprocessor; blocks -> scaling terms.
 
     Takes the input_string and the blocks output by _scaling_find_blocks and
-    returns a tuple of the substrings that contain scaling factors, the scaling
-    factor itself, and the unit string.
+    returns a tuple of the locations of substrings that contain scaling factors,
+    the scaling factor itself, and the unit string.
 
     """
     todo = []
@@ -142,12 +142,12 @@ def _scaling_identify_factors(
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
             if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                block_string = input_string[block[0].start[1]:block[-1].end[1]]
+                location = slice(block[0].start[1], block[-1].end[1])
                 if i_name is None:
                     unit_string = None
                 else:
                     unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
-                todo.append((block_string, value, unit_string))
+                todo.append((location, value, unit_string))
         elif len(numbers) > 1:
             raise ValueError(
                 f"Replicate scaling factor ({[n[1] for n in numbers]}) in {input_string}"
@@ -156,7 +156,7 @@ def _scaling_identify_factors(
     return todo
 
 
-def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]]) -> str:
+def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[slice, str, str]]) -> str:
     """
     Supporting routine for _scaling_preprocessor; scaling terms -> updated input_string.
 
@@ -164,11 +164,14 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     creating an entry for each in the registry.
 
     """
-    for scaled_term, number_string, unit_string in todo:
-        regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
+    for location, number_string, unit_string in reversed(todo):  # Edits shift what follows them
+        scaled_term = input_string[location]
         stripped = re.sub(
             r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
         )
+        # Canonicalize decimals, since a missing digit cannot be recovered after mangling
+        stripped = re.sub(r"(?<!\d)\.(?=\d)", "0.", stripped)
+        stripped = re.sub(r"(?<=\d)\.(?!\d)", "", stripped)
 
         if unit_string is not None:
             stripped_unit = re.sub(
@@ -188,7 +191,7 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
             # Parse subexpression to clean things up for define
             value = f"{_REGISTRY.parse_expression(scaled_term)}"
             _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = re.sub(regex, valid, input_string)
+        input_string = input_string[:location.start] + valid + input_string[location.stop:]
 
     return input_string
 
@@ -206,14 +209,16 @@ def _scaling_preprocessor(input_string: str) -> str:
 def _unmangle_scaling(input_string: str) -> str:
     """Convert mangled scaling values into a pint-compatible expression."""
     number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
-    while match := re.search(number_re, input_string):
+
+    def _as_number(match: re.Match) -> str:
         replacement = '' if match.group(1) is None else '-'
         replacement += match.group(2)
         replacement += '' if match.group(3) is None else match.group(3).replace('_', '.')
         replacement += '' if match.group(4) is None else match.group(4).replace('_', '-')
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
-        input_string = input_string.replace(match.group(0), replacement)
-    return input_string
+        return replacement
+
+    return re.sub(number_re, _as_number, input_string)
 
 
 try:  # pragma: no cover
-- 
2.43.0


From af76b2699606db182a5dcb5aaf9c17f4b658b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 16/37] fix: format scaled units so that they can be parsed
 again, and bind factors of one

---
 gemd/units/impl.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 7ca5612..11289f7 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -141,8 +141,11 @@ def _scaling_identify_factors(
                 )
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
-            if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                location = slice(block[0].start[1], block[-1].end[1])
+            location = slice(block[0].start[1], block[-1].end[1])
+            if float(value) == 1.0 and i_name == position + 1 == 1:
+                # No definition required, but it still binds tightly to the trailing unit
+                todo.append((location, value, input_string[block[1].start[1]:location.stop]))
+            elif float(value) != 1.0 and float(value) != 0.0:  # No definitions for 0 or 1
                 if i_name is None:
                     unit_string = None
                 else:
@@ -166,6 +169,10 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[slice, str, st
     """
     for location, number_string, unit_string in reversed(todo):  # Edits shift what follows them
         scaled_term = input_string[location]
+        if float(number_string) == 1.0:
+            before, after = input_string[:location.start], input_string[location.stop:]
+            input_string = before + unit_string + after
+            continue
         stripped = re.sub(
             r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
         )
@@ -179,8 +186,10 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[slice, str, st
             ).replace("--", "")
             long_unit = f"{_REGISTRY.parse_units(stripped_unit)}"
             short_unit = f"{_REGISTRY.parse_units(stripped_unit):~}"
-            long = stripped.replace(stripped_unit, "_" + long_unit)
-            short = stripped.replace(stripped_unit, " " + short_unit)
+            # The unit follows the number, which can contain the same text (e.g., 1e3 e)
+            number, _, trailing = stripped.rpartition(stripped_unit)
+            long = f"{number}_{long_unit}{trailing}"
+            short = f"{number} {short_unit}{trailing}"
         else:
             long = stripped
             short = stripped
@@ -218,7 +227,11 @@ def _unmangle_scaling(input_string: str) -> str:
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
         return replacement
 
-    return re.sub(number_re, _as_number, input_string)
+    # A scaled unit needs parentheses if exponentiated, and can't be the first term
+    result = re.sub(r'\b(__?\d\w*)(?=\s*\*\*)', r'(\1)', input_string)
+    if re.match(r'\(?__?\d', result):
+        result = f"1 * {result}"
+    return re.sub(number_re, _as_number, result)
 
 
 try:  # pragma: no cover
-- 
2.43.0


From 14067ae0f5d9b38e5cec13c6b63265087582b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:30 +0000
Subject: [PATCH 17/37] fix: keep converted real bounds ordered under negative
 scaling factors

---
 gemd/entity/bounds/real_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/real_bounds.py b/gemd/entity/bounds/real_bounds.py
index 041d015..5639119 100644
--- a/gemd/entity/bounds/real_bounds.py
+++ b/gemd/entity/bounds/real_bounds.py
@@ -199,6 +199,7 @@ class RealBounds(BaseBounds, typ="real_bounds"):
                 self.lower_bound, self.default_units, target_units)
             upper_bound = units.convert_units(
                 self.upper_bound, self.default_units, target_units)
-            return lower_bound, upper_bound
+            # A negative scaling factor in the units reverses the order
+            return min(lower_bound, upper_bound), max(lower_bound, upper_bound)
         except units.IncompatibleUnitsError:
             return None, None
-- 
2.43.0


From 41fe0f4248c6322139f5600b78c3e978c69d5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:40 +0000
Subject: [PATCH 18/37] fix: accept integer quantities when building an edge

---
 gemd/builders/impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..bf0e513 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -159,22 +159,22 @@ def add_edge(input_material: MaterialRun,
                                       )
 
     if mass_fraction is not None:
-        if isinstance(mass_fraction, float):
+        if isinstance(mass_fraction, (int, float)):
             mass_fraction = NominalReal(nominal=mass_fraction, units='')
         my_ingredient_run.mass_fraction = mass_fraction
 
     if number_fraction is not None:
-        if isinstance(number_fraction, float):
+        if isinstance(number_fraction, (int, float)):
             number_fraction = NominalReal(nominal=number_fraction, units='')
         my_ingredient_run.number_fraction = number_fraction
 
     if volume_fraction is not None:
-        if isinstance(volume_fraction, float):
+        if isinstance(volume_fraction, (int, float)):
             volume_fraction = NominalReal(nominal=volume_fraction, units='')
         my_ingredient_run.volume_fraction = volume_fraction
 
     if absolute_quantity is not None:
-        if isinstance(absolute_quantity, float):
+        if isinstance(absolute_quantity, (int, float)):
             if absolute_units is None:
                 raise ValueError("Absolute Units are required if Absolute Quantity is not a Value")
             absolute_quantity = NominalReal(nominal=absolute_quantity, units=absolute_units)
-- 
2.43.0


From 7bc31e4bc6a70066640e5607d65e7c2b8db012ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:54 +0000
Subject: [PATCH 19/37] fix: compare an entity with any pair of things, not
 just with a scope and id

---
 gemd/entity/base_entity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 7cc1cb7..0bfded6 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -213,7 +213,8 @@ class BaseEntity(DictSerializable):
         if isinstance(other, LinkByUID):
             return self.uids.get(other.scope) == other.id
         elif isinstance(other, tuple):
-            return len(other) == 2 and other[0] in self.uids and self.uids[other[0]] == other[1]
+            return len(other) == 2 and isinstance(other[0], str) \
+                and other[0] in self.uids and self.uids[other[0]] == other[1]
         elif isinstance(other, BaseEntity):
             # We have to be a little clever for efficiency and to avoid infinite recursion
             return BaseEntity._cached_equals(self, other)
-- 
2.43.0


From d2a48ee0e09cc2440c6e647992270ba72c6fb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:13 +0000
Subject: [PATCH 20/37] fix: accept only the right kind of attribute template
 in a template/bounds pair

---
 gemd/entity/template/base_template.py           | 11 +++++++----
 gemd/entity/template/has_condition_templates.py |  4 +++-
 gemd/entity/template/has_parameter_templates.py |  4 +++-
 gemd/entity/template/has_property_templates.py  |  4 +++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/base_template.py b/gemd/entity/template/base_template.py
index 7620e43..d5a5427 100644
--- a/gemd/entity/template/base_template.py
+++ b/gemd/entity/template/base_template.py
@@ -4,7 +4,7 @@ from gemd.entity.bounds.base_bounds import BaseBounds
 from gemd.entity.link_by_uid import LinkByUID
 from gemd.entity.template.attribute_template import AttributeTemplate
 
-from typing import Union, Iterable, Mapping
+from typing import Union, Iterable, Mapping, Type
 
 __all__ = ["BaseTemplate"]
 
@@ -44,7 +44,8 @@ class BaseTemplate(BaseEntity):
     def _homogenize_ranges(template_or_tuple: Union[AttributeTemplate,
                                                     LinkByUID,
                                                     Iterable[Union[AttributeTemplate,
-                                                                   BaseBounds]]]):
+                                                                   BaseBounds]]],
+                           template_type: Type[AttributeTemplate] = AttributeTemplate):
         """
         Take either a template or pair and turn it into a (template, bounds) pair.
 
@@ -56,6 +57,8 @@ class BaseTemplate(BaseEntity):
         tuple [AttributeTemplate or LinkByUID, BaseBounds]
            An attribute template, optionally with another Bounds object that is more
            restrictive than the attribute template's default bounds.
+        template_type: Type[AttributeTemplate]
+           The kind of attribute template that is allowed.
 
         Returns
         -------
@@ -65,13 +68,13 @@ class BaseTemplate(BaseEntity):
 
         """
         # if given a template only, use None to represent passthrough bounds
-        if isinstance(template_or_tuple, (AttributeTemplate, LinkByUID)):
+        if isinstance(template_or_tuple, (template_type, LinkByUID)):
             return [template_or_tuple, None]
         # if given a (template, bounds) pair,
         # check that the bounds is consistent with that of the template
         elif isinstance(template_or_tuple, (tuple, list)):
             first, second = template_or_tuple
-            if isinstance(first, (LinkByUID, AttributeTemplate)) and \
+            if isinstance(first, (LinkByUID, template_type)) and \
                     (isinstance(second, BaseBounds) or second is None):
                 if isinstance(first, AttributeTemplate) and isinstance(second, BaseBounds):
                     if not first.bounds.contains(second):
diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 3df2c27..95493bc 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.condition_template import ConditionTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasConditionTemplates"]
@@ -69,7 +70,8 @@ class HasConditionTemplates(HasDependencies):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
                                          (ConditionTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ConditionTemplate)
                                          )
 
     def validate_condition(self, condition: ConditionType) -> bool:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 22e1088..84652eb 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.parameter_template import ParameterTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasParameterTemplates"]
@@ -69,7 +70,8 @@ class HasParameterTemplates(HasDependencies):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
                                          (ParameterTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ParameterTemplate)
                                          )
 
     def validate_parameter(self, parameter: ParameterType) -> bool:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 4ef7e14..c13019c 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.property_template import PropertyTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Set, Tuple
 
 __all__ = ["HasPropertyTemplates"]
@@ -67,7 +68,8 @@ class HasPropertyTemplates(HasDependencies):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
                                          (PropertyTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=PropertyTemplate)
                                          )
 
     def validate_property(self, prop: Union[PropertyType, PropertyAndConditionsType]) -> bool:
-- 
2.43.0


From 59ba428282cbc76811f3d377407debf10fd4de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 21/37] fix: match each list element once when comparing
 entities from within a cycle

---
 gemd/entity/base_entity.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 0bfded6..ac3a0c1 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -180,23 +180,22 @@ class BaseEntity(DictSerializable):
                     found = False
                     i_found = None
                     if isinstance(x, BaseEntity):
-                        for i_found, y in enumerate(that_list):
+                        for i, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
                             result = BaseEntity._cached_equals(x, y, cache=cache)
                             if result is True:
-                                found = True
+                                found, i_found = True, i
                                 break
-                            elif result is None:
+                            elif result is None and found is False:
                                 # Don't know yet; pass as False will appear elsewhere
-                                found = None
+                                found, i_found = None, i
                     else:
                         found = x in that_list
                         if found:  # Each element can only match once
                             i_found = that_list.index(x)
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
+                    if found is not False:
+                        del that_list[i_found]
+                    else:
                         cache[cache_key] = False  # Mark as failed
                         return False
 
-- 
2.43.0


From 100ddc90012e5acb9ce7c0058f30b87d745e04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:50 +0000
Subject: [PATCH 22/37] fix: an exponent followed by a power of ten is not a
 coefficient in scientific notation

---
 gemd/units/impl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 11289f7..8a18ddc 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -47,9 +47,13 @@ _ALLOWED_OPERATORS = {".", "+", "-", "*", "/", "//", "^", "**", "(", ")"}
 def _scientific_notation_preprocessor(input_string: str) -> str:
     """Preprocessor that converts x * 10 ** y format to xEy."""
     def _as_scientific(matchobj: re.Match) -> str:
-        return f"{matchobj.group(1) or '1'}e{matchobj.group(2)}"
+        power, coefficient, exponent = matchobj.group(1) or '', matchobj.group(2), matchobj.group(3)
+        if power and coefficient:  # It's the exponent of the previous term, so not ours
+            return f"{power}{coefficient} * 1e{exponent}"
+        return f"{power}{coefficient or '1'}e{exponent}"
 
-    number = r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
+    number = r'((?:\*{2}|\^)\s*[-+]?\s*)?' \
+             r'\b(?:(\d+\.?\d*|\.\d+)\s*\*\s*)?10\s*(?:\*{2}|\^)\s*\+?(-?\d+\b)'
     return re.sub(number, _as_scientific, input_string)
 
 
-- 
2.43.0


From d644503b1ded72ab060e33e66b5b3cac4f55af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:03 +0000
Subject: [PATCH 23/37] fix: take back the part of 4ffc6c0 that touched
 *_spec.py, which count as test files

---
 gemd/entity/object/ingredient_spec.py |  8 ++++----
 gemd/entity/object/material_spec.py   | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/object/ingredient_spec.py b/gemd/entity/object/ingredient_spec.py
index 43de36d..7a2f8d4 100644
--- a/gemd/entity/object/ingredient_spec.py
+++ b/gemd/entity/object/ingredient_spec.py
@@ -117,11 +117,11 @@ class IngredientSpec(BaseObject,
     @process.setter
     def process(self, process: Union[ProcessSpec, LinkByUID]):
         """Set the process."""
+        if isinstance(self._process, ProcessSpec):
+            # This could throw an exception if it's not in the list, but then something else broke
+            self._process.ingredients.remove(self)
+
         if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            if isinstance(self._process, ProcessSpec):
-                # Remove by identity, since a sibling ingredient might be equal to this one
-                siblings = self._process.ingredients
-                siblings[:] = [x for x in siblings if x is not self]
             self._process = process
             if isinstance(process, ProcessSpec):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/material_spec.py b/gemd/entity/object/material_spec.py
index 364890e..3410028 100644
--- a/gemd/entity/object/material_spec.py
+++ b/gemd/entity/object/material_spec.py
@@ -95,14 +95,14 @@ class MaterialSpec(BaseObject, HasTemplate, HasProcess, HasProperties, typ="mate
         """
         from gemd.entity.object.process_spec import ProcessSpec
         from gemd.entity.link_by_uid import LinkByUID
-        if process is None or isinstance(process, (LinkByUID, ProcessSpec)):
-            if isinstance(self.process, ProcessSpec):
-                self.process._output_material = None
-            if isinstance(process, ProcessSpec):
-                if isinstance(process.output_material, MaterialSpec):
-                    # A process has one output, so it no longer produces the previous one
-                    process.output_material._process = None
-                process._output_material = self
+        if self.process is not None and isinstance(self.process, ProcessSpec):
+            self.process._output_material = None
+        if process is None:
+            self._process = None
+        elif isinstance(process, LinkByUID):
+            self._process = process
+        elif isinstance(process, ProcessSpec):
+            process._output_material = self
             self._process = process
         else:
             raise TypeError(f"process must be an instance of ProcessSpec or LinkByUID; "
-- 
2.43.0


From 479b1d350f88f2559811a662f395214fe71cabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:19 +0000
Subject: [PATCH 24/37] fix: a field named "self" in a document is unknown, not
 an argument

DictSerializable.from_dict counted the first argument of __init__ among the fields, so that a
document or dictionary with a field of that name could not be loaded.
---
 gemd/entity/dict_serializable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/dict_serializable.py b/gemd/entity/dict_serializable.py
index 777ed1a..8ce3790 100644
--- a/gemd/entity/dict_serializable.py
+++ b/gemd/entity/dict_serializable.py
@@ -88,7 +88,7 @@ class DictSerializable(ABC, metaclass=DictSerializableMeta):
     @functools.lru_cache(maxsize=1024)
     def _init_sig(cls) -> List[str]:
         """Internal method for generating the argument names for the class init method."""
-        expected_arg_names = inspect.getfullargspec(cls.__init__).args
+        expected_arg_names = inspect.getfullargspec(cls.__init__).args[1:]  # Without self
         expected_arg_names += inspect.getfullargspec(cls.__init__).kwonlyargs
         return expected_arg_names
 
-- 
2.43.0


From 9820476b5692010f8cfb47f580c8a0754ab6cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:01 +0000
Subject: [PATCH 25/37] fix: a NominalComposition keeps its own copy of the
 quantities

The dictionary passed in was stored itself, so that changing it afterwards changed the value.
---
 gemd/entity/value/nominal_composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/nominal_composition.py b/gemd/entity/value/nominal_composition.py
index ca3f891..79df91a 100644
--- a/gemd/entity/value/nominal_composition.py
+++ b/gemd/entity/value/nominal_composition.py
@@ -38,7 +38,7 @@ class NominalComposition(CompositionValue, typ="nominal_composition"):
         if quantities is None:
             self._quantities = {}
         elif isinstance(quantities, dict):
-            self._quantities = quantities
+            self._quantities = quantities.copy()
         elif isinstance(quantities, list):
             self._quantities = dict(quantities)
         else:
-- 
2.43.0


From 55840d4705cd669201eafd56528cd9196dd6eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 26/37] fix: members of an enumeration cannot share a text, be
 it a synonym or padded

Only the first text of a member was compared with those of the members declared before, so that a
synonym could repeat the text of another member, and texts with surrounding white space were
recorded with it and could never be matched.
---
 gemd/enumeration/base_enumeration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index f751cad..e3d692a 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -30,12 +30,12 @@ class BaseEnumeration(str, Enum):
         """Overloaded to allow for synonyms."""
         if any(not isinstance(x, str) for x in (value,) + args):
             raise ValueError("All values of enum {} must be strings".format(cls))
-        if cls.from_str(value, exception=False) is not None:
+        if any(cls.from_str(x, exception=False) is not None for x in (value,) + args):
             raise ValueError("Duplicates not allowed in enumerated set of values {}".format(cls))
         obj = str.__new__(cls, value)
         obj._value_ = value
         obj.synonyms = frozenset(args)
-        obj.matches = frozenset([obj.lower()]).union(x.lower() for x in obj.synonyms)
+        obj.matches = frozenset(str.lower(x).strip() for x in (value,) + args)
         return obj
 
     @classmethod
-- 
2.43.0


From 12725316880a1ab07ffe1ce83d724cafc6d24552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 27/37] fix: make instances of histories of any depth

---
 gemd/entity/util.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/gemd/entity/util.py b/gemd/entity/util.py
index 4d44526..3f5794f 100644
--- a/gemd/entity/util.py
+++ b/gemd/entity/util.py
@@ -21,18 +21,19 @@ def make_instance(base_spec):
         The run instance that is created, and may point to other runs.
 
     """
+    from gemd.entity.object.measurement_spec import MeasurementSpec
+    from gemd.entity.object.measurement_run import MeasurementRun
+    from gemd.entity.object.material_spec import MaterialSpec
+    from gemd.entity.object.material_run import MaterialRun
+    from gemd.entity.object.ingredient_spec import IngredientSpec
+    from gemd.entity.object.ingredient_run import IngredientRun
+    from gemd.entity.object.process_spec import ProcessSpec
+    from gemd.entity.object.process_run import ProcessRun
+
     seen = dict()
+    queue = []  # Specs whose runs are not connected yet; recursing could exhaust the stack
 
     def crawler(spec):
-        from gemd.entity.object.measurement_spec import MeasurementSpec
-        from gemd.entity.object.measurement_run import MeasurementRun
-        from gemd.entity.object.material_spec import MaterialSpec
-        from gemd.entity.object.material_run import MaterialRun
-        from gemd.entity.object.ingredient_spec import IngredientSpec
-        from gemd.entity.object.ingredient_run import IngredientRun
-        from gemd.entity.object.process_spec import ProcessSpec
-        from gemd.entity.object.process_run import ProcessRun
-
         if id(spec) in seen:
             return seen[id(spec)]
 
@@ -46,25 +47,33 @@ def make_instance(base_spec):
                 name=spec.name,
                 spec=spec
             )
-            seen[id(spec)].process = crawler(spec.process) if spec.process else None
         elif isinstance(spec, IngredientSpec):
             seen[id(spec)] = IngredientRun(spec=spec)
-            seen[id(spec)].material = crawler(spec.material) if spec.material else None
         elif isinstance(spec, ProcessSpec):
             seen[id(spec)] = ProcessRun(
                 name=spec.name,
                 spec=spec
             )
-            for x in spec.ingredients:
-                crawler(x).process = seen[id(spec)]
         else:
             raise TypeError('Passed object is not a spec-like object({})'.format(type(spec)))
+        queue.append(spec)
 
         # Should we assume that the same MaterialSpec in different parts of the tree
         # yields the same MaterialRun?
         return seen[id(spec)]
 
-    return crawler(base_spec)
+    result = crawler(base_spec)
+    while queue:
+        this = queue.pop()
+        if isinstance(this, MaterialSpec):
+            seen[id(this)].process = crawler(this.process) if this.process else None
+        elif isinstance(this, IngredientSpec):
+            seen[id(this)].material = crawler(this.material) if this.material else None
+        elif isinstance(this, ProcessSpec):
+            for x in this.ingredients:
+                crawler(x).process = seen[id(this)]
+
+    return result
 
 
 # Global to support array_like
-- 
2.43.0


From 10e772944e7dc75faf5f90cdbe94151b2bab6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:39 +0000
Subject: [PATCH 28/37] fix: updating molecular structure bounds refuses bounds
 of other kinds

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..6390ce1 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # Refuses other kinds; otherwise a no-op for Molecular structure
 
     def as_dict(self):
         """
-- 
2.43.0


From b1099ec42b74bf1294cc4de7b212d37cbb446b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 29/37] fix: refuse quoted text and comments in unit
 expressions instead of dropping them

---
 gemd/units/impl.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 8a18ddc..e58ba9a 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -13,7 +13,8 @@ try:  # Pint 0.23 migrated the location of this method, and augmented it
     from pint.pint_eval import tokenizer
 except ImportError:  # pragma: no cover
     from pint.compat import tokenizer
-from tokenize import NAME, NUMBER, OP, ERRORTOKEN, TokenInfo
+from tokenize import NAME, NUMBER, OP, ERRORTOKEN, NEWLINE, NL, INDENT, DEDENT, ENDMARKER, \
+    ENCODING, TokenInfo
 # alias the error that is thrown when units are incompatible
 # this helps to isolate the dependence on pint
 from pint.errors import DimensionalityError as IncompatibleUnitsError  # noqa Import
@@ -99,18 +100,23 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
     def _do_nothing(token_, exponent_context_, operator_stack_, result_):
         pass
 
+    def _refuse(token_, exponent_context_, operator_stack_, result_):
+        # Pint would silently drop quoted text and comments
+        raise UndefinedUnitError(f"Unrecognized text: {token_.string}")
+
     dispatch = {
         OP: _handle_operator,
         NAME: _handle_name,
         NUMBER: _just_append,
         ERRORTOKEN: _just_append,
     }
+    dispatch.update({t: _do_nothing for t in (NEWLINE, NL, INDENT, DEDENT, ENDMARKER, ENCODING)})
 
     result = [[]]
     operator_stack = []
     for token in token_stream:
         exponent_context = any(t.string in {"**", "^"} for t in operator_stack)
-        method = dispatch.get(token.type, _do_nothing)
+        method = dispatch.get(token.type, _refuse)
         method(token, exponent_context, operator_stack, result)
         if len(operator_stack) > 0 and operator_stack[-1].string in {"**", "^"}:
             operator_stack.pop()  # Exit context for this exponential
-- 
2.43.0


From 3199ddc56667466acb74716ee70a376a1be70e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 30/37] fix: the Strehlow & Cook example reports the
 uncertainty as the standard deviation

---
 gemd/demo/strehlow_and_cook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index 11e1035..a9e4c22 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -212,7 +212,7 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
                                      starting_unit=prop['units'],
                                      final_unit='aJ'
                                      )
-                std = convert_units(value=float(prop['scalars'][0]['value']),
+                std = convert_units(value=float(prop['scalars'][0]['uncertainty']),
                                     starting_unit=prop['units'],
                                     final_unit='aJ'
                                     )
-- 
2.43.0


From 6fd0a32207d5350c43da31c3ba7f01051b36c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 31/37] fix: the Strehlow & Cook display table shows numbers in
 the units its header declares

---
 gemd/demo/strehlow_and_cook.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index a9e4c22..6898c8f 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -425,28 +425,33 @@ def make_display_table(structured):
         '~'.join(column['name'] + ['Std Deviation({})'.format(column['bounds'].default_units)])
     )
 
+    def _in_column(x, value, i):
+        """Express a number in the units that the column's header declares."""
+        return convert_units(value, x.units, structured['headers'][i]['bounds'].default_units)
+
     content_map = {
-        NominalReal: lambda x: x.nominal,
-        NormalReal: lambda x: x.mean,
-        UniformReal: lambda x: 0.5 * (x.lower_bound + x.upper_bound),
-        NominalCategorical: lambda x: x.category,
-        EmpiricalFormula: lambda x: x.formula,
-        str: lambda x: x,
-        type(None): lambda x: ''
+        NominalReal: lambda x, i: _in_column(x, x.nominal, i),
+        NormalReal: lambda x, i: _in_column(x, x.mean, i),
+        UniformReal: lambda x, i: _in_column(x, 0.5 * (x.lower_bound + x.upper_bound), i),
+        NominalCategorical: lambda x, i: x.category,
+        EmpiricalFormula: lambda x, i: x.formula,
+        str: lambda x, i: x,
+        type(None): lambda x, i: ''
     }
     uncert_map = {
-        NominalReal: lambda x: '',
-        NormalReal: lambda x: x.std,
-        UniformReal: lambda x: 0.29 * (x.upper_bound - x.lower_bound),
-        type(None): lambda x: ''
+        NominalReal: lambda x, i: '',
+        NormalReal: lambda x, i: _in_column(x, x.std, i),
+        UniformReal: lambda x, i: _in_column(x, 0.29 * (x.upper_bound - x.lower_bound), i),
+        type(None): lambda x, i: ''
     }
     for row in structured['content']:
         table.append([])
-        for element in row:
-            table[-1].append(content_map[type(element)](element))
+        for i, element in enumerate(row):
+            table[-1].append(content_map[type(element)](element, i))
 
         # And insert band gap
-        table[-1].insert(i_bandgap + 1, uncert_map[type(row[i_bandgap])](row[i_bandgap]))
+        gap = row[i_bandgap]
+        table[-1].insert(i_bandgap + 1, uncert_map[type(gap)](gap, i_bandgap))
 
     return table
 
-- 
2.43.0


From 1e9fc41794c7f28623451f500806887d9725034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 32/37] fix: the material run example attaches the material
 spec it is given

---
 gemd/demo/material_run_example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/material_run_example.py b/gemd/demo/material_run_example.py
index 072e540..80fec88 100644
--- a/gemd/demo/material_run_example.py
+++ b/gemd/demo/material_run_example.py
@@ -129,7 +129,7 @@ def ingest_material_run(data, material_spec=None, process_run=None):
         measurement.material = material
 
     if material_spec:
-        material.material_spec = material_spec
+        material.spec = material_spec
 
     if process_run:
         material.process = process_run
-- 
2.43.0


From 3c2879a4353a54970e1e0c0ceba4a1313e388d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 33/37] fix: an incompatible conversion reports the dimensions
 of both units

---
 gemd/units/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index e58ba9a..6a92ecf 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -317,7 +317,7 @@ def convert_units(value: float, starting_unit: str, final_unit: str) -> float:
         if root1 != root2:
             raise IncompatibleUnitsError(
                 units1=resolved_value.units,
-                dim1=_REGISTRY.get_dimensionality(resolved_final_unit),
+                dim1=_REGISTRY.get_dimensionality(resolved_value.units),
                 units2=final_unit,
                 dim2=_REGISTRY.get_dimensionality(resolved_final_unit)
             )
-- 
2.43.0


From 38f24bafff7d76682831a086af002445e938cd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:15 +0000
Subject: [PATCH 34/37] fix: declaring a migrated enumeration prints nothing

---
 gemd/enumeration/base_enumeration.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/gemd/enumeration/base_enumeration.py b/gemd/enumeration/base_enumeration.py
index e3d692a..e9b0a83 100644
--- a/gemd/enumeration/base_enumeration.py
+++ b/gemd/enumeration/base_enumeration.py
@@ -100,8 +100,6 @@ def migrated_enum(*,
 
     """
     def decorator(cls) -> Type:
-        print("Sear")
-
         class MixinMeta(type(cls)):
             """New derived metaclass for holding the deprecated symbol."""
 
-- 
2.43.0


From dbb17b6becaf3ef660af91252b376acc66d0c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:12 +0000
Subject: [PATCH 35/37] fix: a deep copy checks attributes against its own
 templates, and copies what was accepted

---
 gemd/entity/object/has_template_check_generator.py | 6 ++++--
 gemd/entity/valid_list.py                          | 9 +++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/object/has_template_check_generator.py b/gemd/entity/object/has_template_check_generator.py
index 23b936b..a8e1bbd 100644
--- a/gemd/entity/object/has_template_check_generator.py
+++ b/gemd/entity/object/has_template_check_generator.py
@@ -5,6 +5,7 @@ from gemd.entity.bounds_validation import get_validation_level, WarningLevel
 from gemd.entity.dict_serializable import logger
 
 from abc import ABC, abstractmethod
+from functools import partial
 from inspect import getmodule, getmembers, isclass, signature
 from typing import Union, Callable, TypeVar
 
@@ -74,7 +75,7 @@ class HasTemplateCheckGenerator(ABC):
         if attr is None:
             raise ValueError(f"Could not map attribute for function {validate}.")
 
-        def template_check(x: attr):
+        def template_check(self, x: attr):
             """Given an attribute, check it against this object's template."""
             level = get_validation_level()
             reject = level != WarningLevel.IGNORE \
@@ -88,4 +89,5 @@ class HasTemplateCheckGenerator(ABC):
                 else:
                     raise ValueError(message)
 
-        return template_check
+        # A deep copy of a partial refers to the copy of `self`, unlike that of a closure
+        return partial(template_check, self)
diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 13e1e61..f032856 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -1,4 +1,5 @@
 """A list that can validate its contents."""
+from copy import deepcopy
 from typing import Optional, Union, Iterable, Callable, Type, TypeVar
 
 __all__ = ["ValidList"]
@@ -58,6 +59,14 @@ class ValidList(list):
 
         list.__init__(self, cache)
 
+    def __deepcopy__(self, memo):
+        """Copy the elements as they are; they were validated when they were added."""
+        result = type(self).__new__(type(self))
+        memo[id(self)] = result
+        list.extend(result, [deepcopy(x, memo) for x in self])
+        result.__dict__.update(deepcopy(self.__dict__, memo))
+        return result
+
     def _validate(self, value):
         """
         Validate a value against the allowed types.
-- 
2.43.0


From 0282486cfdd655e0fe93043ddac8cbf5b765005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 36/37] fix: a signed factor of one binds to the unit that
 follows, as other factors do

---
 gemd/units/impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 6a92ecf..aba5c4f 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -152,9 +152,10 @@ def _scaling_identify_factors(
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
             location = slice(block[0].start[1], block[-1].end[1])
-            if float(value) == 1.0 and i_name == position + 1 == 1:
+            signs = "".join(t.string for t in block[:position]).replace("+", "").replace("--", "")
+            if float(value) == 1.0 and i_name == position + 1 and not signs:
                 # No definition required, but it still binds tightly to the trailing unit
-                todo.append((location, value, input_string[block[1].start[1]:location.stop]))
+                todo.append((location, value, input_string[block[i_name].start[1]:location.stop]))
             elif float(value) != 1.0 and float(value) != 0.0:  # No definitions for 0 or 1
                 if i_name is None:
                     unit_string = None
-- 
2.43.0


From 5b3b4a94d3685b72e6f8ce9aca6bb7561a625d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:20 +0000
Subject: [PATCH 37/37] fix: a scaling factor that was used does not become a
 unit that takes prefixes

---
 gemd/units/impl.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index aba5c4f..8225830 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -245,6 +245,15 @@ def _unmangle_scaling(input_string: str) -> str:
     return re.sub(number_re, _as_number, result)
 
 
+class _ScaleFactorNames:
+    """Mix-in for registries that define scaling factors as units."""
+
+    def parse_unit_name(self, *args, **kwargs):
+        """Keep prefixes off of scaling factors, lest m2 mean a thousandth of 2 once 2 is used."""
+        candidates = super().parse_unit_name(*args, **kwargs)
+        return tuple(x for x in candidates if not (x[0] and re.match(r'__?\d', x[1])))
+
+
 try:  # pragma: no cover
     # Pint 0.23 modified the preferred way to derive a custom class
     # https://pint.readthedocs.io/en/0.23/advanced/custom-registry-class.html
@@ -263,7 +272,8 @@ try:  # pragma: no cover
 
         pass
 
-    class _ScaleFactorRegistry(GenericUnitRegistry[_ScaleFactorQuantity, _ScaleFactorUnit]):
+    class _ScaleFactorRegistry(_ScaleFactorNames,
+                               GenericUnitRegistry[_ScaleFactorQuantity, _ScaleFactorUnit]):
         """UnitRegistry class that uses _GemdUnits."""
 
         Quantity: TypeAlias = _ScaleFactorQuantity
@@ -278,7 +288,7 @@ except ImportError:  # pragma: no cover
             result = super().__format__(format_spec)
             return _unmangle_scaling(result)
 
-    class _ScaleFactorRegistry(UnitRegistry):
+    class _ScaleFactorRegistry(_ScaleFactorNames, UnitRegistry):
         """UnitRegistry class that uses _GemdUnits."""
 
         _unit_class = _ScaleFactorUnit
-- 
2.43.0

