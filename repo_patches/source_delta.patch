From 9ac6d5aac8db8411dfe31a9cbe91628763f6695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:16 +0000
Subject: [PATCH 01/50] fix: combine_dims compares the dims of both
 specifications

The shared dims were computed from dims2 alone, so ['*', 'z'] and
['x', 'y'] were combined although no quantity satisfies both, and
['x', 'y', 'z'] could not be combined with ['*', 'z'] in that order.
---
 sympl/_core/combine_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..d866132 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -32,7 +32,7 @@ def combine_dims(dims1, dims2):
     dims2_wildcard = '*' in dims2
     dims2.discard('*')
     unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    shared_dims = set(dims1).intersection(dims2)
     if dims1_wildcard and dims2_wildcard:
         dims_out.insert(0, '*')  # either dim can match anything
         dims_out.extend(unmatched_dims)
@@ -42,12 +42,12 @@ def combine_dims(dims1, dims2):
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims1_wildcard:
-        if shared_dims != set(dims2):
+        if shared_dims != set(dims1):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims2_wildcard:
-        if shared_dims != set(dims1):
+        if shared_dims != set(dims2):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
-- 
2.43.0


From bacfea1ce6e1abe61fef1a3dd4211847602e9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:38 +0000
Subject: [PATCH 02/50] fix: ScalingWrapper does not modify the wrapped
 component's output in place

In-place scaling compounded on every call when the component returns
stored arrays (ConstantTendencyComponent) or a cached result
(UpdateFrequencyWrapper), and altered the caller's state when a component
returns one of its inputs.
---
 sympl/_core/wrappers.py | 48 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..b08dfbc 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -3,6 +3,17 @@ from .._core.base_components import (
 )
 
 
+def scale_quantities(quantities, scale_factors):
+    """Returns a copy of the quantities dictionary in which each quantity with
+    a scale factor is replaced by a scaled copy. The given dictionary and
+    quantities may be owned by the wrapped component, and are not modified."""
+    return_dict = dict(quantities)
+    for name, scale_factor in scale_factors.items():
+        return_dict[name] = quantities[name]*float(scale_factor)
+        return_dict[name].attrs = dict(quantities[name].attrs)
+    return return_dict
+
+
 class ScalingWrapper(object):
     """
     Wraps any component and scales either inputs, outputs or tendencies
@@ -143,7 +154,7 @@ class ScalingWrapper(object):
             if input_field in self._input_scale_factors:
                 scale_factor = self._input_scale_factors[input_field]
                 scaled_state[input_field] = state[input_field]*float(scale_factor)
-                scaled_state[input_field].attrs = state[input_field].attrs
+                scaled_state[input_field].attrs = dict(state[input_field].attrs)
             else:
                 scaled_state[input_field] = state[input_field]
 
@@ -151,38 +162,31 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
-            for name in self._output_scale_factors.keys():
-                scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            new_state = scale_quantities(
+                new_state, self._output_scale_factors)
+            diagnostics = scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = scale_quantities(
+                tendencies, self._tendency_scale_factors)
+            diagnostics = scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
-            for tend_field in self._tendency_scale_factors.keys():
-                scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            tendencies = scale_quantities(
+                tendencies, self._tendency_scale_factors)
+            diagnostics = scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
             diagnostics = self._component(scaled_state)
-            for name in self._diagnostic_scale_factors.keys():
-                scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+            diagnostics = scale_quantities(
+                diagnostics, self._diagnostic_scale_factors)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From f83ea1a6e31633fbbcbdf61dbd79edc7ca3fe9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 03/50] fix: ScalingWrapper passes tracers on to the wrapped
 component

Only quantities in input_properties were passed to the wrapped component,
so scaling any component that uses tracers raised a KeyError.
---
 sympl/_core/wrappers.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index b08dfbc..d6d158a 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -146,17 +146,10 @@ class ScalingWrapper(object):
         *args
             The return values of the underlying component.
         """
-        scaled_state = {}
-        if 'time' in state:
-            scaled_state['time'] = state['time']
-
-        for input_field in self.input_properties.keys():
-            if input_field in self._input_scale_factors:
-                scale_factor = self._input_scale_factors[input_field]
-                scaled_state[input_field] = state[input_field]*float(scale_factor)
-                scaled_state[input_field].attrs = dict(state[input_field].attrs)
-            else:
-                scaled_state[input_field] = state[input_field]
+        scaled_state = dict(state)
+        for input_field, scale_factor in self._input_scale_factors.items():
+            scaled_state[input_field] = state[input_field]*float(scale_factor)
+            scaled_state[input_field].attrs = dict(state[input_field].attrs)
 
         if isinstance(self._component, Stepper):
             if timestep is None:
-- 
2.43.0


From bb8b922f9ee7b661f915c059d8e6c3f7a081e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:59 +0000
Subject: [PATCH 04/50] fix: accept outputs keyed by name or either alias when
 restoring DataArrays

The output checkers accept an output under its full name, its own alias or
the alias of the input, but restoring only looked at one of them and raised
a KeyError for the others.
---
 sympl/_core/restore_dataarray.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 33da61d..ec1d21e 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -15,14 +15,19 @@ def ensure_values_are_arrays(array_dict):
             array_dict[name] = np.asarray(value)
 
 
-def get_alias_or_name(name, output_properties, input_properties):
+def get_alias_or_name(name, output_properties, input_properties, raw_arrays):
+    """Returns the key used for the named quantity in raw_arrays, which may be
+    the alias in output_properties or input_properties or the name itself."""
+    raw_names = []
     if "alias" in output_properties[name].keys():
-        raw_name = output_properties[name]["alias"]
-    elif name in input_properties.keys() and "alias" in input_properties[name].keys():
-        raw_name = input_properties[name]["alias"]
-    else:
-        raw_name = name
-    return raw_name
+        raw_names.append(output_properties[name]["alias"])
+    if name in input_properties.keys() and "alias" in input_properties[name].keys():
+        raw_names.append(input_properties[name]["alias"])
+    raw_names.append(name)
+    for raw_name in raw_names:
+        if raw_name in raw_arrays.keys():
+            return raw_name
+    return raw_names[0]
 
 
 def check_array_shape(out_dims, raw_array, name, dim_lengths):
@@ -112,7 +117,9 @@ def restore_data_arrays_with_properties(
     for name, out_dims in dims_from_out_properties.items():
         if name in ignore_names:
             continue
-        raw_name = get_alias_or_name(name, output_properties, input_properties)
+        raw_name = get_alias_or_name(
+            name, output_properties, input_properties, raw_arrays
+        )
         if "*" in out_dims:
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
-- 
2.43.0


From c1478e2be53c8cb00f12c3a3fe06fc493b153426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 05/50] fix: tendencies_in_diagnostics does not alter other
 instances

The extra diagnostics (and for Stepper, inputs) were inserted into property
dictionaries which are usually class attributes, so that other instances of
the class were then required to compute them.
---
 sympl/_core/base_components.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..44614ec 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -26,6 +26,22 @@ def apply_scale_factors(array_state, scale_factors):
         array_state[key] *= factor
 
 
+def copy_class_property_dicts_to_instance(component, *attribute_names):
+    """
+    Gives the component its own copy of the given property dictionaries where
+    they are class attributes, so that entries can be added without affecting
+    other instances of the class.
+    """
+    for attribute_name in attribute_names:
+        if attribute_name not in component.__dict__:
+            try:
+                setattr(
+                    component, attribute_name,
+                    dict(getattr(component, attribute_name)))
+            except AttributeError:
+                pass  # read-only property, gives its own dictionary
+
+
 def is_component_class(cls):
     return any(issubclass(cls, cls2) for cls2 in (Stepper, TendencyComponent, ImplicitTendencyComponent, DiagnosticComponent))
 
@@ -517,6 +533,8 @@ class Stepper(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_class_property_dicts_to_instance(
+            self, 'input_properties', 'diagnostic_properties')
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
@@ -775,6 +793,7 @@ class TendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_class_property_dicts_to_instance(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
@@ -998,6 +1017,7 @@ class ImplicitTendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        copy_class_property_dicts_to_instance(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
-- 
2.43.0


From d95b6d260e0ac40e2f7b434437687c8300561492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 06/50] fix: Stepper tendencies_in_diagnostics works for
 quantities with an alias

The old and new values were looked up by full name only, which raised a
KeyError when the component declares an alias for the quantity.
---
 sympl/_core/base_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 44614ec..a70a1fd 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    get_alias_or_name, restore_data_arrays_with_properties)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -655,8 +656,11 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            old_name = self.input_properties[name].get('alias', name)
+            new_name = get_alias_or_name(
+                name, self.output_properties, self.input_properties, raw_new_state)
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (raw_new_state[new_name] - raw_state[old_name]) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From c6373a2c1836d0c3a23ac9ba30b8f33d762cf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 07/50] fix: Stepper declares tendency diagnostics in its time
 unit

The values are differences per time_unit_timedelta, but the units were always
per second, so a Stepper with a custom time unit returned wrong units.
---
 sympl/_core/base_components.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a70a1fd..8e78acc 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -538,10 +538,8 @@ class Stepper(object):
             self, 'input_properties', 'diagnostic_properties')
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
-            if properties['units'] == '':
-                units = 's^-1'
-            else:
-                units = '{} s^-1'.format(properties['units'])
+            units = '{} {}^-1'.format(
+                properties['units'], self.time_unit_name).strip()
             if 'dims' in properties.keys():
                 dims = properties['dims']
             else:
-- 
2.43.0


From c193f0753dd7b38ff0aa5f442d11008e8ef89ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 08/50] fix: TendencyStepper tendencies_in_diagnostics works
 for any units

The units strings of the input and the (base) units of the output were
required to be identical, so that for example a component with input units
degK or m could not be used.
---
 sympl/_core/tendencystepper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 65950c7..7eeb3d6 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -166,6 +166,11 @@ class TendencyStepper(Stepper):
     def tendencies_in_diagnostics(self):  # value cannot be modified
         return self._tendencies_in_diagnostics
 
+    def _insert_tendency_properties(self):
+        # diagnostic_properties already includes these, and the change of a
+        # quantity is computed in its input units regardless of output units
+        return [self._get_tendency_name(name) for name in self._tendency_properties]
+
     def _get_tendency_name(self, quantity_name):
         return '{}_tendency_from_{}'.format(quantity_name, self.name)
 
-- 
2.43.0


From 9891c983ce2dd16fcca1ee9abd9304fd8f32a517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 09/50] fix: prescribed and relaxation components declare their
 tendency diagnostics

With tendencies_in_diagnostics=True these returned the diagnostics but did not
list them in diagnostic_properties, which is computed by the class.
---
 sympl/_components/basic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..9d553b5 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -7,6 +7,17 @@ from .._core.base_components import (
 from .._core.units import unit_registry as ureg
 
 
+def get_tendency_diagnostic_properties(component):
+    """Returns the properties of the diagnostics that the given component
+    outputs because of tendencies_in_diagnostics, for components whose
+    diagnostic_properties cannot be added to."""
+    return_dict = {}
+    if component.tendencies_in_diagnostics:
+        for name, properties in component.tendency_properties.items():
+            return_dict["{}_tendency_from_{}".format(name, component.name)] = properties
+    return return_dict
+
+
 class ConstantTendencyComponent(TendencyComponent):
     """
     Prescribes constant tendencies provided at initialization.
@@ -78,6 +89,7 @@ class ConstantTendencyComponent(TendencyComponent):
                 "dims": data_array.dims,
                 "units": data_array.attrs["units"],
             }
+        return_dict.update(get_tendency_diagnostic_properties(self))
         return return_dict
 
     def __init__(self, tendencies, diagnostics=None, **kwargs):
@@ -291,7 +303,7 @@ class RelaxationTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return {}
+        return get_tendency_diagnostic_properties(self)
 
     def __init__(self, quantity_name, units, **kwargs):
         """
-- 
2.43.0


From d634adb9f303f111ddbdecd66aea34a0a2879655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 10/50] fix: get_constants_string works when condensible
 constants are undefined

After set_condensible_name to a substance for which not all constants have
been set, listing the constants raised a KeyError.
---
 sympl/_core/constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_core/constants.py b/sympl/_core/constants.py
index 15d2ae4..97214fc 100644
--- a/sympl/_core/constants.py
+++ b/sympl/_core/constants.py
@@ -10,10 +10,13 @@ class ConstantDict(dict):
     def _repr(self, sphinx=False):
         return_string = ''
         printed_names = set()
+        defined_names = set(self.keys())
         for category, name_list in constant_names_by_category.items():
             if len(name_list) > 0:
                 return_string += category.title() + '\n'
             for name in name_list:
+                if name not in defined_names:
+                    continue  # e.g. not set for the current condensible
                 printed_names.add(name)
                 units = self[name].attrs['units']
                 units = units.replace('dimensionless', '')
-- 
2.43.0


From 0ed397c69ad09bc13a7639bed259a76afc1ed65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 11/50] fix: datetime raises for an unknown calendar instead of
 returning None

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..87a14a8 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError('Unknown calendar {}'.format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From ede6bc80e7316ea6b75006c313c05542617a0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 12/50] fix: is_valid_unit returns False for malformed unit
 strings

Only undefined names were reported as invalid, while strings with a syntax
or other error such as 'm**', '(' or 'K s-1' raised various exceptions.
---
 sympl/_core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index d2977e8..32e9ad0 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -68,7 +68,7 @@ def is_valid_unit(unit_string):
         '°', 'degree')
     try:
         unit_registry(unit_string)
-    except pint.UndefinedUnitError:
+    except Exception:  # pint raises many types of exception on bad syntax
         return False
     else:
         return True
-- 
2.43.0


From 17958883c459042bcbc0512a1ac36713555e780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 13/50] fix: geographic degree units can be converted

degrees_north and degrees_east were defined in terms of the undefined units
degree_north and degree_east, so any conversion or compatibility check with
them raised UndefinedUnitError. Define them as degree, with the singular
names as aliases.
---
 sympl/_core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index 32e9ad0..c3d6954 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -14,8 +14,8 @@ class UnitRegistry(pint.UnitRegistry):
 
 
 unit_registry = UnitRegistry()
-unit_registry.define('degrees_north = degree_north = degree_N = degrees_N = degreeN = degreesN')
-unit_registry.define('degrees_east = degree_east = degree_E = degrees_E = degreeE = degreesE')
+unit_registry.define('degrees_north = degree = degree_N = degree_north = degrees_N = degreeN = degreesN')
+unit_registry.define('degrees_east = degree = degree_E = degree_east = degrees_E = degreeE = degreesE')
 unit_registry.define('percent = 0.01*count = %')
 
 
-- 
2.43.0


From f6033ec467b6bdfdfb432794f350408ffd3872d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:22 +0000
Subject: [PATCH 14/50] fix: reject wildcard outputs whose shape does not match
 their dims

An output with '*' in its dims was reshaped whenever its size was right, so
that for example a transposed array was silently scrambled.
---
 sympl/_core/restore_dataarray.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index ec1d21e..942155e 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -121,6 +121,18 @@ def restore_data_arrays_with_properties(
             name, output_properties, input_properties, raw_arrays
         )
         if "*" in out_dims:
+            if wildcard_names is None:
+                raise InvalidPropertyDictError(
+                    "Output {} has dims {}, but no input has a wildcard dim to "
+                    "determine its dimensions from".format(name, out_dims)
+                )
+            wildcard_length = int(np.prod([dim_lengths[n] for n in wildcard_names]))
+            check_array_shape(
+                out_dims,
+                raw_arrays[raw_name],
+                name,
+                dict(dim_lengths, **{"*": wildcard_length}),
+            )
             for dim_name, length in zip(out_dims, raw_arrays[raw_name].shape):
                 if dim_name not in dim_lengths and dim_name != "*":
                     dim_lengths[dim_name] = length
-- 
2.43.0


From 2390b517e0ffb3fa356859e5622f57ac2ab7c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 15/50] fix: integer and floating point tendencies can be added
 in composites

Adding in-place to an integer quantity raised UFuncTypeError, depending on the
order of the components.
---
 sympl/_core/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 2e3df85..d34864b 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -213,7 +213,9 @@ def update_dict_by_adding_another(dict1, dict2):
                         'quantity objects must have units property defined')
                 try:
                     dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                except ValueError:  # dict1[key] is missing a dimension present in dict2[key]
+                except (ValueError, TypeError):
+                    # dict1[key] is missing a dimension present in dict2[key],
+                    # or has a data type that cannot hold the result
                     dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
-- 
2.43.0


From a83c62bd1fb8645d08706325746875304715c07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:52 +0000
Subject: [PATCH 16/50] fix: register_tracer is idempotent and leaves no trace
 when refused

Registering a tracer twice listed its name twice, and a registration refused
by an existing component remained in the registry.
---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..32ee05f 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    if name not in _tracer_unit_dict:
+        _tracer_unit_dict[name] = units
+        _tracer_names.append(name)
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From 1fb0a24c2a1ded374c21392d3bce9209030759d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 17/50] fix: tracers given as prepend_tracers and registered
 are allocated once

The tracer array from initialize_numpy_arrays_with_properties had an extra
entry for each prepended tracer that is also registered.
---
 sympl/_core/init_np_arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..bb78fdb 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,8 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    tracer_names.extend(
+        entry[0] for entry in prepend_tracers if entry[0] not in tracer_names)
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From f1e9ebfee2db6bd0d140de2c1f9534205c12ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:02 +0000
Subject: [PATCH 18/50] fix: tracers are collocated with the other inputs of
 their component

Dimensions matched by a wildcard and lengths of missing dimensions were
determined from the tracers alone, so the tracer array could have a different
order or length along '*' than the component's other inputs.
---
 sympl/_core/get_np_arrays.py | 10 +++++++++-
 sympl/_core/tracers.py       | 18 ++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/get_np_arrays.py b/sympl/_core/get_np_arrays.py
index f494a32..f35564e 100644
--- a/sympl/_core/get_np_arrays.py
+++ b/sympl/_core/get_np_arrays.py
@@ -5,7 +5,13 @@ from .exceptions import InvalidStateError
 from .wildcard import flatten_wildcard_dims, get_wildcard_matches_and_dim_lengths
 
 
-def get_numpy_arrays_with_properties(state, property_dictionary):
+def get_numpy_arrays_with_properties(state, property_dictionary, out_names=None):
+    """
+    Returns a dictionary of numpy arrays for the quantities in
+    property_dictionary, or only those in out_names if it is given. All
+    quantities in property_dictionary are used to determine the dimensions
+    matched by wildcards and the lengths of missing dimensions.
+    """
     out_dict = {}
     backend = get_backend()
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
@@ -13,6 +19,8 @@ def get_numpy_arrays_with_properties(state, property_dictionary):
     )
     #  Now we actually retrieve output arrays since we know the precise out dims
     for name, properties in property_dictionary.items():
+        if out_names is not None and name not in out_names:
+            continue
         out_dims = []
         out_dims.extend(properties["dims"])
         has_wildcard = "*" in out_dims
diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index 32ee05f..6c73256 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -177,6 +177,17 @@ class TracerPacker(object):
     def _tracer_index(self):
         return self._tracer_dims.index('tracer')
 
+    def _get_collocated_properties(self, state, tracer_properties):
+        """Returns properties for the tracers and the other inputs of the
+        component, which together determine the dimensions of the tracers."""
+        return_dict = {}
+        for name, properties in self.component.input_properties.items():
+            if name in state:
+                return_dict[name] = {
+                    'dims': properties['dims'], 'units': properties['units']}
+        return_dict.update(tracer_properties)
+        return return_dict
+
     def pack(self, state):
         """
 
@@ -190,7 +201,9 @@ class TracerPacker(object):
         """
         tracer_properties = get_tracer_input_properties(
             self._prepend_tracers, self._tracer_quantity_dims)
-        raw_state = get_numpy_arrays_with_properties(state, tracer_properties)
+        raw_state = get_numpy_arrays_with_properties(
+            state, self._get_collocated_properties(state, tracer_properties),
+            out_names=tracer_properties.keys())
         if len(self.tracer_names) == 0:
             shape = [0 for dim in self._tracer_dims]
         else:
@@ -235,5 +248,6 @@ class TracerPacker(object):
                 out_properties[name]['units'] = '{} {}'.format(
                     out_properties[name]['units'], multiply_unit)
         return_state = restore_data_arrays_with_properties(
-            raw_state, out_properties, input_state, tracer_properties)
+            raw_state, out_properties, input_state,
+            self._get_collocated_properties(input_state, tracer_properties))
         return return_state
-- 
2.43.0


From 65b365468d8e39e9b235511caffd518d94a7cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:33 +0000
Subject: [PATCH 19/50] fix: Adams-Bashforth and Leapfrog handle states that
 change units

Stored tendencies and the stored previous state were combined with a state in
different units without conversion.
---
 sympl/_components/timesteppers.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..9bd7217 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -128,6 +128,8 @@ class AdamsBashforth(TendencyStepper):
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
+        for old_tendencies in self._tendencies_list:
+            convert_tendencies_units_for_state(old_tendencies, state)
         self._tendencies_list.append(tendencies)
         new_state = self._perform_step(state, timestep)
         copy_untouched_quantities(state, new_state)
@@ -173,6 +175,18 @@ def convert_tendencies_units_for_state(tendencies, state):
             tendencies[quantity_name] = tendencies[quantity_name].to_units(desired_units)
 
 
+def convert_state_units_like(old_state, state, names):
+    """
+    Returns a copy of old_state in which the named quantities with unit
+    information have the same units as in state.
+    """
+    return_state = old_state.copy()
+    for name in names:
+        if isinstance(state[name], get_backend().get_container_type()) and ('units' in state[name].attrs):
+            return_state[name] = old_state[name].to_units(state[name].attrs['units'])
+    return return_state
+
+
 class Leapfrog(TendencyStepper):
     """A TendencyStepper using the Leapfrog scheme.
 
@@ -252,8 +266,10 @@ class Leapfrog(TendencyStepper):
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
+            old_state = convert_state_units_like(
+                self._old_state, state, tendencies.keys())
             state, new_state = step_leapfrog(
-                self._old_state, state, tendencies, timestep,
+                old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
         self._old_state = state
-- 
2.43.0


From 4db05819dfab327277e08197845fa14143eab7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 20/50] fix: a failed first step does not fix the timestep of a
 stepper

If a component raised during the first call, Adams-Bashforth and Leapfrog
refused to retry the step with a different timestep.
---
 sympl/_components/timesteppers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 9bd7217..667489a 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -128,6 +128,7 @@ class AdamsBashforth(TendencyStepper):
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
+        self._timestep = timestep
         for old_tendencies in self._tendencies_list:
             convert_tendencies_units_for_state(old_tendencies, state)
         self._tendencies_list.append(tendencies)
@@ -155,9 +156,7 @@ class AdamsBashforth(TendencyStepper):
         return new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Adams-Bashforth time stepping')
 
@@ -263,6 +262,7 @@ class Leapfrog(TendencyStepper):
         self._ensure_constant_timestep(timestep)
         tendencies, diagnostics = self.prognostic(state, timestep)
         convert_tendencies_units_for_state(tendencies, state)
+        self._timestep = timestep
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
@@ -278,9 +278,7 @@ class Leapfrog(TendencyStepper):
         return diagnostics, new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Leapfrog time stepping')
 
-- 
2.43.0


From 99fdaed93b51e38f5a20c2a68c46a949275d8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 21/50] fix: SSPRungeKutta leaves quantities without a tendency
 alone

All quantities in the state were averaged over the stages, which changed the
type and rounding of quantities that should not be stepped.
---
 sympl/_components/timesteppers.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 667489a..8c4e24a 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -56,21 +56,40 @@ class SSPRungeKutta(TendencyStepper):
 
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
+        names = get_stepped_names(state, state_1)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        state_2 = add(
+            multiply(0.75, select(state, names)),
+            multiply(0.25, select(state_1_5, names)))
+        copy_untouched_quantities(state, state_2)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        out_state = add(
+            multiply(1./3, select(state, names)),
+            multiply(2./3, select(state_2_5, names)))
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
         assert state is not None
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
+        names = get_stepped_names(state, state_1)
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        out_state = multiply(
+            0.5, add(select(state, names), select(state_2, names)))
         return diagnostics, out_state
 
 
+def get_stepped_names(state, new_state):
+    """Returns the names of quantities in new_state which are not simply those
+    of state."""
+    return [
+        name for name in state.keys() if new_state[name] is not state[name]]
+
+
+def select(state, names):
+    return {name: state[name] for name in names}
+
+
 class AdamsBashforth(TendencyStepper):
     """A TendencyStepper using the Adams-Bashforth scheme."""
 
-- 
2.43.0


From 02d2f2553f863816a8c273ce7c8f3c39b32a6006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:11 +0000
Subject: [PATCH 22/50] fix: one-step schemes allow the timestep to change

SSPRungeKutta uses a first order Adams-Bashforth stepper internally, and so
refused a different timestep although it does not use earlier steps.
---
 sympl/_components/timesteppers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 8c4e24a..48da9b7 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -175,6 +175,8 @@ class AdamsBashforth(TendencyStepper):
         return new_state
 
     def _ensure_constant_timestep(self, timestep):
+        if self._order == 1:
+            return  # does not use earlier steps
         if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Adams-Bashforth time stepping')
-- 
2.43.0


From a506bb2fb8744be4e4b1e24c72c5f603bdc2d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:25 +0000
Subject: [PATCH 23/50] fix: NetCDFMonitor stores a copy of the state

The cache referred to the arrays of the state, so that modifying them in-place
between store() and write() changed what was written.
---
 sympl/_components/netcdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..2470bf1 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -87,6 +87,11 @@ class NetCDFMonitor(Monitor):
         else:
             cache_state = state.copy()
 
+        # the state may be modified before it is written
+        for name, value in cache_state.items():
+            if isinstance(value, xr.DataArray):
+                cache_state[name] = value.copy(deep=True)
+
         # raise an exception if the state has any empty string variables
         for full_var_name in cache_state.keys():
             if len(full_var_name) == 0:
-- 
2.43.0


From 64450076a9bbf8577b06d231fac4ea96054bd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:35 +0000
Subject: [PATCH 24/50] fix: NetCDFMonitor aliases do not drop quantities or
 the time

An alias which turns the name of one quantity into that of another silently
replaced it, and an alias matching 'time' raised a KeyError.
---
 sympl/_components/netcdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 2470bf1..fe5c7a9 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -104,13 +104,18 @@ class NetCDFMonitor(Monitor):
                 # example: if longname is "temperature", shortname is "T", and
                 #    full_var_name is "temperature_tendency_from_radiation", the
                 #    alias_name for the variable would be: "T_tendency_from_radiation"
-                if longname in full_var_name:
+                if longname in full_var_name and full_var_name != 'time':
                     alias_name = full_var_name.replace(longname, shortname)
                     if len(alias_name) == 0:  # raise exception if the alias is an empty str
                         errstr = 'Tried to alias variable "{}" to an empty string.\n' + \
                                  'xarray will not allow empty strings as variable names.'
                         raise ValueError(errstr.format(full_var_name))
-                    cache_state[alias_name] = cache_state.pop(full_var_name)
+                    quantity = cache_state.pop(full_var_name)
+                    if alias_name in cache_state:
+                        raise ValueError(
+                            'Alias "{}" of variable "{}" is also the name of '
+                            'another variable.'.format(alias_name, full_var_name))
+                    cache_state[alias_name] = quantity
 
         cache_state.pop('time')  # stored as key, not needed in state dict
         if state['time'] in self._cached_state_dict.keys():
-- 
2.43.0


From a5ef6679d4e9eafa0fb8650106fce18b1ca66b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:44 +0000
Subject: [PATCH 25/50] fix: NetCDFMonitor.write does nothing if there is
 nothing to write

It raised a ValueError, for example when called with write_on_store=True.
---
 sympl/_components/netcdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index fe5c7a9..8a5f500 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -181,6 +181,8 @@ class NetCDFMonitor(Monitor):
             If cached states do not all have the same quantities
             as every other cached and written state.
         """
+        if len(self._cached_state_dict) == 0:
+            return
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
-- 
2.43.0


From ffb65236a20c1d18e260a20d29abf41e2e21b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:34 +0000
Subject: [PATCH 26/50] fix: NetCDFMonitor and RestartMonitor handle scalar
 quantities

Quantities without any dimensions raised an IndexError.
---
 sympl/_components/netcdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 8a5f500..2b497c1 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -193,8 +193,7 @@ class NetCDFMonitor(Monitor):
             all_states = combine_states(state_list)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
-                dataset.variables[name][
-                    it_start:it_end, :] = value.values[:, :]
+                dataset.variables[name][it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
 
     def _ensure_time_exists(self, dataset, possible_reference_time):
@@ -261,7 +260,7 @@ class RestartMonitor(Monitor):
         dataset = xr.open_dataset(self._filename)
         state = {}
         for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, :])  # remove time axis
+            state[name] = DataArray(value[0, ...])  # remove time axis
         state['time'] = datetime64_to_datetime(dataset['time'][0].values)
         return state
 
@@ -298,7 +297,7 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-            return_dict[name][i, :] = state[name][:]
+            return_dict[name][i, ...] = state[name]
     return return_dict
 
 
-- 
2.43.0


From cd39302f416dff08d1a6d2e178ed37c50dfd092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 27/50] fix: NetCDFMonitor refuses inconsistent states before
 adding records

States with different units or other attributes in the same write were written
under the attributes of the first, quantities of length 1 were broadcast over
longer variables, floating point data was truncated into integer variables, and
a refused write left records with only a time in the file.
---
 sympl/_components/netcdf.py | 45 +++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 2b497c1..8e8af21 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -189,8 +189,9 @@ class NetCDFMonitor(Monitor):
             self._ensure_time_exists(dataset, time_list[0])
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
-            append_times_to_dataset(time_list, dataset, self._time_units)
             all_states = combine_states(state_list)
+            ensure_states_are_compatible_with_dataset(dataset, all_states)
+            append_times_to_dataset(time_list, dataset, self._time_units)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][it_start:it_end, ...] = value.values
@@ -292,8 +293,11 @@ def combine_states(states):
     return_dict = {}
     n_states = len(states)
     for name, value in states[0].items():
+        for state in states[1:]:
+            ensure_quantities_are_compatible(name, value, state[name])
+        dtype = np.result_type(*[state[name].values.dtype for state in states])
         return_dict[name] = DataArray(
-            np.zeros((n_states,) + value.shape, dtype=value.values.dtype),
+            np.zeros((n_states,) + value.shape, dtype=dtype),
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
@@ -301,6 +305,39 @@ def combine_states(states):
     return return_dict
 
 
+def ensure_quantities_are_compatible(name, reference, quantity):
+    """Raises InvalidStateError if the quantity cannot be put in the same
+    variable as the reference quantity."""
+    if dict(zip(quantity.dims, quantity.shape)) != dict(
+            zip(reference.dims, reference.shape)):
+        raise InvalidStateError(
+            'Quantity {} has dimensions {} with shape {} and dimensions {} '
+            'with shape {} at different times'.format(
+                name, reference.dims, reference.shape, quantity.dims,
+                quantity.shape))
+    for key, value in quantity.attrs.items():
+        if key not in reference.attrs or value != reference.attrs[key]:
+            raise InvalidStateError(
+                'Quantity {} has attr {} with value {} which differs between '
+                'times'.format(name, key, value))
+
+
+def ensure_states_are_compatible_with_dataset(dataset, all_states):
+    """Raises IOError or InvalidStateError if the combined states cannot be
+    written to the dataset, without modifying the dataset."""
+    dim_lengths = {
+        name: dimension.size for name, dimension in dataset.dimensions.items()}
+    for name, data in all_states.items():
+        if name in dataset.variables:
+            ensure_variable_is_compatible(dataset.variables[name], name, data)
+        for dim, length in list(zip(data.dims, data.shape))[1:]:
+            if dim_lengths.setdefault(dim, length) != length:
+                raise IOError(
+                    'Dimension {} of {} has length {}, but it has length {} '
+                    'in the file or for another quantity'.format(
+                        dim, name, length, dim_lengths[dim]))
+
+
 def ensure_variable_exists(dataset, name, data):
     """Dataset should be nc4.Dataset, name should be a string, and data should
     be a DataArray.
@@ -340,6 +377,10 @@ def ensure_variable_is_compatible(variable, name, data):
         raise IOError(
             'Dimension in file is {} but on variable is {}'.format(
                 variable.dimensions, data.dims))
+    if not np.can_cast(data.values.dtype, variable.dtype, casting='same_kind'):
+        raise InvalidStateError(
+            'Quantity {} has data type {} which cannot be stored in the netCDF '
+            'file as {}'.format(name, data.values.dtype, variable.dtype))
     for key, value in data.attrs.items():
         if key not in variable.ncattrs():
             raise InvalidStateError(
-- 
2.43.0


From 7bfc0318ccd8838cec8dd2784aa5c478a1f945ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:48 +0000
Subject: [PATCH 28/50] fix: NetCDFMonitor writes times in the calendar and
 units of the file

Times in calendars other than proleptic_gregorian were labelled as
proleptic_gregorian, timedeltas were written in the monitor's time units even
when appending to a file with different ones, and were truncated instead of
rounded to an integer.
---
 sympl/_components/netcdf.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 8e8af21..6543078 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -191,7 +191,7 @@ class NetCDFMonitor(Monitor):
             it_end = it_start + len(time_list)
             all_states = combine_states(state_list)
             ensure_states_are_compatible_with_dataset(dataset, all_states)
-            append_times_to_dataset(time_list, dataset, self._time_units)
+            append_times_to_dataset(time_list, dataset)
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][it_start:it_end, ...] = value.values
@@ -211,7 +211,8 @@ class NetCDFMonitor(Monitor):
                     'units', '{} since {}'.format(
                         self._time_units, possible_reference_time))
                 dataset.variables['time'].setncattr(
-                    'calendar', 'proleptic_gregorian')
+                    'calendar', getattr(
+                        possible_reference_time, 'calendar', 'proleptic_gregorian'))
 
 
 class RestartMonitor(Monitor):
@@ -266,9 +267,9 @@ class RestartMonitor(Monitor):
         return state
 
 
-def append_times_to_dataset(times, dataset, time_units):
-    """Appends the given list of times to the dataset. Assumes the time units
-    in the NetCDF4 dataset correspond to the string time_units."""
+def append_times_to_dataset(times, dataset):
+    """Appends the given list of times to the dataset, in the time units and
+    calendar of the NetCDF4 dataset."""
     it_start = dataset.dimensions['time'].size
     it_end = it_start + len(times)
     if isinstance(times[0], timedelta):
@@ -276,12 +277,17 @@ def append_times_to_dataset(times, dataset, time_units):
         for time in times:
             times_list.append(time.total_seconds())
         time_array = from_unit_to_another(
-            np.array(times_list), 'seconds', time_units)
-        dataset.variables['time'][it_start:it_end] = time_array[:]
+            np.array(times_list), 'seconds', dataset.variables['time'].units)
+        dataset.variables['time'][it_start:it_end] = np.round(time_array[:])
     else:  # assume datetime
+        calendar = dataset.variables['time'].calendar
+        for time in times:
+            if getattr(time, 'calendar', 'proleptic_gregorian') != calendar:
+                raise InvalidStateError(
+                    'Time {} is not in the calendar {} used in the netCDF '
+                    'file'.format(time, calendar))
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
-            times, dataset.variables['time'].units,
-            calendar='proleptic_gregorian'
+            times, dataset.variables['time'].units, calendar=calendar
         )
 
 
-- 
2.43.0


From 4f1b14f3f19c7c19ecc0fc268986bb066927a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 29/50] fix: RestartMonitor.load returns exactly the stored
 state

Times outside the range or calendar of datetime64 and timedeltas are
restored as they were stored, quantities named like a dimension or with
special values are not lost, and the file is not kept open.
---
 sympl/_components/netcdf.py | 38 ++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 6543078..4403970 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -3,11 +3,11 @@ from .._core.exceptions import (
     DependencyError, InvalidStateError)
 from .._core.units import from_unit_to_another
 from .._core.dataarray import DataArray
-from .._core.util import same_list, datetime64_to_datetime
+from .._core.util import same_list
 import xarray as xr
 import os
 import numpy as np
-from datetime import timedelta
+from datetime import datetime, timedelta
 from six import string_types
 
 try:
@@ -209,7 +209,8 @@ class NetCDFMonitor(Monitor):
             else:  # assume datetime
                 dataset.variables['time'].setncattr(
                     'units', '{} since {}'.format(
-                        self._time_units, possible_reference_time))
+                        self._time_units,
+                        possible_reference_time.isoformat(' ')))
                 dataset.variables['time'].setncattr(
                     'calendar', getattr(
                         possible_reference_time, 'calendar', 'proleptic_gregorian'))
@@ -259,14 +260,37 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        dataset = xr.open_dataset(self._filename)
         state = {}
-        for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, ...])  # remove time axis
-        state['time'] = datetime64_to_datetime(dataset['time'][0].values)
+        with nc4.Dataset(self._filename, 'r') as dataset:
+            dataset.set_auto_maskandscale(False)
+            for name, variable in dataset.variables.items():
+                if name != 'time':
+                    state[name] = DataArray(  # remove time axis
+                        variable[0, ...], dims=variable.dimensions[1:],
+                        attrs={key: variable.getncattr(key)
+                               for key in variable.ncattrs()})
+            state['time'] = get_time_from_dataset(dataset, 0)
         return state
 
 
+def get_time_from_dataset(dataset, i):
+    """Returns the time of record i of the dataset, in the same form as it was
+    given to append_times_to_dataset."""
+    variable = dataset.variables['time']
+    if 'calendar' not in variable.ncattrs():
+        return timedelta(seconds=float(
+            from_unit_to_another(float(variable[i]), variable.units, 'seconds')))
+    elif variable.calendar == 'proleptic_gregorian':
+        time = nc4.num2date(
+            variable[i], variable.units, calendar=variable.calendar)
+        return datetime(
+            time.year, time.month, time.day, time.hour, time.minute,
+            time.second, time.microsecond)
+    else:
+        return nc4.num2date(
+            variable[i], variable.units, calendar=variable.calendar)
+
+
 def append_times_to_dataset(times, dataset):
     """Appends the given list of times to the dataset, in the time units and
     calendar of the NetCDF4 dataset."""
-- 
2.43.0


From 29c5a4af409906d419ab4ea48c3cbe7348aa6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:15 +0000
Subject: [PATCH 30/50] fix: RestartMonitor.store replaces the restart file
 atomically

There is no moment without a restart file, and a store that fails removes its
unfinished file so that later stores work.
---
 sympl/_components/netcdf.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 4403970..4bdca28 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -241,15 +241,16 @@ class RestartMonitor(Monitor):
         new_filename = self._filename + '.new'
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
-        netcdf_monitor = NetCDFMonitor(new_filename)
-        netcdf_monitor.store(state)
-        netcdf_monitor.write()
-
-        if os.path.isfile(self._filename):
-            os.rename(self._filename, self._filename + '.old')
-        os.rename(new_filename, self._filename)
-        if os.path.isfile(self._filename + '.old'):
-            os.remove(self._filename + '.old')
+        try:
+            netcdf_monitor = NetCDFMonitor(new_filename)
+            netcdf_monitor.store(state)
+            netcdf_monitor.write()
+            # os.replace is atomic, but does not exist in Python 2
+            getattr(os, 'replace', os.rename)(new_filename, self._filename)
+        except BaseException:
+            if os.path.isfile(new_filename):
+                os.remove(new_filename)
+            raise
 
     def load(self):
         """
-- 
2.43.0


From 7109afaa8bfc5009e0c2cd43def1753ba860baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:40 +0000
Subject: [PATCH 31/50] fix: str() of a TendencyStepper raised IndexError

The format string has a placeholder for the class, which was not given.
---
 sympl/_core/tendencystepper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 7eeb3d6..a5aed42 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -102,7 +102,8 @@ class TendencyStepper(Stepper):
     def __str__(self):
         return (
             'instance of {}(TendencyStepper)\n'
-            '    TendencyComponent components: {}'.format(self.prognostic_list)
+            '    TendencyComponent components: {}'.format(
+                self.__class__, self.prognostic_list)
         )
 
     def __repr__(self):
-- 
2.43.0


From 38c2c42bdb6656e79e46d293876f9f8738bb2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:31 +0000
Subject: [PATCH 32/50] fix: ScalingWrapper passes the timestep to wrapped
 implicit components

A wrapper with an optional timestep argument counts as a TendencyComponent as
well, and was called without the timestep its component needs.
---
 sympl/_core/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index d6d158a..e1d712f 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -160,7 +160,10 @@ class ScalingWrapper(object):
             diagnostics = scale_quantities(
                 diagnostics, self._diagnostic_scale_factors)
             return diagnostics, new_state
-        elif isinstance(self._component, TendencyComponent):
+        elif isinstance(self._component, TendencyComponent) and (
+                timestep is None or
+                not isinstance(self._component, ImplicitTendencyComponent)):
+            # a component may be both if its timestep argument is optional
             tendencies, diagnostics = self._component(scaled_state)
             tendencies = scale_quantities(
                 tendencies, self._tendency_scale_factors)
-- 
2.43.0


From 4d24ae4f72694c8240caa80f85e036d5f38ae8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:13 +0000
Subject: [PATCH 33/50] fix: converting the units of integer arrays no longer
 overflows

Conversions with a whole factor (such as day to s) were done in the integer type
of the array, silently giving wrong values or raising OverflowError.
---
 sympl/_core/units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index c3d6954..b5e108c 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import numpy as np
 import pint
 
 
@@ -80,6 +81,9 @@ def data_array_to_units(value, units):
             'Cannot retrieve units from type {}'.format(type(value)))
     elif unit_registry(value.attrs['units']) != unit_registry(units):
         attrs = value.attrs.copy()
+        if np.issubdtype(value.dtype, np.integer):
+            # or the result could overflow
+            value = value.copy(data=value.values.astype(np.float64))
         value = unit_registry.Quantity(value, value.attrs['units']).to(units).magnitude
         attrs['units'] = units
         value.attrs = attrs
-- 
2.43.0


From 0c89a4a4bcc4fee89c291899ea7379651037b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:09 +0000
Subject: [PATCH 34/50] fix: documentation of tracer_tendency_time_unit gave
 the time, not the inverse

---
 docs/writing_components.rst | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/writing_components.rst b/docs/writing_components.rst
index cd63a21..848875f 100644
--- a/docs/writing_components.rst
+++ b/docs/writing_components.rst
@@ -322,8 +322,8 @@ the tendencies, with the same dimensions as the input "tracers".
 On these latter two components, you should also specify a
 ``tracer_tendency_time_unit`` property, which refers to the time part of the
 tendency unit. For example, if the input tracer is in units of ``g m^-3``, and
-``tracer_tendency_time_unit`` is "s", then the output tendency will be in
-units of ``g m^-3 s^-1``. This value is set as "s" (or seconds) by default.
+``tracer_tendency_time_unit`` is "s^-1", then the output tendency will be in
+units of ``g m^-3 s^-1``. This value is set as "s^-1" (per second) by default.
 
 .. code-block:: python
 
@@ -331,6 +331,6 @@ units of ``g m^-3 s^-1``. This value is set as "s" (or seconds) by default.
 
             uses_tracers = True
             tracer_dims = ['tracer', '*', 'mid_levels']
-            tracer_tendency_time_unit = 's'
+            tracer_tendency_time_unit = 's^-1'
 
             [...]
-- 
2.43.0


From cd82b5ed2273694a5b5bcebf89d885a26dae6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:32 +0000
Subject: [PATCH 35/50] fix: RestartMonitor.load decodes packed quantities

---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 4bdca28..ce1f3ed 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -263,7 +263,7 @@ class RestartMonitor(Monitor):
         """
         state = {}
         with nc4.Dataset(self._filename, 'r') as dataset:
-            dataset.set_auto_maskandscale(False)
+            dataset.set_auto_mask(False)
             for name, variable in dataset.variables.items():
                 if name != 'time':
                     state[name] = DataArray(  # remove time axis
-- 
2.43.0


From 2bf92791dd58076ea1beb70c0907f187b52dbf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:40 +0000
Subject: [PATCH 36/50] fix: __all__ lists names so that star imports work

---
 sympl/__init__.py             | 112 +++++++++++++++++-----------------
 sympl/_components/__init__.py |   8 +--
 2 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/sympl/__init__.py b/sympl/__init__.py
index d8a9a68..97e1d30 100644
--- a/sympl/__init__.py
+++ b/sympl/__init__.py
@@ -64,60 +64,60 @@ from ._core.wrappers import ScalingWrapper, UpdateFrequencyWrapper
 
 __version__ = "0.5.1"
 __all__ = (
-    TendencyComponent,
-    DiagnosticComponent,
-    Stepper,
-    Monitor,
-    TendencyComponentComposite,
-    ImplicitTendencyComponentComposite,
-    DiagnosticComponentComposite,
-    MonitorComposite,
-    ImplicitTendencyComponent,
-    TendencyStepper,
-    Leapfrog,
-    AdamsBashforth,
-    SSPRungeKutta,
-    InvalidStateError,
-    SharedKeyError,
-    DependencyError,
-    InvalidPropertyDictError,
-    ComponentExtraOutputError,
-    ComponentMissingOutputError,
-    units_are_same,
-    units_are_compatible,
-    is_valid_unit,
-    DataArray,
-    get_constant,
-    set_constant,
-    set_condensible_name,
-    reset_constants,
-    get_constants_string,
-    TimeDifferencingWrapper,
-    ensure_no_shared_keys,
-    set_backend,
-    get_backend,
-    StateBackend,
-    DataArrayBackend,
-    get_numpy_array,
-    jit,
-    register_tracer,
-    get_tracer_unit_dict,
-    get_tracer_input_properties,
-    get_tracer_names,
-    restore_dimensions,
-    get_numpy_arrays_with_properties,
-    restore_data_arrays_with_properties,
-    initialize_numpy_arrays_with_properties,
-    get_component_aliases,
-    combine_component_properties,
-    PlotFunctionMonitor,
-    NetCDFMonitor,
-    RestartMonitor,
-    ConstantTendencyComponent,
-    ConstantDiagnosticComponent,
-    RelaxationTendencyComponent,
-    UpdateFrequencyWrapper,
-    ScalingWrapper,
-    datetime,
-    timedelta,
+    "TendencyComponent",
+    "DiagnosticComponent",
+    "Stepper",
+    "Monitor",
+    "TendencyComponentComposite",
+    "ImplicitTendencyComponentComposite",
+    "DiagnosticComponentComposite",
+    "MonitorComposite",
+    "ImplicitTendencyComponent",
+    "TendencyStepper",
+    "Leapfrog",
+    "AdamsBashforth",
+    "SSPRungeKutta",
+    "InvalidStateError",
+    "SharedKeyError",
+    "DependencyError",
+    "InvalidPropertyDictError",
+    "ComponentExtraOutputError",
+    "ComponentMissingOutputError",
+    "units_are_same",
+    "units_are_compatible",
+    "is_valid_unit",
+    "DataArray",
+    "get_constant",
+    "set_constant",
+    "set_condensible_name",
+    "reset_constants",
+    "get_constants_string",
+    "TimeDifferencingWrapper",
+    "ensure_no_shared_keys",
+    "set_backend",
+    "get_backend",
+    "StateBackend",
+    "DataArrayBackend",
+    "get_numpy_array",
+    "jit",
+    "register_tracer",
+    "get_tracer_unit_dict",
+    "get_tracer_input_properties",
+    "get_tracer_names",
+    "restore_dimensions",
+    "get_numpy_arrays_with_properties",
+    "restore_data_arrays_with_properties",
+    "initialize_numpy_arrays_with_properties",
+    "get_component_aliases",
+    "combine_component_properties",
+    "PlotFunctionMonitor",
+    "NetCDFMonitor",
+    "RestartMonitor",
+    "ConstantTendencyComponent",
+    "ConstantDiagnosticComponent",
+    "RelaxationTendencyComponent",
+    "UpdateFrequencyWrapper",
+    "ScalingWrapper",
+    "datetime",
+    "timedelta",
 )
diff --git a/sympl/_components/__init__.py b/sympl/_components/__init__.py
index ba29856..6ccedb6 100644
--- a/sympl/_components/__init__.py
+++ b/sympl/_components/__init__.py
@@ -5,7 +5,7 @@ from .basic import (
     TimeDifferencingWrapper)
 
 __all__ = (
-    PlotFunctionMonitor,
-    NetCDFMonitor, RestartMonitor,
-    ConstantTendencyComponent, ConstantDiagnosticComponent, RelaxationTendencyComponent,
-    TimeDifferencingWrapper)
+    'PlotFunctionMonitor',
+    'NetCDFMonitor', 'RestartMonitor',
+    'ConstantTendencyComponent', 'ConstantDiagnosticComponent', 'RelaxationTendencyComponent',
+    'TimeDifferencingWrapper')
-- 
2.43.0


From 7e3723adecc196c420ab695c3d4e845841726157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:41 +0000
Subject: [PATCH 37/50] fix: restore_dimensions made up coordinates the
 reference array lacks

---
 sympl/_core/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index d34864b..044393b 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -161,13 +161,14 @@ def restore_dimensions(array, from_dims, result_like, result_attrs=None):
         result_like, from_dims, current_dim_names)
     original_shape = []
     original_dims = []
-    original_coords = []
+    original_coords = {}
     for direction in from_dims:
         if direction in direction_to_names.keys():
             for name in direction_to_names[direction]:
-                original_shape.append(len(result_like.coords[name]))
+                original_shape.append(result_like.sizes[name])
                 original_dims.append(name)
-                original_coords.append(result_like.coords[name])
+                if name in result_like.coords:
+                    original_coords[name] = result_like.coords[name]
     if np.prod(array.shape) != np.prod(original_shape):
         raise ShapeMismatchError
     data_array = get_backend().get_container_type()(
-- 
2.43.0


From cb2c2ad02bb7acb840f8e9d99c23e9bd2664c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:51 +0000
Subject: [PATCH 38/50] fix: get_numpy_array raises the documented ValueError
 for absent dimensions

---
 sympl/_core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 044393b..dac19b9 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -19,7 +19,7 @@ except ImportError:
 # internal exceptions used only within this module
 
 
-class NoMatchForDirectionError(Exception):
+class NoMatchForDirectionError(ValueError):
     pass
 
 
-- 
2.43.0


From e79517209a9c170c225b7cbb5db9c2824d6c0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:50 +0000
Subject: [PATCH 39/50] fix: a composite of monitors is a monitor, so that it
 can be nested

---
 sympl/_core/composite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/composite.py b/sympl/_core/composite.py
index 383a8fb..8047083 100644
--- a/sympl/_core/composite.py
+++ b/sympl/_core/composite.py
@@ -285,7 +285,7 @@ class DiagnosticComponentComposite(
         raise NotImplementedError()
 
 
-class MonitorComposite(ComponentComposite):
+class MonitorComposite(ComponentComposite, Monitor):
 
     component_class = Monitor
 
-- 
2.43.0


From addf1000437725a9b2610e0ac4eb7d0c9b39748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 40/50] fix: restoring with ignore_missing keeps quantities
 that are keyed by an alias

---
 sympl/_core/restore_dataarray.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 942155e..6778249 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -101,11 +101,12 @@ def restore_data_arrays_with_properties(
     if ignore_names is None:
         ignore_names = []
     if ignore_missing:
-        ignore_names = (
-            set(output_properties.keys())
-            .difference(raw_arrays.keys())
-            .union(ignore_names)
-        )
+        ignore_names = {
+            name
+            for name in output_properties.keys()
+            if get_alias_or_name(name, output_properties, input_properties, raw_arrays)
+            not in raw_arrays.keys()
+        }.union(ignore_names)
     wildcard_names, dim_lengths = get_wildcard_matches_and_dim_lengths(
         input_state, input_properties
     )
-- 
2.43.0


From 9c77530d89a8b5a9ecd749a386074604856e0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:27 +0000
Subject: [PATCH 41/50] fix: Leapfrog keeps its own copy of the previous values

The arrays of the caller's state were kept, so a caller that writes the new
values into the arrays of its state silently changed the earlier values used
in the next step.
---
 sympl/_components/timesteppers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 48da9b7..600e087 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from .._core.tendencystepper import TendencyStepper
 from .._core.backend import get_backend
 from .._core.state import copy_untouched_quantities, add, multiply
@@ -293,7 +294,8 @@ class Leapfrog(TendencyStepper):
                 old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
-        self._old_state = state
+        # the caller may later modify or reuse the arrays in its state
+        self._old_state = {name: deepcopy(state[name]) for name in tendencies.keys()}
         for key in original_state.keys():
             original_state[key] = state[key]  # allow filtering to be applied
         return diagnostics, new_state
-- 
2.43.0


From ed85c029898db2dbdd670e170cf8dc5b1e2a77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 42/50] fix: ScalingWrapper keeps its own copy of the scale
 factors

A dictionary of factors that the caller changed after giving it to the wrapper
changed the scaling, without being checked.
---
 sympl/_core/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index e1d712f..9cffd1a 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -86,7 +86,7 @@ class ScalingWrapper(object):
                     raise ValueError(
                         "{} is not a valid input quantity.".format(input_field))
 
-            self._input_scale_factors = input_scale_factors
+            self._input_scale_factors = dict(input_scale_factors)
 
         self._diagnostic_scale_factors = dict()
         if diagnostic_scale_factors is not None:
@@ -96,7 +96,7 @@ class ScalingWrapper(object):
                     'diagnostic output.')
             self._ensure_fields_have_properties(
                 diagnostic_scale_factors, component.diagnostic_properties, 'diagnostic')
-            self._diagnostic_scale_factors = diagnostic_scale_factors
+            self._diagnostic_scale_factors = dict(diagnostic_scale_factors)
 
         self._output_scale_factors = dict()
         if output_scale_factors is not None:
@@ -106,7 +106,7 @@ class ScalingWrapper(object):
                     'output_properties.')
             self._ensure_fields_have_properties(
                 output_scale_factors, component.output_properties, 'output')
-            self._output_scale_factors = output_scale_factors
+            self._output_scale_factors = dict(output_scale_factors)
 
         self._tendency_scale_factors = dict()
         if tendency_scale_factors is not None:
@@ -116,7 +116,7 @@ class ScalingWrapper(object):
                     'not output tendencies.')
             self._ensure_fields_have_properties(
                 tendency_scale_factors, component.tendency_properties, 'tendency')
-            self._tendency_scale_factors = tendency_scale_factors
+            self._tendency_scale_factors = dict(tendency_scale_factors)
 
     def _ensure_fields_have_properties(
             self, scale_factors, properties, properties_name):
-- 
2.43.0


From 2abba545866b683579c9711b71afe95aa469dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 43/50] fix: NetCDFMonitor keeps its own copy of the aliases

A dictionary of aliases that the caller changed after giving it to the monitor
changed the names that are written, without being checked.
---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index ce1f3ed..26bf433 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -54,7 +54,7 @@ class NetCDFMonitor(Monitor):
         if aliases is None:
             self._aliases = {}
         else:
-            self._aliases = aliases
+            self._aliases = dict(aliases)
         for key, val in self._aliases.items():
             if not isinstance(key, string_types):
                 raise TypeError("Bad alias key type: {}. Expected string.".format(type(key)))
-- 
2.43.0


From 7a9331f558f998195f81a7b7b2e8f73018c6ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 44/50] fix: refuse two inputs that are given to a component by
 the same name

If the alias of one input was the name of another, the array of one of them
silently replaced that of the other.
---
 sympl/_core/get_np_arrays.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/get_np_arrays.py b/sympl/_core/get_np_arrays.py
index f35564e..445f9ea 100644
--- a/sympl/_core/get_np_arrays.py
+++ b/sympl/_core/get_np_arrays.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from .backend import get_backend
-from .exceptions import InvalidStateError
+from .exceptions import InvalidPropertyDictError, InvalidStateError
 from .wildcard import flatten_wildcard_dims, get_wildcard_matches_and_dim_lengths
 
 
@@ -40,6 +40,11 @@ def get_numpy_arrays_with_properties(state, property_dictionary, out_names=None)
             out_name = properties["alias"]
         else:
             out_name = name
+        if out_name in out_dict:
+            raise InvalidPropertyDictError(
+                "Quantity {} is given to the component as {}, but so is another "
+                "quantity".format(name, out_name)
+            )
         out_dict[out_name] = out_array
     return out_dict
 
-- 
2.43.0


From f98491ef56ec64411d0eab028e449f3e1c6eec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 45/50] fix: components may keep the dictionaries they return
 from array_call

---
 sympl/_core/base_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 8e78acc..9eaef47 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -632,6 +632,8 @@ class Stepper(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_diagnostics, raw_new_state = self.array_call(raw_state, timestep)
+        # the component may keep these dictionaries
+        raw_diagnostics, raw_new_state = dict(raw_diagnostics), dict(raw_new_state)
         if self.uses_tracers:
             new_state = self._tracer_packer.unpack(
                 raw_new_state.pop('tracers'), state)
@@ -862,6 +864,7 @@ class TendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state)
+        raw_tendencies = dict(raw_tendencies)  # the component may keep its own
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
@@ -1088,6 +1091,7 @@ class ImplicitTendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state, timestep)
+        raw_tendencies = dict(raw_tendencies)  # the component may keep its own
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
-- 
2.43.0


From 6cee6680c53b2a713e30bb01cea8721b242b72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 46/50] fix: RestartMonitor keeps fractions of a second of the
 time

---
 sympl/_components/netcdf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 26bf433..ffea975 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -242,7 +242,8 @@ class RestartMonitor(Monitor):
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
         try:
-            netcdf_monitor = NetCDFMonitor(new_filename)
+            netcdf_monitor = NetCDFMonitor(
+                new_filename, time_units=get_exact_time_units(state['time']))
             netcdf_monitor.store(state)
             netcdf_monitor.write()
             # os.replace is atomic, but does not exist in Python 2
@@ -274,6 +275,15 @@ class RestartMonitor(Monitor):
         return state
 
 
+def get_exact_time_units(time):
+    """Returns the units in which the time is a whole number."""
+    if isinstance(time, timedelta):
+        microseconds = time.microseconds
+    else:  # assume datetime
+        microseconds = time.microsecond
+    return 'seconds' if microseconds == 0 else 'microseconds'
+
+
 def get_time_from_dataset(dataset, i):
     """Returns the time of record i of the dataset, in the same form as it was
     given to append_times_to_dataset."""
-- 
2.43.0


From b70bfa429b0fe39200933cf8623ec2bae9b3ecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 47/50] fix: multi-step schemes step tracers that were
 registered after earlier steps

---
 sympl/_components/timesteppers.py | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 600e087..8c22fa5 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -159,17 +159,29 @@ class AdamsBashforth(TendencyStepper):
         return diagnostics, new_state
 
     def _perform_step(self, state, timestep):
+        new_state = {}
+        for name in self._tendencies_list[-1].keys():
+            # quantities may have tendencies only since a later step than
+            # others, as is the case for tracers registered between steps
+            tendencies_list = [
+                {name: tendencies[name]} for tendencies in self._tendencies_list
+                if name in tendencies]
+            new_state.update(
+                self._perform_quantity_step(state, tendencies_list, timestep))
+        return new_state
+
+    def _perform_quantity_step(self, state, tendencies_list, timestep):
         # if we don't have enough previous tendencies built up, use lower order
-        order = min(self._order, len(self._tendencies_list))
+        order = min(self._order, len(tendencies_list))
         if order == 1:
             new_state = step_forward_euler(
-                state, self._tendencies_list[-1], timestep)
+                state, tendencies_list[-1], timestep)
         elif order == 2:
-            new_state = second_bashforth(state, self._tendencies_list, timestep)
+            new_state = second_bashforth(state, tendencies_list, timestep)
         elif order == 3:
-            new_state = third_bashforth(state, self._tendencies_list, timestep)
+            new_state = third_bashforth(state, tendencies_list, timestep)
         elif order == 4:
-            new_state = fourth_bashforth(state, self._tendencies_list, timestep)
+            new_state = fourth_bashforth(state, tendencies_list, timestep)
         else:
             # the following should never happen, if it is there's a bug
             raise RuntimeError('order should be integer between 1 and 4')
@@ -288,11 +300,18 @@ class Leapfrog(TendencyStepper):
         if self._old_state is None:
             new_state = step_forward_euler(state, tendencies, timestep)
         else:
+            # quantities may have tendencies only since this step, as is the
+            # case for tracers registered between steps
+            old_names = [name for name in tendencies if name in self._old_state]
             old_state = convert_state_units_like(
-                self._old_state, state, tendencies.keys())
+                self._old_state, state, old_names)
             state, new_state = step_leapfrog(
-                old_state, state, tendencies, timestep,
+                old_state, state, select(tendencies, old_names), timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
+            new_state.update(step_forward_euler(
+                state, select(tendencies, [
+                    name for name in tendencies if name not in old_names]),
+                timestep))
         copy_untouched_quantities(state, new_state)
         # the caller may later modify or reuse the arrays in its state
         self._old_state = {name: deepcopy(state[name]) for name in tendencies.keys()}
-- 
2.43.0


From 33607a1109f43d07351b174260f8b55d24096c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:02 +0000
Subject: [PATCH 48/50] fix: wrappers can be copied and pickled

---
 sympl/_components/basic.py | 5 +++--
 sympl/_core/wrappers.py    | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 9d553b5..cc8b0d8 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -454,7 +454,8 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         raise NotImplementedError()
 
     def __getattr__(self, item):
-        if item in ("outputs", "output_properties"):
-            raise AttributeError()
+        # _implicit is not there yet while being copied
+        if item in ("outputs", "output_properties", "_implicit"):
+            raise AttributeError(item)
         else:
             return getattr(self._implicit, item)
diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 9cffd1a..6b13ede 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -127,6 +127,8 @@ class ScalingWrapper(object):
                     ", but was given a scale factor.".format(field, properties_name))
 
     def __getattr__(self, item):
+        if item == '_component':  # is not there yet while being copied
+            raise AttributeError(item)
         return getattr(self._component, item)
 
     def __call__(self, state, timestep=None):
@@ -253,4 +255,6 @@ class UpdateFrequencyWrapper(object):
         return self._cached_output
 
     def __getattr__(self, item):
+        if item == 'component':  # is not there yet while being copied
+            raise AttributeError(item)
         return getattr(self.component, item)
-- 
2.43.0


From 3a3af1f0cf4581117c306d53d67e861835427015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 49/50] fix: TendencySteppers without base initialization raise
 the intended error

---
 sympl/_core/tendencystepper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index a5aed42..006ecde 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -51,6 +51,7 @@ class TendencyStepper(Stepper):
 
     time_unit_name = 's'
     time_unit_timedelta = timedelta(seconds=1)
+    __initialized = False
 
     @property
     def input_properties(self):
-- 
2.43.0


From 76b7caa26e506bfae90735efd8b562533f885ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:01 +0000
Subject: [PATCH 50/50] fix: a returned key naming one output was taken for
 another with that alias

---
 sympl/_core/base_components.py   | 37 +++++++++++---------------------
 sympl/_core/restore_dataarray.py | 24 ++++++++++++++++-----
 2 files changed, 32 insertions(+), 29 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 9eaef47..77809af 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,7 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
 from .restore_dataarray import (
-    get_alias_or_name, restore_data_arrays_with_properties)
+    get_alias_or_name, get_aliases, restore_data_arrays_with_properties)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -226,13 +226,10 @@ class TendencyChecker(object):
     @property
     def _wanted_tendency_aliases(self):
         wanted_tendency_aliases = {}
-        for name, properties in self.component.tendency_properties.items():
-            wanted_tendency_aliases[name] = []
-            if 'alias' in properties.keys():
-                wanted_tendency_aliases[name].append(properties['alias'])
-            if (name in self.component.input_properties.keys() and
-                    'alias' in self.component.input_properties[name].keys()):
-                wanted_tendency_aliases[name].append(self.component.input_properties[name]['alias'])
+        for name in self.component.tendency_properties.keys():
+            wanted_tendency_aliases[name] = get_aliases(
+                name, self.component.tendency_properties,
+                self.component.input_properties)
         return wanted_tendency_aliases
 
     def _check_missing_tendencies(self, tendency_dict):
@@ -302,14 +299,10 @@ class DiagnosticChecker(object):
     @property
     def _wanted_diagnostic_aliases(self):
         wanted_diagnostic_aliases = {}
-        for name, properties in self.component.diagnostic_properties.items():
-            wanted_diagnostic_aliases[name] = []
-            if 'alias' in properties.keys():
-                wanted_diagnostic_aliases[name].append(properties['alias'])
-            if (name in self.component.input_properties.keys() and
-                    'alias' in self.component.input_properties[name].keys()):
-                wanted_diagnostic_aliases[name].append(
-                    self.component.input_properties[name]['alias'])
+        for name in self.component.diagnostic_properties.keys():
+            wanted_diagnostic_aliases[name] = get_aliases(
+                name, self.component.diagnostic_properties,
+                self.component.input_properties)
         return wanted_diagnostic_aliases
 
     def _check_missing_diagnostics(self, diagnostics_dict):
@@ -383,14 +376,10 @@ class OutputChecker(object):
     @property
     def _wanted_output_aliases(self):
         wanted_output_aliases = {}
-        for name, properties in self.component.output_properties.items():
-            wanted_output_aliases[name] = []
-            if 'alias' in properties.keys():
-                wanted_output_aliases[name].append(properties['alias'])
-            if (name in self.component.input_properties.keys() and
-                    'alias' in self.component.input_properties[name].keys()):
-                wanted_output_aliases[name].append(
-                    self.component.input_properties[name]['alias'])
+        for name in self.component.output_properties.keys():
+            wanted_output_aliases[name] = get_aliases(
+                name, self.component.output_properties,
+                self.component.input_properties)
         return wanted_output_aliases
 
     def _check_missing_outputs(self, outputs_dict):
diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 6778249..f6d11e2 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -15,14 +15,28 @@ def ensure_values_are_arrays(array_dict):
             array_dict[name] = np.asarray(value)
 
 
+def get_aliases(name, properties, input_properties):
+    """Returns the aliases the named quantity may go by, other than those which
+    are the name or alias of another quantity in properties."""
+    aliases = []
+    if "alias" in properties[name].keys():
+        aliases.append(properties[name]["alias"])
+    if name in input_properties.keys() and "alias" in input_properties[name].keys():
+        aliases.append(input_properties[name]["alias"])
+    for other, other_properties in properties.items():
+        if other != name:
+            aliases = [
+                alias
+                for alias in aliases
+                if alias not in (other, other_properties.get("alias"))
+            ]
+    return aliases
+
+
 def get_alias_or_name(name, output_properties, input_properties, raw_arrays):
     """Returns the key used for the named quantity in raw_arrays, which may be
     the alias in output_properties or input_properties or the name itself."""
-    raw_names = []
-    if "alias" in output_properties[name].keys():
-        raw_names.append(output_properties[name]["alias"])
-    if name in input_properties.keys() and "alias" in input_properties[name].keys():
-        raw_names.append(input_properties[name]["alias"])
+    raw_names = get_aliases(name, output_properties, input_properties)
     raw_names.append(name)
     for raw_name in raw_names:
         if raw_name in raw_arrays.keys():
-- 
2.43.0

