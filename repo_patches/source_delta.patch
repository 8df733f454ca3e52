From e95080f41aa3d79fe5d20fdf4c459211f5fe2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 01/52] fix: combine_dims compared dims2 with itself, so
 wildcard combination depended on argument order

---
 sympl/_core/combine_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/combine_properties.py b/sympl/_core/combine_properties.py
index 623a3cf..d866132 100644
--- a/sympl/_core/combine_properties.py
+++ b/sympl/_core/combine_properties.py
@@ -32,7 +32,7 @@ def combine_dims(dims1, dims2):
     dims2_wildcard = '*' in dims2
     dims2.discard('*')
     unmatched_dims = set(dims1).union(dims2).difference(dims_out)
-    shared_dims = set(dims2).intersection(dims2)
+    shared_dims = set(dims1).intersection(dims2)
     if dims1_wildcard and dims2_wildcard:
         dims_out.insert(0, '*')  # either dim can match anything
         dims_out.extend(unmatched_dims)
@@ -42,12 +42,12 @@ def combine_dims(dims1, dims2):
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims1_wildcard:
-        if shared_dims != set(dims2):
+        if shared_dims != set(dims1):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
     elif dims2_wildcard:
-        if shared_dims != set(dims1):
+        if shared_dims != set(dims2):
             raise InvalidPropertyDictError(
                 'dims {} and {} are incompatible'.format(dims1, dims2))
         dims_out.extend(unmatched_dims)
-- 
2.43.0


From cf5a55290cd89fb419439d72fccbde8b177be9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:31 +0000
Subject: [PATCH 02/52] fix: reject an alias equal to the name of another
 quantity, which silently replaced its data

---
 sympl/_core/base_components.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 2583fbd..de3d75b 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -94,7 +94,9 @@ class ComponentMeta(abc.ABCMeta):
 
 
 def check_overlapping_aliases(properties, properties_name):
-    defined_aliases = set()
+    # names under which unaliased quantities appear in the raw array dictionary
+    defined_aliases = set(
+        name for name, props in properties.items() if 'alias' not in props.keys())
     for name, properties in properties.items():
         if 'alias' in properties.keys():
             if properties['alias'] not in defined_aliases:
-- 
2.43.0


From 815a90a3ab99762f9a1352e02cea9807de392ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 03/52] fix: ScalingWrapper scaled arrays in place, compounding
 on repeated calls and altering the input state

---
 sympl/_core/wrappers.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 63bb902..90d6be2 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -3,6 +3,17 @@ from .._core.base_components import (
 )
 
 
+def scale_quantity(quantity, scale_factor):
+    """
+    Returns the quantity multiplied by scale_factor, with the same attributes.
+    The quantity is not modified, as its data may belong to the component or
+    to the input state.
+    """
+    scaled_quantity = quantity*float(scale_factor)
+    scaled_quantity.attrs = quantity.attrs
+    return scaled_quantity
+
+
 class ScalingWrapper(object):
     """
     Wraps any component and scales either inputs, outputs or tendencies
@@ -151,38 +162,41 @@ class ScalingWrapper(object):
             if timestep is None:
                 raise TypeError('Must give timestep to call Stepper.')
             diagnostics, new_state = self._component(scaled_state, timestep)
+            diagnostics, new_state = diagnostics.copy(), new_state.copy()
             for name in self._output_scale_factors.keys():
                 scale_factor = self._output_scale_factors[name]
-                new_state[name] *= float(scale_factor)
+                new_state[name] = scale_quantity(new_state[name], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics, new_state
         elif isinstance(self._component, TendencyComponent):
             tendencies, diagnostics = self._component(scaled_state)
+            tendencies, diagnostics = tendencies.copy(), diagnostics.copy()
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
+                tendencies[tend_field] = scale_quantity(tendencies[tend_field], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return tendencies, diagnostics
         elif isinstance(self._component, ImplicitTendencyComponent):
             if timestep is None:
                 raise TypeError('Must give timestep to call ImplicitTendencyComponent.')
             tendencies, diagnostics = self._component(scaled_state, timestep)
+            tendencies, diagnostics = tendencies.copy(), diagnostics.copy()
             for tend_field in self._tendency_scale_factors.keys():
                 scale_factor = self._tendency_scale_factors[tend_field]
-                tendencies[tend_field] *= float(scale_factor)
+                tendencies[tend_field] = scale_quantity(tendencies[tend_field], scale_factor)
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return tendencies, diagnostics
         elif isinstance(self._component, DiagnosticComponent):
-            diagnostics = self._component(scaled_state)
+            diagnostics = self._component(scaled_state).copy()
             for name in self._diagnostic_scale_factors.keys():
                 scale_factor = self._diagnostic_scale_factors[name]
-                diagnostics[name] *= float(scale_factor)
+                diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics
         else:  # Should never reach this
             raise RuntimeError(
-- 
2.43.0


From 18248329305501abe7f886c1421002e7d448b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 04/52] fix: Stepper tendencies in diagnostics raised KeyError
 for quantities with an alias

---
 sympl/_core/base_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index de3d75b..74aa4c2 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -1,6 +1,7 @@
 import abc
 from .get_np_arrays import get_numpy_arrays_with_properties
-from .restore_dataarray import restore_data_arrays_with_properties
+from .restore_dataarray import (
+    get_alias_or_name, restore_data_arrays_with_properties)
 from .time import timedelta
 from .exceptions import (
     InvalidPropertyDictError, ComponentExtraOutputError,
@@ -639,8 +640,11 @@ class Stepper(object):
             self, raw_state, raw_new_state, timestep, raw_diagnostics):
         for name in self.output_properties.keys():
             tendency_name = self._get_tendency_name(name)
+            raw_name = get_alias_or_name(
+                name, self.output_properties, self.input_properties)
+            raw_input_name = self.input_properties[name].get('alias', name)
             raw_diagnostics[tendency_name] = (
-                (raw_new_state[name] - raw_state[name]) /
+                (raw_new_state[raw_name] - raw_state[raw_input_name]) /
                 timestep.total_seconds() * self.time_unit_timedelta.total_seconds())
 
     @abc.abstractmethod
-- 
2.43.0


From eb5a822aed4086699657f79265c497073b3275ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 05/52] fix: Stepper tendency diagnostics are per time unit but
 were labelled per second

---
 sympl/_core/base_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 74aa4c2..714baae 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -523,9 +523,9 @@ class Stepper(object):
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
-                units = 's^-1'
+                units = '{}^-1'.format(self.time_unit_name)
             else:
-                units = '{} s^-1'.format(properties['units'])
+                units = '{} {}^-1'.format(properties['units'], self.time_unit_name)
             if 'dims' in properties.keys():
                 dims = properties['dims']
             else:
-- 
2.43.0


From aa0d23ad2b9f09585fde7e77e75af6e2d94aeff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:05 +0000
Subject: [PATCH 06/52] fix: tendencies_in_diagnostics modified class-level
 property dictionaries, breaking other instances

---
 sympl/_core/base_components.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 714baae..d40f250 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -110,6 +110,16 @@ def check_overlapping_aliases(properties, properties_name):
                 )
 
 
+def ensure_own_properties(component, properties_name):
+    """
+    If the component uses a properties dictionary defined on its class, gives
+    it its own copy, so that modifying it does not affect other instances.
+    """
+    class_attribute = getattr(type(component), properties_name, None)
+    if isinstance(class_attribute, dict) and getattr(component, properties_name) is class_attribute:
+        setattr(component, properties_name, class_attribute.copy())
+
+
 class InputChecker(object):
 
     def __init__(self, component):
@@ -520,6 +530,8 @@ class Stepper(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_own_properties(self, 'diagnostic_properties')
+        ensure_own_properties(self, 'input_properties')
         for name, properties in self.output_properties.items():
             tendency_name = self._get_tendency_name(name)
             if properties['units'] == '':
@@ -781,6 +793,7 @@ class TendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_own_properties(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
@@ -1004,6 +1017,7 @@ class ImplicitTendencyComponent(object):
 
     def _insert_tendency_properties(self):
         added_names = []
+        ensure_own_properties(self, 'diagnostic_properties')
         for name, properties in self.tendency_properties.items():
             tendency_name = self._get_tendency_name(name)
             if 'dims' in properties.keys():
-- 
2.43.0


From fbef07bbe7cf5ddef1e4d527d79856756b18095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:45 +0000
Subject: [PATCH 07/52] fix: outputs with wildcard dims of the wrong shape were
 silently reshaped

---
 sympl/_core/restore_dataarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sympl/_core/restore_dataarray.py b/sympl/_core/restore_dataarray.py
index 33da61d..f6200e8 100644
--- a/sympl/_core/restore_dataarray.py
+++ b/sympl/_core/restore_dataarray.py
@@ -120,6 +120,16 @@ def restore_data_arrays_with_properties(
             out_dims_without_wildcard, target_shape = fill_dims_wildcard(
                 out_dims, dim_lengths, wildcard_names
             )
+            _, raw_shape = fill_dims_wildcard(
+                out_dims, dim_lengths, wildcard_names, expand_wildcard=False
+            )
+            if list(raw_arrays[raw_name].shape) != raw_shape:
+                raise InvalidPropertyDictError(
+                    "Returned array for {} has shape {}, but shape {} is "
+                    "expected for dims {}".format(
+                        name, raw_arrays[raw_name].shape, raw_shape, out_dims
+                    )
+                )
             out_array = expand_array_wildcard_dims(
                 raw_arrays[raw_name], target_shape, name, out_dims
             )
-- 
2.43.0


From 2c0937889897fb20e3a3485e33c90ff6e8679ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 08/52] fix: SSPRungeKutta rescaled quantities which have no
 tendency instead of leaving them untouched

---
 sympl/_components/timesteppers.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index d0f7328..c033ec7 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -3,6 +3,15 @@ from .._core.backend import get_backend
 from .._core.state import copy_untouched_quantities, add, multiply
 
 
+def get_stepped_names(state, new_state):
+    """Returns the names of quantities which have been changed in new_state."""
+    return [name for name in new_state.keys() if new_state[name] is not state[name]]
+
+
+def select(state, names):
+    return {name: state[name] for name in names}
+
+
 class SSPRungeKutta(TendencyStepper):
     """
     A TendencyStepper using the Strong Stability Preserving Runge-Kutta scheme,
@@ -56,18 +65,23 @@ class SSPRungeKutta(TendencyStepper):
 
     def _step_3_stages(self, state, timestep):
         diagnostics, state_1 = self._euler_stepper(state, timestep)
+        names = get_stepped_names(state, state_1)
         _, state_1_5 = self._euler_stepper(state_1, timestep)
-        state_2 = add(multiply(0.75, state), multiply(0.25, state_1_5))
+        state_2 = add(
+            multiply(0.75, select(state, names)), multiply(0.25, select(state_1_5, names)))
+        copy_untouched_quantities(state, state_2)
         _, state_2_5 = self._euler_stepper(state_2, timestep)
-        out_state = add(multiply(1./3, state), multiply(2./3, state_2_5))
+        out_state = add(
+            multiply(1./3, select(state, names)), multiply(2./3, select(state_2_5, names)))
         return diagnostics, out_state
 
     def _step_2_stages(self, state, timestep):
         assert state is not None
         diagnostics, state_1 = self._euler_stepper(state, timestep)
         assert state_1 is not None
+        names = get_stepped_names(state, state_1)
         _, state_2 = self._euler_stepper(state_1, timestep)
-        out_state = multiply(0.5, add(state, state_2))
+        out_state = multiply(0.5, add(select(state, names), select(state_2, names)))
         return diagnostics, out_state
 
 
-- 
2.43.0


From 408f8efb9b0b3be09b961a2e0bda98d4ea1e2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:01 +0000
Subject: [PATCH 09/52] fix: NetCDFMonitor and RestartMonitor failed on
 zero-dimensional quantities

---
 sympl/_components/netcdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 0f0fb7e..37a016b 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -182,7 +182,7 @@ class NetCDFMonitor(Monitor):
             for name, value in all_states.items():
                 ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
-                    it_start:it_end, :] = value.values[:, :]
+                    it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
 
     def _ensure_time_exists(self, dataset, possible_reference_time):
@@ -249,7 +249,7 @@ class RestartMonitor(Monitor):
         dataset = xr.open_dataset(self._filename)
         state = {}
         for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0, :])  # remove time axis
+            state[name] = DataArray(value[0])  # remove time axis
         state['time'] = datetime64_to_datetime(dataset['time'][0].values)
         return state
 
@@ -286,7 +286,7 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
-            return_dict[name][i, :] = state[name][:]
+            return_dict[name][i] = state[name]
     return return_dict
 
 
-- 
2.43.0


From 1f968055bec6da1f76f063888832f52189d06d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:06 +0000
Subject: [PATCH 10/52] fix: NetCDFMonitor.write raised ValueError when there
 was nothing to write

---
 sympl/_components/netcdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 37a016b..b4715f4 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -171,6 +171,8 @@ class NetCDFMonitor(Monitor):
             If cached states do not all have the same quantities
             as every other cached and written state.
         """
+        if len(self._cached_state_dict) == 0:
+            return  # nothing to write
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
-- 
2.43.0


From 9e15daa753d17547199ff27202bbbdab6a7d7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:11 +0000
Subject: [PATCH 11/52] fix: NetCDFMonitor aliases could silently overwrite
 another quantity, or rename time

---
 sympl/_components/netcdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b4715f4..6c91a8f 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -99,13 +99,18 @@ class NetCDFMonitor(Monitor):
                 # example: if longname is "temperature", shortname is "T", and
                 #    full_var_name is "temperature_tendency_from_radiation", the
                 #    alias_name for the variable would be: "T_tendency_from_radiation"
-                if longname in full_var_name:
+                if longname in full_var_name and full_var_name != 'time':
                     alias_name = full_var_name.replace(longname, shortname)
                     if len(alias_name) == 0:  # raise exception if the alias is an empty str
                         errstr = 'Tried to alias variable "{}" to an empty string.\n' + \
                                  'xarray will not allow empty strings as variable names.'
                         raise ValueError(errstr.format(full_var_name))
-                    cache_state[alias_name] = cache_state.pop(full_var_name)
+                    value = cache_state.pop(full_var_name)
+                    if alias_name in cache_state:
+                        raise ValueError(
+                            'Tried to alias variable "{}" to "{}", which is already the name '
+                            'of another variable.'.format(full_var_name, alias_name))
+                    cache_state[alias_name] = value
 
         cache_state.pop('time')  # stored as key, not needed in state dict
         if state['time'] in self._cached_state_dict.keys():
-- 
2.43.0


From e28b770732a86486fd67f5e644974ead97472a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 12/52] fix: NetCDFMonitor cached references, so states
 modified in-place after store were written modified

---
 sympl/_components/netcdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 6c91a8f..29028c3 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -113,6 +113,10 @@ class NetCDFMonitor(Monitor):
                     cache_state[alias_name] = value
 
         cache_state.pop('time')  # stored as key, not needed in state dict
+        # copy data, as the caller may modify it in-place before it is written
+        cache_state = {
+            name: value.copy(deep=True) if isinstance(value, xr.DataArray) else value
+            for name, value in cache_state.items()}
         if state['time'] in self._cached_state_dict.keys():
             self._cached_state_dict[state['time']].update(cache_state)
         else:
-- 
2.43.0


From 1b673ccfb3659a413871f9b31d95571d2eee9b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 13/52] fix: states cached with different units were written
 under the units of the first one

---
 sympl/_components/netcdf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 29028c3..e550e8c 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -297,6 +297,12 @@ def combine_states(states):
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
+            if state[name].attrs.get('units') != return_dict[name].attrs.get('units'):
+                raise InvalidStateError(
+                    'Quantity {} was given with different units {} and {} at '
+                    'different times'.format(
+                        name, return_dict[name].attrs.get('units'),
+                        state[name].attrs.get('units')))
             return_dict[name][i] = state[name]
     return return_dict
 
-- 
2.43.0


From 19d118de1f0f658cb05d0460cd459566d78eef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 14/52] fix: RestartMonitor.load lost quantities with units of
 time or named like a dimension, and failed on timedelta times

---
 sympl/_components/netcdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index e550e8c..cd19192 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -257,11 +257,17 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        dataset = xr.open_dataset(self._filename)
+        # quantities with units of time must not be decoded to timedelta64
+        dataset = xr.open_dataset(self._filename, decode_timedelta=False)
         state = {}
-        for name, value in dataset.data_vars.items():
-            state[name] = DataArray(value[0])  # remove time axis
-        state['time'] = datetime64_to_datetime(dataset['time'][0].values)
+        for name in dataset.variables:
+            if name != 'time':
+                state[name] = DataArray(dataset[name][0])  # remove time axis
+        time = dataset['time'][0].values
+        if np.issubdtype(time.dtype, np.datetime64):
+            state['time'] = datetime64_to_datetime(time)
+        else:  # time was stored as a timedelta, in seconds
+            state['time'] = timedelta(seconds=float(time))
         return state
 
 
-- 
2.43.0


From 517acd95ce1f27bff43fe50ba8b452ea2a4e9aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 15/52] fix: registering a tracer twice duplicated it, and a
 rejected registration was kept

---
 sympl/_core/tracers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index ef67982..67ab39c 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -38,10 +38,11 @@ def register_tracer(name, units):
                 name, _tracer_unit_dict[name], units
             )
         )
-    _tracer_unit_dict[name] = units
-    _tracer_names.append(name)
     for packer in _packers:
         packer.ensure_tracer_not_in_outputs(name, units)
+    _tracer_unit_dict[name] = units
+    if name not in _tracer_names:
+        _tracer_names.append(name)
 
 
 def get_tracer_unit_dict():
-- 
2.43.0


From a1fe430ebe892436ded616f930656f1e1c452cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 16/52] fix: a tracer both prepended and registered was counted
 twice when allocating tracer arrays

---
 sympl/_core/init_np_arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/init_np_arrays.py b/sympl/_core/init_np_arrays.py
index c6298a2..bb78fdb 100644
--- a/sympl/_core/init_np_arrays.py
+++ b/sympl/_core/init_np_arrays.py
@@ -42,7 +42,8 @@ def initialize_numpy_arrays_with_properties(
         output_properties, input_properties, [])
     out_dict = {}
     tracer_names = list(get_tracer_names())
-    tracer_names.extend(entry[0] for entry in prepend_tracers)
+    tracer_names.extend(
+        entry[0] for entry in prepend_tracers if entry[0] not in tracer_names)
     for name, out_dims in dims_from_out_properties.items():
         if tracer_dims is None or name not in tracer_names:
             out_shape = []
-- 
2.43.0


From 2502bdd2e0715c1fe48fdabdaf529ec646321c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:50 +0000
Subject: [PATCH 17/52] fix: get_constants_string raised KeyError when the
 condensible lacks some constants

---
 sympl/_core/constants.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_core/constants.py b/sympl/_core/constants.py
index 15d2ae4..fc7ccea 100644
--- a/sympl/_core/constants.py
+++ b/sympl/_core/constants.py
@@ -10,10 +10,13 @@ class ConstantDict(dict):
     def _repr(self, sphinx=False):
         return_string = ''
         printed_names = set()
+        available_names = self.keys()
         for category, name_list in constant_names_by_category.items():
             if len(name_list) > 0:
                 return_string += category.title() + '\n'
             for name in name_list:
+                if name not in available_names:
+                    continue  # not defined for the current condensible
                 printed_names.add(name)
                 units = self[name].attrs['units']
                 units = units.replace('dimensionless', '')
-- 
2.43.0


From a8be7ea24c24bf415b5d530087ec0d374ca14b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:14 +0000
Subject: [PATCH 18/52] fix: Adams-Bashforth and Leapfrog mixed units when the
 units of a quantity change between steps

---
 sympl/_components/timesteppers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index c033ec7..5f395f1 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -141,8 +141,9 @@ class AdamsBashforth(TendencyStepper):
         self._ensure_constant_timestep(timestep)
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
-        convert_tendencies_units_for_state(tendencies, state)
         self._tendencies_list.append(tendencies)
+        for tendencies in self._tendencies_list:
+            convert_tendencies_units_for_state(tendencies, state)
         new_state = self._perform_step(state, timestep)
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
@@ -321,10 +322,13 @@ def step_leapfrog(
     """
     new_state = {}
     for key in tendencies.keys():
+        old_value = old_state[key]
+        if 'units' in getattr(old_value, 'attrs', {}) and 'units' in getattr(state[key], 'attrs', {}):
+            old_value = old_value.to_units(state[key].attrs['units'])
         new_state[key] = (
-            old_state[key] + 2*tendencies[key]*timestep.total_seconds())
+            old_value + 2*tendencies[key]*timestep.total_seconds())
         filter_influence = 0.5*asselin_strength*(
-            old_state[key] - 2*state[key] + new_state[key])
+            old_value - 2*state[key] + new_state[key])
         state[key] += alpha * filter_influence
         if alpha != 1.:
             new_state[key] += (alpha - 1.) * filter_influence
-- 
2.43.0


From 9a57ddb37263389c92a2ffb01c07e9790490e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 19/52] fix: tendencies_in_diagnostics raised for
 TendencySteppers of components which take the stepped quantity as input

---
 sympl/_core/tendencystepper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 65950c7..05f4aff 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -73,6 +73,12 @@ class TendencyStepper(Stepper):
                 return_value, self._tendency_properties)
         return return_value
 
+    def _insert_tendency_properties(self):
+        # the tendencies are already included by the diagnostic_properties and
+        # input_properties of this class, and are calculated whatever (compatible)
+        # units and dims its components use
+        return [self._get_tendency_name(name) for name in self.output_properties.keys()]
+
     def _insert_tendencies_to_diagnostic_properties(
             self, diagnostic_properties, tendency_properties):
         for quantity_name, properties in tendency_properties.items():
-- 
2.43.0


From b97bbd193923168c78bcea8b9eb803b89a36b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 20/52] fix: UpdateFrequencyWrapper handed out its cache, so
 modified results were returned later

---
 sympl/_core/wrappers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 90d6be2..cf7bcbe 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from .._core.base_components import (
     TendencyComponent, DiagnosticComponent, ImplicitTendencyComponent, Stepper
 )
@@ -258,13 +259,16 @@ class UpdateFrequencyWrapper(object):
                  self._update_timedelta)):
             if timestep is not None:
                 try:
-                    self._cached_output = self.component(state, timestep, **kwargs)
+                    output = self.component(state, timestep, **kwargs)
                 except TypeError:
-                    self._cached_output = self.component(state, **kwargs)
+                    output = self.component(state, **kwargs)
             else:
-                self._cached_output = self.component(state, **kwargs)
+                output = self.component(state, **kwargs)
+            # the caller is free to modify what it is given
+            self._cached_output = deepcopy(output)
             self._last_update_time = state['time']
-        return self._cached_output
+            return output
+        return deepcopy(self._cached_output)
 
     def __getattr__(self, item):
         return getattr(self.component, item)
-- 
2.43.0


From 2df62d0a62b0defa22c0adc6a7f17644e7881f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:55 +0000
Subject: [PATCH 21/52] fix: quantities of different shape were broadcast to
 the shape of earlier ones when written

---
 sympl/_components/netcdf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index cd19192..44a05e2 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -309,6 +309,11 @@ def combine_states(states):
                     'different times'.format(
                         name, return_dict[name].attrs.get('units'),
                         state[name].attrs.get('units')))
+            if state[name].sizes != states[0][name].sizes:
+                raise InvalidStateError(
+                    'Quantity {} was given with different shapes {} and {} at '
+                    'different times'.format(
+                        name, dict(states[0][name].sizes), dict(state[name].sizes)))
             return_dict[name][i] = state[name]
     return return_dict
 
@@ -352,6 +357,10 @@ def ensure_variable_is_compatible(variable, name, data):
         raise IOError(
             'Dimension in file is {} but on variable is {}'.format(
                 variable.dimensions, data.dims))
+    if variable.shape[1:] != data.shape[1:]:  # first dimension is time
+        raise IOError(
+            'Shape of {} in file is {} but on variable is {}'.format(
+                name, variable.shape[1:], data.shape[1:]))
     for key, value in data.attrs.items():
         if key not in variable.ncattrs():
             raise InvalidStateError(
-- 
2.43.0


From d44550779d0d281f4937cbb176ad1eac0766a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:01 +0000
Subject: [PATCH 22/52] fix: a rejected NetCDFMonitor.write left a time without
 data in the file

---
 sympl/_components/netcdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 44a05e2..4e3f455 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -185,13 +185,15 @@ class NetCDFMonitor(Monitor):
         with nc4.Dataset(self._filename, self._write_mode) as dataset:
             self._ensure_cached_state_keys_compatible_with_dataset(dataset)
             time_list, state_list = self._get_ordered_times_and_states()
+            # check everything before anything is appended to the file
+            all_states = combine_states(state_list)
             self._ensure_time_exists(dataset, time_list[0])
+            for name, value in all_states.items():
+                ensure_variable_exists(dataset, name, value)
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
             append_times_to_dataset(time_list, dataset, self._time_units)
-            all_states = combine_states(state_list)
             for name, value in all_states.items():
-                ensure_variable_exists(dataset, name, value)
                 dataset.variables[name][
                     it_start:it_end, ...] = value.values
         self._cached_state_dict = {}
-- 
2.43.0


From 92cc69c7b6a5af452bedad271e57e4563628715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 23/52] fix: timedelta times were truncated to a smaller
 integer because of rounding error

---
 sympl/_components/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 4e3f455..047a443 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -284,7 +284,8 @@ def append_times_to_dataset(times, dataset, time_units):
             times_list.append(time.total_seconds())
         time_array = from_unit_to_another(
             np.array(times_list), 'seconds', time_units)
-        dataset.variables['time'][it_start:it_end] = time_array[:]
+        # stored as integers, which must not be truncated because of rounding error
+        dataset.variables['time'][it_start:it_end] = np.rint(time_array)
     else:  # assume datetime
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
             times, dataset.variables['time'].units,
-- 
2.43.0


From e56de0544743b86fbdda00d6d89c6956403fb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:52 +0000
Subject: [PATCH 24/52] fix: RestartMonitor lost the fraction of a second of
 timedelta times

---
 sympl/_components/netcdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 047a443..7069595 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -240,7 +240,7 @@ class RestartMonitor(Monitor):
         new_filename = self._filename + '.new'
         if os.path.isfile(new_filename):
             raise IOError('Filename {} already exists'.format(new_filename))
-        netcdf_monitor = NetCDFMonitor(new_filename)
+        netcdf_monitor = NetCDFMonitor(new_filename, time_units='microseconds')
         netcdf_monitor.store(state)
         netcdf_monitor.write()
 
@@ -268,8 +268,8 @@ class RestartMonitor(Monitor):
         time = dataset['time'][0].values
         if np.issubdtype(time.dtype, np.datetime64):
             state['time'] = datetime64_to_datetime(time)
-        else:  # time was stored as a timedelta, in seconds
-            state['time'] = timedelta(seconds=float(time))
+        else:  # time was stored as a timedelta
+            state['time'] = timedelta(**{dataset['time'].attrs['units']: float(time)})
         return state
 
 
-- 
2.43.0


From 0f35892087360060bd848f83731774a1cd257884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 25/52] fix: the calendar of non-gregorian times was lost in
 files, and dates outside of datetime64 could not be loaded

---
 sympl/_components/netcdf.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 7069595..c56f36f 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -3,11 +3,11 @@ from .._core.exceptions import (
     DependencyError, InvalidStateError)
 from .._core.units import from_unit_to_another
 from .._core.dataarray import DataArray
-from .._core.util import same_list, datetime64_to_datetime
+from .._core.util import same_list
 import xarray as xr
 import os
 import numpy as np
-from datetime import timedelta
+from datetime import datetime, timedelta
 from six import string_types
 
 try:
@@ -212,7 +212,7 @@ class NetCDFMonitor(Monitor):
                     'units', '{} since {}'.format(
                         self._time_units, possible_reference_time))
                 dataset.variables['time'].setncattr(
-                    'calendar', 'proleptic_gregorian')
+                    'calendar', get_calendar(possible_reference_time))
 
 
 class RestartMonitor(Monitor):
@@ -259,20 +259,31 @@ class RestartMonitor(Monitor):
         state : dict
             The model state stored in the restart file.
         """
-        # quantities with units of time must not be decoded to timedelta64
-        dataset = xr.open_dataset(self._filename, decode_timedelta=False)
+        # quantities with units of time must not be decoded to timedelta64, and
+        # datetime64 cannot represent all dates and calendars
+        dataset = xr.open_dataset(
+            self._filename, decode_timedelta=False, use_cftime=True)
         state = {}
         for name in dataset.variables:
             if name != 'time':
                 state[name] = DataArray(dataset[name][0])  # remove time axis
-        time = dataset['time'][0].values
-        if np.issubdtype(time.dtype, np.datetime64):
-            state['time'] = datetime64_to_datetime(time)
-        else:  # time was stored as a timedelta
-            state['time'] = timedelta(**{dataset['time'].attrs['units']: float(time)})
+        time = dataset['time'][0].values.item()
+        if not hasattr(time, 'calendar'):  # time was stored as a timedelta
+            state['time'] = timedelta(**{dataset['time'].attrs['units']: time})
+        elif time.calendar == 'proleptic_gregorian':
+            state['time'] = datetime(
+                time.year, time.month, time.day, time.hour, time.minute,
+                time.second, time.microsecond)
+        else:
+            state['time'] = time
         return state
 
 
+def get_calendar(time):
+    """Returns the name of the calendar of a datetime or cftime object."""
+    return getattr(time, 'calendar', 'proleptic_gregorian')
+
+
 def append_times_to_dataset(times, dataset, time_units):
     """Appends the given list of times to the dataset. Assumes the time units
     in the NetCDF4 dataset correspond to the string time_units."""
@@ -289,7 +300,7 @@ def append_times_to_dataset(times, dataset, time_units):
     else:  # assume datetime
         dataset.variables['time'][it_start:it_end] = nc4.date2num(
             times, dataset.variables['time'].units,
-            calendar='proleptic_gregorian'
+            calendar=dataset.variables['time'].calendar
         )
 
 
-- 
2.43.0


From 327aeed713b2b2db9dad5375a59c63fd22984698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:34 +0000
Subject: [PATCH 26/52] fix: degree_north and degree_east were not defined, and
 degrees_north could not be converted

---
 sympl/_core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index d2977e8..bf3fbd7 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -14,8 +14,8 @@ class UnitRegistry(pint.UnitRegistry):
 
 
 unit_registry = UnitRegistry()
-unit_registry.define('degrees_north = degree_north = degree_N = degrees_N = degreeN = degreesN')
-unit_registry.define('degrees_east = degree_east = degree_E = degrees_E = degreeE = degreesE')
+unit_registry.define('degrees_north = degree = degree_N = degree_north = degrees_N = degreeN = degreesN')
+unit_registry.define('degrees_east = degree = degree_E = degree_east = degrees_E = degreeE = degreesE')
 unit_registry.define('percent = 0.01*count = %')
 
 
-- 
2.43.0


From b4bedff9412174fc88b4cd3abd95b49e922de98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:07 +0000
Subject: [PATCH 27/52] fix: results of ConstantTendencyComponent and
 ConstantDiagnosticComponent shared memory with the constants

---
 sympl/_components/basic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 0c627f4..ba03a7f 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -127,10 +127,10 @@ class ConstantTendencyComponent(TendencyComponent):
     def array_call(self, state):
         tendencies = {}
         for name, data_array in self.__tendencies.items():
-            tendencies[name] = data_array.values
+            tendencies[name] = data_array.values.copy()
         diagnostics = {}
         for name, data_array in self.__diagnostics.items():
-            diagnostics[name] = data_array.values
+            diagnostics[name] = data_array.values.copy()
         return tendencies, diagnostics
 
 
@@ -210,7 +210,7 @@ class ConstantDiagnosticComponent(DiagnosticComponent):
     def array_call(self, state):
         return_state = {}
         for name, data_array in self.__diagnostics.items():
-            return_state[name] = data_array.values
+            return_state[name] = data_array.values.copy()
         return return_state
 
 
-- 
2.43.0


From b421a4e63cf36ab4eedce8330c4a74edc55c1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 28/52] fix: ScalingWrapper did not pass the timestep on to an
 ImplicitTendencyComponent in an UpdateFrequencyWrapper

---
 sympl/_core/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index cf7bcbe..ca20ed1 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -171,7 +171,10 @@ class ScalingWrapper(object):
                 scale_factor = self._diagnostic_scale_factors[name]
                 diagnostics[name] = scale_quantity(diagnostics[name], scale_factor)
             return diagnostics, new_state
-        elif isinstance(self._component, TendencyComponent):
+        elif isinstance(self._component, TendencyComponent) and not (
+                # wrapped components can be called with or without a timestep
+                timestep is not None and
+                isinstance(self._component, ImplicitTendencyComponent)):
             tendencies, diagnostics = self._component(scaled_state)
             tendencies, diagnostics = tendencies.copy(), diagnostics.copy()
             for tend_field in self._tendency_scale_factors.keys():
-- 
2.43.0


From b4f4181ca9a17f0050631f1e5e9ad1a84aa20f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:24 +0000
Subject: [PATCH 29/52] fix: restore_dimensions silently rearranged arrays
 whose shape does not fit from_dims

---
 sympl/_core/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 2e3df85..28d1df2 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -168,7 +168,8 @@ def restore_dimensions(array, from_dims, result_like, result_attrs=None):
                 original_shape.append(len(result_like.coords[name]))
                 original_dims.append(name)
                 original_coords.append(result_like.coords[name])
-    if np.prod(array.shape) != np.prod(original_shape):
+    if tuple(array.shape) != get_final_shape(
+            result_like, from_dims, direction_to_names):
         raise ShapeMismatchError
     data_array = get_backend().get_container_type()(
         np.reshape(array, original_shape),
-- 
2.43.0


From 308d725d40c4f44521910d3da0810fdc43634411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:21 +0000
Subject: [PATCH 30/52] fix: datetime returned None for unknown calendars

---
 sympl/_core/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/time.py b/sympl/_core/time.py
index f0401d8..87a14a8 100644
--- a/sympl/_core/time.py
+++ b/sympl/_core/time.py
@@ -65,6 +65,8 @@ def datetime(
         return ct.DatetimeJulian(**kwargs)
     elif calendar.lower() == 'gregorian':
         return ct.DatetimeGregorian(**kwargs)
+    else:
+        raise ValueError('Unknown calendar {}'.format(calendar))
 
 
 __all__ = (datetime, timedelta)
-- 
2.43.0


From a0797cd703678200c325b15eeea3b26000b939e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:50 +0000
Subject: [PATCH 31/52] fix: is_valid_unit raised instead of returning False
 for malformed unit strings

---
 sympl/_core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_core/units.py b/sympl/_core/units.py
index bf3fbd7..66e0d1e 100644
--- a/sympl/_core/units.py
+++ b/sympl/_core/units.py
@@ -68,7 +68,7 @@ def is_valid_unit(unit_string):
         '°', 'degree')
     try:
         unit_registry(unit_string)
-    except pint.UndefinedUnitError:
+    except Exception:  # the error for a malformed string depends on what is wrong with it
         return False
     else:
         return True
-- 
2.43.0


From 35ee305136144cca0ca57563213bc0ebd06c63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:22 +0000
Subject: [PATCH 32/52] fix: NetCDFMonitor appended timedelta times in its own
 units to files that use other units

---
 sympl/_components/netcdf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index c56f36f..f3a1790 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -192,7 +192,7 @@ class NetCDFMonitor(Monitor):
                 ensure_variable_exists(dataset, name, value)
             it_start = dataset.dimensions['time'].size
             it_end = it_start + len(time_list)
-            append_times_to_dataset(time_list, dataset, self._time_units)
+            append_times_to_dataset(time_list, dataset)
             for name, value in all_states.items():
                 dataset.variables[name][
                     it_start:it_end, ...] = value.values
@@ -284,9 +284,9 @@ def get_calendar(time):
     return getattr(time, 'calendar', 'proleptic_gregorian')
 
 
-def append_times_to_dataset(times, dataset, time_units):
-    """Appends the given list of times to the dataset. Assumes the time units
-    in the NetCDF4 dataset correspond to the string time_units."""
+def append_times_to_dataset(times, dataset):
+    """Appends the given list of times to the dataset, in the time units of
+    the dataset."""
     it_start = dataset.dimensions['time'].size
     it_end = it_start + len(times)
     if isinstance(times[0], timedelta):
@@ -294,7 +294,7 @@ def append_times_to_dataset(times, dataset, time_units):
         for time in times:
             times_list.append(time.total_seconds())
         time_array = from_unit_to_another(
-            np.array(times_list), 'seconds', time_units)
+            np.array(times_list), 'seconds', dataset.variables['time'].units)
         # stored as integers, which must not be truncated because of rounding error
         dataset.variables['time'][it_start:it_end] = np.rint(time_array)
     else:  # assume datetime
-- 
2.43.0


From 748344fe5881883ad8931d76689d5cefe93cd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 33/52] fix: NetCDFMonitor wrote wrong times when timedeltas,
 dates or calendars were mixed in one file

---
 sympl/_components/netcdf.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index f3a1790..b51067c 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -213,6 +213,9 @@ class NetCDFMonitor(Monitor):
                         self._time_units, possible_reference_time))
                 dataset.variables['time'].setncattr(
                     'calendar', get_calendar(possible_reference_time))
+        else:
+            ensure_time_is_compatible(
+                dataset.variables['time'], possible_reference_time)
 
 
 class RestartMonitor(Monitor):
@@ -284,6 +287,24 @@ def get_calendar(time):
     return getattr(time, 'calendar', 'proleptic_gregorian')
 
 
+def ensure_time_is_compatible(variable, time):
+    """Raises InvalidStateError if time cannot be stored in the given time
+    Variable, because one is a timedelta and the other is a date, or because
+    they are dates of different calendars."""
+    file_has_dates = ' since ' in variable.units
+    if file_has_dates == isinstance(time, timedelta):
+        raise InvalidStateError(
+            'Time {!r} cannot be stored in a netCDF file whose time has '
+            'units {}'.format(time, variable.units))
+    if file_has_dates:
+        file_calendar = get_calendar(nc4.num2date(
+            0, variable.units, calendar=variable.calendar))
+        if file_calendar != get_calendar(time):
+            raise InvalidStateError(
+                'Time {!r} cannot be stored in a netCDF file with calendar '
+                '{}'.format(time, file_calendar))
+
+
 def append_times_to_dataset(times, dataset):
     """Appends the given list of times to the dataset, in the time units of
     the dataset."""
-- 
2.43.0


From f723c9c0ee5f2734d5b9b3b7232d98b7dfe9e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 34/52] fix: components using tracers without tracer_dims raise
 the intended ValueError

TendencyComponent and ImplicitTendencyComponent had no default tracer_dims,
so the check in their constructors ended in an AttributeError.
---
 sympl/_core/base_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index d40f250..89f998f 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -726,6 +726,7 @@ class TendencyComponent(object):
 
     name = None
     uses_tracers = False
+    tracer_dims = None
     tracer_tendency_time_unit = 's^-1'
 
     def __str__(self):
@@ -952,6 +953,7 @@ class ImplicitTendencyComponent(object):
 
     name = None
     uses_tracers = False
+    tracer_dims = None
     tracer_tendency_time_unit = 's^-1'
 
     def __str__(self):
-- 
2.43.0


From f00cc8d95105a027de6b57112d232b18fc3c4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:03 +0000
Subject: [PATCH 35/52] fix: str of a TendencyStepper raised IndexError

---
 sympl/_core/tendencystepper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/tendencystepper.py b/sympl/_core/tendencystepper.py
index 05f4aff..f2ab851 100644
--- a/sympl/_core/tendencystepper.py
+++ b/sympl/_core/tendencystepper.py
@@ -108,7 +108,8 @@ class TendencyStepper(Stepper):
     def __str__(self):
         return (
             'instance of {}(TendencyStepper)\n'
-            '    TendencyComponent components: {}'.format(self.prognostic_list)
+            '    TendencyComponent components: {}'.format(
+                self.__class__, self.prognostic_list)
         )
 
     def __repr__(self):
-- 
2.43.0


From 241a1a6395fd8ef7863b334ee86917000d7af152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 36/52] fix: tendencies of components which return integers and
 floats can be added

---
 sympl/_core/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sympl/_core/util.py b/sympl/_core/util.py
index 28d1df2..e120ffd 100644
--- a/sympl/_core/util.py
+++ b/sympl/_core/util.py
@@ -214,7 +214,9 @@ def update_dict_by_adding_another(dict1, dict2):
                         'quantity objects must have units property defined')
                 try:
                     dict1[key] += dict2[key].to_units(dict1[key].attrs['units'])
-                except ValueError:  # dict1[key] is missing a dimension present in dict2[key]
+                except (ValueError, TypeError):
+                    # dict1[key] is missing a dimension present in dict2[key], or cannot
+                    # hold the sum (for example an integer array cannot hold floats)
                     dict1[key] = dict1[key] + dict2[key].to_units(dict1[key].attrs['units'])
             else:
                 dict1[key] += dict2[key]  # += is in-place addition operator
-- 
2.43.0


From 4b214df2156a3b536fb6201cb412fe6481d33c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 37/52] fix: a failed step of AdamsBashforth or Leapfrog leaves
 the stepper and the state as they were

---
 sympl/_components/timesteppers.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 5f395f1..0d8140b 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -142,9 +142,14 @@ class AdamsBashforth(TendencyStepper):
         state = state.copy()
         tendencies, diagnostics = self.prognostic(state, timestep)
         self._tendencies_list.append(tendencies)
-        for tendencies in self._tendencies_list:
-            convert_tendencies_units_for_state(tendencies, state)
-        new_state = self._perform_step(state, timestep)
+        try:
+            for tendencies in self._tendencies_list:
+                convert_tendencies_units_for_state(tendencies, state)
+            new_state = self._perform_step(state, timestep)
+        except Exception:
+            self._tendencies_list.pop()  # the step has not been taken
+            raise
+        self._timestep = timestep
         copy_untouched_quantities(state, new_state)
         if len(self._tendencies_list) == self._order:
             self._tendencies_list.pop(0)  # remove the oldest entry
@@ -168,9 +173,7 @@ class AdamsBashforth(TendencyStepper):
         return new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Adams-Bashforth time stepping')
 
@@ -272,14 +275,13 @@ class Leapfrog(TendencyStepper):
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
         self._old_state = state
+        self._timestep = timestep
         for key in original_state.keys():
             original_state[key] = state[key]  # allow filtering to be applied
         return diagnostics, new_state
 
     def _ensure_constant_timestep(self, timestep):
-        if self._timestep is None:
-            self._timestep = timestep
-        elif self._timestep != timestep:
+        if self._timestep is not None and self._timestep != timestep:
             raise ValueError(
                 'timestep must be constant for Leapfrog time stepping')
 
@@ -321,14 +323,17 @@ def step_leapfrog(
         Model state at the next timestep.
     """
     new_state = {}
+    filter_influences = {}
     for key in tendencies.keys():
         old_value = old_state[key]
         if 'units' in getattr(old_value, 'attrs', {}) and 'units' in getattr(state[key], 'attrs', {}):
             old_value = old_value.to_units(state[key].attrs['units'])
         new_state[key] = (
             old_value + 2*tendencies[key]*timestep.total_seconds())
-        filter_influence = 0.5*asselin_strength*(
+        filter_influences[key] = 0.5*asselin_strength*(
             old_value - 2*state[key] + new_state[key])
+    # nothing is modified until all quantities have been stepped
+    for key, filter_influence in filter_influences.items():
         state[key] += alpha * filter_influence
         if alpha != 1.:
             new_state[key] += (alpha - 1.) * filter_influence
-- 
2.43.0


From 04cf2758d65eef54f93ae0c7da9f954d665631f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 38/52] fix: NetCDFMonitor no longer truncates values when the
 type of a quantity changes

---
 sympl/_components/netcdf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index b51067c..62e274d 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -333,8 +333,11 @@ def combine_states(states):
     return_dict = {}
     n_states = len(states)
     for name, value in states[0].items():
+        # a type which can hold the values of all states
+        dtype = np.result_type(*[
+            state[name].values.dtype for state in states if name in state])
         return_dict[name] = DataArray(
-            np.zeros((n_states,) + value.shape, dtype=value.values.dtype),
+            np.zeros((n_states,) + value.shape, dtype=dtype),
             dims=('time',) + value.dims, attrs=value.attrs)
     for i, state in enumerate(states):
         for name in state.keys():
@@ -396,6 +399,10 @@ def ensure_variable_is_compatible(variable, name, data):
         raise IOError(
             'Shape of {} in file is {} but on variable is {}'.format(
                 name, variable.shape[1:], data.shape[1:]))
+    if not np.can_cast(data.values.dtype, variable.dtype, 'same_kind'):
+        raise InvalidStateError(
+            'Values of {} in file have type {}, which cannot hold values of '
+            'type {}'.format(name, variable.dtype, data.values.dtype))
     for key, value in data.attrs.items():
         if key not in variable.ncattrs():
             raise InvalidStateError(
-- 
2.43.0


From 83b4090bb068c5e3500921f8e3dbc243a2837a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:15 +0000
Subject: [PATCH 39/52] fix: prescribed and relaxation components advertise the
 tendencies in their diagnostics

---
 sympl/_components/basic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index ba03a7f..414e863 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -78,6 +78,9 @@ class ConstantTendencyComponent(TendencyComponent):
                 "dims": data_array.dims,
                 "units": data_array.attrs["units"],
             }
+        if self.tendencies_in_diagnostics:
+            for name, properties in self.tendency_properties.items():
+                return_dict[self._get_tendency_name(name)] = properties
         return return_dict
 
     def __init__(self, tendencies, diagnostics=None, **kwargs):
@@ -291,7 +294,11 @@ class RelaxationTendencyComponent(TendencyComponent):
 
     @property
     def diagnostic_properties(self):
-        return {}
+        return_dict = {}
+        if self.tendencies_in_diagnostics:
+            for name, properties in self.tendency_properties.items():
+                return_dict[self._get_tendency_name(name)] = properties
+        return return_dict
 
     def __init__(self, quantity_name, units, **kwargs):
         """
-- 
2.43.0


From 0ff757edd1628449f401e2fc2890a11b7771374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 40/52] fix: TimeDifferencingWrapper gives the tendencies of
 tracers

---
 sympl/_components/basic.py | 21 +++++++++++++++++----
 sympl/_core/tracers.py     | 21 +++++++++++++++++++++
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index 414e863..cfefd31 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -4,6 +4,7 @@ from .._core.base_components import (
     ImplicitTendencyComponent,
     TendencyComponent,
 )
+from .._core.tracers import get_tracer_names_of_component
 from .._core.units import unit_registry as ureg
 
 
@@ -397,6 +398,14 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
     def diagnostic_properties(self):
         return self._implicit.diagnostic_properties
 
+    @property
+    def uses_tracers(self):
+        return getattr(self._implicit, 'uses_tracers', False)
+
+    @property
+    def tracer_dims(self):
+        return getattr(self._implicit, 'tracer_dims', None)
+
     def __init__(self, implicit, **kwargs):
         """
         Initializes the TimeDifferencingWrapper. Some kwargs of Stepper
@@ -418,9 +427,11 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         diagnostics, new_state = self._implicit(state, timestep)
         tendencies = {}
         timestep_seconds = timestep.total_seconds()
+        tracer_names = get_tracer_names_of_component(self._implicit)
         for varname, data_array in new_state.items():
             if isinstance(data_array, get_backend().get_container_type()):
-                if varname in self._implicit.output_properties.keys():
+                if (varname in self._implicit.output_properties.keys()
+                        or varname in tracer_names):
                     if varname not in state.keys():
                         raise RuntimeError(
                             "Cannot calculate tendency for {} because it is not"
@@ -433,9 +444,11 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
                         tendency.attrs["units"] = "s^-1"
                     else:
                         tendency.attrs["units"] = data_array.attrs["units"] + " s^-1"
-                    tendencies[varname] = tendency.to_units(
-                        self._implicit.output_properties[varname]["units"] + " s^-1"
-                    )
+                    if varname in self._implicit.output_properties.keys():
+                        tendency = tendency.to_units(
+                            self._implicit.output_properties[varname]["units"] + " s^-1"
+                        )
+                    tendencies[varname] = tendency
             elif varname != "time":
                 raise ValueError(
                     "Wrapped implicit gave an output {} of type {}, but should "
diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index 67ab39c..d1c932f 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -94,6 +94,27 @@ def get_tracer_input_properties(prepend_tracers, tracer_dims):
     return tracer_properties
 
 
+def get_tracer_names_of_component(component):
+    """
+    Args:
+        component: A component, or an object composed of components such as a
+            composite or TendencyStepper.
+
+    Returns:
+        names (tuple of str): The names of the tracers for which the component
+            returns values, empty if it does not use tracers.
+    """
+    names = []
+    if getattr(component, 'uses_tracers', False):
+        names.extend(
+            name for name, _ in (getattr(component, 'prepend_tracers', None) or ()))
+        names.extend(_tracer_names)
+    for attribute in ('prognostic_list', 'component_list'):
+        for member in getattr(component, attribute, ()):
+            names.extend(get_tracer_names_of_component(member))
+    return tuple(names)
+
+
 def get_quantity_dims(tracer_dims):
     if 'tracer' not in tracer_dims:
         raise ValueError("Tracer dims must include a dimension named 'tracer'")
-- 
2.43.0


From 803e391d227868ed81323bf9b846e388ab4028b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 41/52] fix: ScalingWrapper can be used with components that
 use tracers

---
 sympl/_core/wrappers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index ca20ed1..9d7e6db 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -147,9 +147,8 @@ class ScalingWrapper(object):
         *args
             The return values of the underlying component.
         """
-        scaled_state = {}
-        if 'time' in state:
-            scaled_state['time'] = state['time']
+        # the component may use more than its input_properties, such as tracers
+        scaled_state = dict(state)
 
         for input_field in self.input_properties.keys():
             if input_field in self._input_scale_factors:
-- 
2.43.0


From 5126d77a2472fa538b9f8f8738a37680e633844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 42/52] fix: wrappers can be copied and pickled

---
 sympl/_components/basic.py | 2 +-
 sympl/_core/wrappers.py    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/basic.py b/sympl/_components/basic.py
index cfefd31..a05aeb3 100644
--- a/sympl/_components/basic.py
+++ b/sympl/_components/basic.py
@@ -462,7 +462,7 @@ class TimeDifferencingWrapper(ImplicitTendencyComponent):
         raise NotImplementedError()
 
     def __getattr__(self, item):
-        if item in ("outputs", "output_properties"):
+        if item in ("outputs", "output_properties", "_implicit"):
             raise AttributeError()
         else:
             return getattr(self._implicit, item)
diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index 9d7e6db..db9a17b 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -128,6 +128,8 @@ class ScalingWrapper(object):
                     ", but was given a scale factor.".format(field, properties_name))
 
     def __getattr__(self, item):
+        if item == '_component':  # not set yet, e.g. while being copied
+            raise AttributeError(item)
         return getattr(self._component, item)
 
     def __call__(self, state, timestep=None):
@@ -273,4 +275,6 @@ class UpdateFrequencyWrapper(object):
         return deepcopy(self._cached_output)
 
     def __getattr__(self, item):
+        if item == 'component':  # not set yet, e.g. while being copied
+            raise AttributeError(item)
         return getattr(self.component, item)
-- 
2.43.0


From 5f5e19a29b32ffc26a40bb23b8a6de5a7edfa453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 43/52] fix: Leapfrog filters states of integers

---
 sympl/_components/timesteppers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index 0d8140b..fee6231 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -334,7 +334,10 @@ def step_leapfrog(
             old_value - 2*state[key] + new_state[key])
     # nothing is modified until all quantities have been stepped
     for key, filter_influence in filter_influences.items():
-        state[key] += alpha * filter_influence
+        try:
+            state[key] += alpha * filter_influence
+        except TypeError:  # integer values cannot be filtered in place
+            state[key] = state[key] + alpha * filter_influence
         if alpha != 1.:
             new_state[key] += (alpha - 1.) * filter_influence
     return state, new_state
-- 
2.43.0


From 1b4c9a24375b80c7965d575193a21a680f38b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:42 +0000
Subject: [PATCH 44/52] fix: interpret tracer_tendency_time_unit as documented,
 a unit of time such as 's'

---
 sympl/_core/base_components.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index 89f998f..a171254 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -15,6 +15,18 @@ except ImportError:
     from inspect import getargspec
 
 
+def get_per_time_unit(time_unit):
+    """
+    Returns the unit which multiplies the units of a tracer in its tendency,
+    given the unit of time of the tendency. A unit which is already an inverse
+    time, such as 's^-1', is returned as is.
+    """
+    if units_are_compatible(time_unit, 's'):
+        return '{}^-1'.format(time_unit)
+    else:
+        return time_unit
+
+
 def option_or_default(option, default):
     if option is None:
         return default
@@ -727,7 +739,7 @@ class TendencyComponent(object):
     name = None
     uses_tracers = False
     tracer_dims = None
-    tracer_tendency_time_unit = 's^-1'
+    tracer_tendency_time_unit = 's'
 
     def __str__(self):
         return (
@@ -864,7 +876,8 @@ class TendencyComponent(object):
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
-                multiply_unit=self.tracer_tendency_time_unit)
+                multiply_unit=get_per_time_unit(
+                    self.tracer_tendency_time_unit))
         else:
             out_tendencies = {}
         self._tendency_checker.check_tendencies(raw_tendencies)
@@ -954,7 +967,7 @@ class ImplicitTendencyComponent(object):
     name = None
     uses_tracers = False
     tracer_dims = None
-    tracer_tendency_time_unit = 's^-1'
+    tracer_tendency_time_unit = 's'
 
     def __str__(self):
         return (
@@ -1091,7 +1104,8 @@ class ImplicitTendencyComponent(object):
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
-                multiply_unit=self.tracer_tendency_time_unit)
+                multiply_unit=get_per_time_unit(
+                    self.tracer_tendency_time_unit))
         else:
             out_tendencies = {}
         self._tendency_checker.check_tendencies(raw_tendencies)
-- 
2.43.0


From 5cfe14037a5eae958e59113878abecca2110dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:21 +0000
Subject: [PATCH 45/52] fix: Leapfrog returns a new state with the dimension
 order of the state it is given

---
 sympl/_components/timesteppers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index fee6231..c8c8a23 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -328,6 +328,9 @@ def step_leapfrog(
         old_value = old_state[key]
         if 'units' in getattr(old_value, 'attrs', {}) and 'units' in getattr(state[key], 'attrs', {}):
             old_value = old_value.to_units(state[key].attrs['units'])
+        dims, old_dims = getattr(state[key], 'dims', ()), getattr(old_value, 'dims', ())
+        if dims != old_dims and set(dims) == set(old_dims):
+            old_value = old_value.transpose(*dims)  # the new state is ordered like the state
         new_state[key] = (
             old_value + 2*tendencies[key]*timestep.total_seconds())
         filter_influences[key] = 0.5*asselin_strength*(
-- 
2.43.0


From 469acef1c12c2c0a624fab0ea0be752e1a7a3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:02 +0000
Subject: [PATCH 46/52] fix: RestartMonitor.load reads the whole file, which
 was read when values were first used

---
 sympl/_components/netcdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 62e274d..6bd031b 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -264,8 +264,9 @@ class RestartMonitor(Monitor):
         """
         # quantities with units of time must not be decoded to timedelta64, and
         # datetime64 cannot represent all dates and calendars
-        dataset = xr.open_dataset(
-            self._filename, decode_timedelta=False, use_cftime=True)
+        with xr.open_dataset(
+                self._filename, decode_timedelta=False, use_cftime=True) as dataset:
+            dataset.load()  # the file may change later
         state = {}
         for name in dataset.variables:
             if name != 'time':
-- 
2.43.0


From 1998f4f6ac12a91098d11c52004175a0d4f3946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 47/52] fix: tracer arrays with more rows than there are
 tracers were silently truncated

---
 sympl/_core/tracers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sympl/_core/tracers.py b/sympl/_core/tracers.py
index d1c932f..aa19949 100644
--- a/sympl/_core/tracers.py
+++ b/sympl/_core/tracers.py
@@ -244,6 +244,14 @@ class TracerPacker(object):
         """
         tracer_properties = get_tracer_input_properties(
             self._prepend_tracers, self._tracer_quantity_dims)
+        tracer_shape = np.shape(tracer_array)
+        if len(self.tracer_names) > 0 and (
+                len(tracer_shape) != len(self._tracer_dims) or
+                tracer_shape[self._tracer_index] != len(self.tracer_names)):
+            raise InvalidPropertyDictError(
+                'Returned tracer array has shape {}, but dims are {} and there '
+                'are {} tracers'.format(
+                    tracer_shape, self._tracer_dims, len(self.tracer_names)))
         raw_state = {}
         for i, name in enumerate(self.tracer_names):
             tracer_slice = [slice(0, d) for d in tracer_array.shape]
-- 
2.43.0


From d763bfdad064bafb1318d836a172089106758c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 48/52] fix: components modified the dictionaries returned by
 array_call, which failed when these were returned again

---
 sympl/_core/base_components.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index a171254..bb78502 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -642,6 +642,8 @@ class Stepper(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_diagnostics, raw_new_state = self.array_call(raw_state, timestep)
+        # the dictionaries may be kept by the component
+        raw_diagnostics, raw_new_state = dict(raw_diagnostics), dict(raw_new_state)
         if self.uses_tracers:
             new_state = self._tracer_packer.unpack(
                 raw_new_state.pop('tracers'), state)
@@ -873,6 +875,7 @@ class TendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state)
+        raw_tendencies = dict(raw_tendencies)  # may be kept by the component
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
@@ -1101,6 +1104,7 @@ class ImplicitTendencyComponent(object):
             raw_state['tracers'] = self._tracer_packer.pack(state)
         raw_state['time'] = state['time']
         raw_tendencies, raw_diagnostics = self.array_call(raw_state, timestep)
+        raw_tendencies = dict(raw_tendencies)  # may be kept by the component
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
                 raw_tendencies.pop('tracers'), state,
-- 
2.43.0


From d75bc830082ce85303f2733fa3fdbedbf1ecec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:19 +0000
Subject: [PATCH 49/52] fix: a component that does not return its tracers
 raises ComponentMissingOutputError

---
 sympl/_core/base_components.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sympl/_core/base_components.py b/sympl/_core/base_components.py
index bb78502..931203d 100644
--- a/sympl/_core/base_components.py
+++ b/sympl/_core/base_components.py
@@ -27,6 +27,15 @@ def get_per_time_unit(time_unit):
         return time_unit
 
 
+def pop_tracers(component, raw_outputs):
+    """Removes the array of tracers from raw_outputs and returns it."""
+    if 'tracers' not in raw_outputs:
+        raise ComponentMissingOutputError(
+            'Component {} uses tracers, but did not return "tracers"'.format(
+                component.__class__.__name__))
+    return raw_outputs.pop('tracers')
+
+
 def option_or_default(option, default):
     if option is None:
         return default
@@ -646,7 +655,7 @@ class Stepper(object):
         raw_diagnostics, raw_new_state = dict(raw_diagnostics), dict(raw_new_state)
         if self.uses_tracers:
             new_state = self._tracer_packer.unpack(
-                raw_new_state.pop('tracers'), state)
+                pop_tracers(self, raw_new_state), state)
         else:
             new_state = {}
         self._diagnostic_checker.check_diagnostics(raw_diagnostics)
@@ -878,7 +887,7 @@ class TendencyComponent(object):
         raw_tendencies = dict(raw_tendencies)  # may be kept by the component
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
-                raw_tendencies.pop('tracers'), state,
+                pop_tracers(self, raw_tendencies), state,
                 multiply_unit=get_per_time_unit(
                     self.tracer_tendency_time_unit))
         else:
@@ -1107,7 +1116,7 @@ class ImplicitTendencyComponent(object):
         raw_tendencies = dict(raw_tendencies)  # may be kept by the component
         if self.uses_tracers:
             out_tendencies = self._tracer_packer.unpack(
-                raw_tendencies.pop('tracers'), state,
+                pop_tracers(self, raw_tendencies), state,
                 multiply_unit=get_per_time_unit(
                     self.tracer_tendency_time_unit))
         else:
-- 
2.43.0


From 49d6caee514581ab537616a040f154085bcbda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 50/52] fix: Leapfrog keeps its own copy of the previous state,
 which changed with the caller's arrays

---
 sympl/_components/timesteppers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sympl/_components/timesteppers.py b/sympl/_components/timesteppers.py
index c8c8a23..16b67f3 100644
--- a/sympl/_components/timesteppers.py
+++ b/sympl/_components/timesteppers.py
@@ -274,7 +274,10 @@ class Leapfrog(TendencyStepper):
                 self._old_state, state, tendencies, timestep,
                 asselin_strength=self._asselin_strength, alpha=self._alpha)
         copy_untouched_quantities(state, new_state)
-        self._old_state = state
+        # the arrays are the caller's, who may change them before the next call
+        self._old_state = {
+            name: value.copy() if hasattr(value, 'copy') else value
+            for name, value in state.items()}
         self._timestep = timestep
         for key in original_state.keys():
             original_state[key] = state[key]  # allow filtering to be applied
-- 
2.43.0


From cee4d9b35e83b66deb678fd89c852d91990193d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:48 +0000
Subject: [PATCH 51/52] fix: ScalingWrapper keeps its own factors, which
 changed with the dictionaries it was given

---
 sympl/_core/wrappers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sympl/_core/wrappers.py b/sympl/_core/wrappers.py
index db9a17b..ab63c50 100644
--- a/sympl/_core/wrappers.py
+++ b/sympl/_core/wrappers.py
@@ -87,7 +87,7 @@ class ScalingWrapper(object):
                     raise ValueError(
                         "{} is not a valid input quantity.".format(input_field))
 
-            self._input_scale_factors = input_scale_factors
+            self._input_scale_factors = dict(input_scale_factors)
 
         self._diagnostic_scale_factors = dict()
         if diagnostic_scale_factors is not None:
@@ -97,7 +97,7 @@ class ScalingWrapper(object):
                     'diagnostic output.')
             self._ensure_fields_have_properties(
                 diagnostic_scale_factors, component.diagnostic_properties, 'diagnostic')
-            self._diagnostic_scale_factors = diagnostic_scale_factors
+            self._diagnostic_scale_factors = dict(diagnostic_scale_factors)
 
         self._output_scale_factors = dict()
         if output_scale_factors is not None:
@@ -107,7 +107,7 @@ class ScalingWrapper(object):
                     'output_properties.')
             self._ensure_fields_have_properties(
                 output_scale_factors, component.output_properties, 'output')
-            self._output_scale_factors = output_scale_factors
+            self._output_scale_factors = dict(output_scale_factors)
 
         self._tendency_scale_factors = dict()
         if tendency_scale_factors is not None:
@@ -117,7 +117,7 @@ class ScalingWrapper(object):
                     'not output tendencies.')
             self._ensure_fields_have_properties(
                 tendency_scale_factors, component.tendency_properties, 'tendency')
-            self._tendency_scale_factors = tendency_scale_factors
+            self._tendency_scale_factors = dict(tendency_scale_factors)
 
     def _ensure_fields_have_properties(
             self, scale_factors, properties, properties_name):
-- 
2.43.0


From 072cc86d73abaa8dd7e356a0da2b30b85475a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:52 +0000
Subject: [PATCH 52/52] fix: NetCDFMonitor keeps its own aliases, which changed
 with the dictionary it was given

---
 sympl/_components/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sympl/_components/netcdf.py b/sympl/_components/netcdf.py
index 6bd031b..6963fe6 100644
--- a/sympl/_components/netcdf.py
+++ b/sympl/_components/netcdf.py
@@ -54,7 +54,7 @@ class NetCDFMonitor(Monitor):
         if aliases is None:
             self._aliases = {}
         else:
-            self._aliases = aliases
+            self._aliases = dict(aliases)
         for key, val in self._aliases.items():
             if not isinstance(key, string_types):
                 raise TypeError("Bad alias key type: {}. Expected string.".format(type(key)))
-- 
2.43.0

