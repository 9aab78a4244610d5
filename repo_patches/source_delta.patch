From a0bf2357ad0c183e484a06f087bbdc44710f20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 01/53] fix: FlowSystem takes last_time_step_hours as hours,
 not as a count of the time axis unit

---
 flixOpt/flow_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..de19af3 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -53,7 +53,9 @@ class FlowSystem:
             self.time_series = self.time_series.astype('datetime64[us]')
 
         self.last_time_step_hours = (
-            self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
+            self.time_series[-1] - self.time_series[-2]
+            if last_time_step_hours is None
+            else np.timedelta64(int(round(last_time_step_hours * 3600e6)), 'us')
         )
         self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
-- 
2.43.0


From 96c29d6903c2c6b0a57f52a61af8fd21e0745ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 02/53] fix: Storage 'lastValueOfSim' closes the cycle at the
 final charge state, not one step before it

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From d0334e575a2ed08ca70f0fa8787c20183d5409c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 03/53] fix: Storage respects its final charge state limits
 when the initial charge state is free

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From 888f90e6b5a2292235473e5cc4b9c3d8cad978f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 04/53] fix: round binary results instead of truncating
 0.999999 to 0

---
 flixOpt/math_modeling.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..e2ac9fe 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1012,12 +1012,10 @@ class PyomoModel(ModelingLanguage):
         math_model.result_of_objective = self.model.objective.expr()
         for variable in math_model.variables:
             raw_results = self.mapping[variable].get_values().values()  # .values() of dict, because {0:0.1, 1:0.3,...}
-            if variable.is_binary:
-                dtype = np.int8  # geht das vielleicht noch kleiner ???
-            else:
-                dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:  # solvers return binaries within their integrality tolerance, e.g. 0.9999999
+                result = np.rint(result).astype(np.int8)  # geht das vielleicht noch kleiner ???
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 79f18c8c3d8fb149fda76ad7b4de8033dd403f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 05/53] fix: effect values given for the default effect are no
 longer removed from a shared dict

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..b2bacf1 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,7 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
-        standard_value = nested_values.pop(None, None)
+        standard_value = nested_values.get(None)  # don't alter the dict, it might be used for other elements too
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
             transformed_values[None] = _create_time_series(
-- 
2.43.0


From a521d1dafb7d7e5d5672fbbb1e5b4affe3b488e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 06/53] fix: OnOffParameters accepts arrays as effects per
 switch-on and per running hour

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..1876f86 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From d6100a3877b6c3532fdc0f43e343017ce6701f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 07/53] fix: an optional investment can be declined although a
 minimum flow or charge state belongs to it

---
 flixOpt/components.py | 5 ++++-
 flixOpt/elements.py   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..069db41 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -523,8 +523,11 @@ class StorageModel(ComponentModel):
                 relative_upper_bound * self.element.capacity_in_flow_hours,
             )
         else:
+            minimum_size = self.element.capacity_in_flow_hours.minimum_size
+            if self.element.capacity_in_flow_hours.optional:  # not investing is always possible
+                minimum_size = 0
             return (
-                relative_lower_bound * self.element.capacity_in_flow_hours.minimum_size,
+                relative_lower_bound * minimum_size,
                 relative_upper_bound * self.element.capacity_in_flow_hours.maximum_size,
             )
 
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..46ebc76 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -307,7 +307,9 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            lower_bound=self.absolute_flow_rate_bounds[0]
+            if self.element.on_off_parameters is None and not (self.with_investment and self.element.size.optional)
+            else 0,
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
-- 
2.43.0


From b20098e9aa06acdea7d848182564233a2d83f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 08/53] fix: Flow accepts TimeSeriesData as relative_minimum
 and relative_maximum

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 46ebc76..3b15f77 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -258,7 +258,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            value.data if isinstance(value, TimeSeriesData) else value
+            for value in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(np.asarray(relative_minimum) > np.asarray(relative_maximum)):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From d82432ae665c973b0e3fbed9530c2c887860323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 09/53] fix: CHP, CoolingTower and HeatPumpWithSource accept
 TimeSeriesData like the other converters

---
 flixOpt/linear_converters.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..c1e6e81 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -3,7 +3,7 @@ This Module contains high-level classes to easily model a FlowSystem.
 """
 
 import logging
-from typing import Dict, Optional
+from typing import Callable, Dict, Optional
 
 import numpy as np
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: 1, Q_th: _derive(lambda demand: -demand, specific_electricity_demand)}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,7 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        check_bounds(_derive(lambda el: el + _data_of(eta_th), eta_el), 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +265,7 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        heat_source = {Q_ab: _derive(lambda cop: cop / (cop - 1), COP), Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +284,18 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _data_of(value: Numeric_TS):
+    """The plain data of a value, which might be wrapped in TimeSeriesData"""
+    return value.data if isinstance(value, TimeSeriesData) else value
+
+
+def _derive(function: Callable, value: Numeric_TS) -> Numeric_TS:
+    """Computes a value from another one. If that is TimeSeriesData, its aggregation settings are kept."""
+    if isinstance(value, TimeSeriesData):
+        return TimeSeriesData(function(value.data), agg_group=value.agg_group, agg_weight=value.agg_weight)
+    return function(value)
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
-- 
2.43.0


From 56ccab0abcaa3509e43e6d55e6e52c21f130bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 10/53] fix: Transmission with absolute_losses=0 can be modeled

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 069db41..a7bb136 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if in_flow.model._on is not None and self.element.absolute_losses is not None:
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From 82b8f5cee997223dffabe740f3a544196cec1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 11/53] fix: run the plausibility checks of Transmission, which
 were defined but never called

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index a7bb136..0d299c9 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -291,6 +291,8 @@ class Transmission(Component):
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
 
+        self._plausibility_checks()
+
     def _plausibility_checks(self):
         # check buses:
         if self.in2 is not None:
-- 
2.43.0


From 3344f94865090db49bebc55d463b95919d07eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 12/53] fix: reject a Transmission whose second direction lacks
 its input or output

---
 flixOpt/components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 0d299c9..60c8bad 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -294,6 +294,9 @@ class Transmission(Component):
         self._plausibility_checks()
 
     def _plausibility_checks(self):
+        # check that both directions are complete. Else out2 would supply energy without any input
+        if (self.in2 is None) != (self.out2 is None):
+            raise ValueError(f'Transmission {self.label}: in2 and out2 can only be used together.')
         # check buses:
         if self.in2 is not None:
             assert self.in2.bus == self.out1.bus, (
-- 
2.43.0


From b9e8fc96a1a3a5ae883b794f39bca2ce57de602a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 13/53] fix: count only the trailing previous on/off steps as
 the previous duration

---
 flixOpt/features.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..22f0f08 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -603,7 +603,11 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = (
+            len(binary_values) - zero_indices[-1] - 1 if zero_indices.size > 0 else len(binary_values)
+        )
+        if length_of_last_duration == 0:
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -612,7 +616,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From 9d5950870bd4c85c2d62994d95a4bce23f89bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 14/53] fix: combine the previous flow rates of several flows
 per step instead of reading them as a time series

---
 flixOpt/features.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 22f0f08..6e923f2 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -562,12 +562,12 @@ class OnOffModel(ElementModel):
 
         if not previous_values:
             return np.array([0])
-        else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+        else:  # on, if any of the variables was on. All histories end with the step right before the first time step
+            previous_on = [~np.isclose(np.atleast_1d(values), 0, atol=epsilon) for values in previous_values]
+            any_on = np.zeros(max(len(on) for on in previous_on), dtype=int)
+            for on in previous_on:
+                any_on[len(any_on) - len(on) :] |= on
+            return any_on
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From 9c723d3251022db0b47f96cc5fcbda0da8b9a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 15/53] fix: translate sums over a part of the indices of a
 variable correctly to pyomo

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index e2ac9fe..973b799 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1127,7 +1127,7 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            return sum(pyomo_variable[index] * summand.factor_vec[j] for j, index in enumerate(summand.indices))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From dda295d2857d9cc489a43026078f02d19310c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 16/53] fix: a size of 0 means 0 and not the default size

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 3b15f77..8b89126 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -217,7 +217,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = CONFIG.modeling.BIG if size is None else size  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 6e923f2..5863bdf 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 1876f86..ef8695a 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = CONFIG.modeling.BIG if maximum_size is None else maximum_size  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self._minimum_size if self.fixed_size is None else self.fixed_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self._maximum_size if self.fixed_size is None else self.fixed_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From 6c8dede1810a7a45a257be2bcf7e5a8bc5901afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 17/53] fix: results() and the saved files belong to the latest
 solve of a calculation

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..79ff6e4 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -166,6 +166,7 @@ class FullCalculation(Calculation):
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
         self.system_model.solve(solver)
+        self._results = None  # results of an earlier solve are outdated
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
@@ -296,6 +297,7 @@ class AggregatedCalculation(Calculation):
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
         self.system_model.solve(solver)
+        self._results = None  # results of an earlier solve are outdated
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
-- 
2.43.0


From ed4ea66b07963ee50b9b92f3dc2af8994065051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 18/53] fix: SegmentedCalculation hands over the values at the
 start of the next segment if the overlap is cut off

---
 flixOpt/calculation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 79ff6e4..f54b086 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -485,16 +485,16 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # The prior segment might be shortened by the end of the time series, so the overlap is not always complete
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
             flow.previous_flow_rate = flow.model.flow_rate.result[
-                final_index_of_prior_segment
+                self.segment_length - 1
             ]  # TODO: maybe more values?
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[self.segment_length]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From e2388e07d55bc980f342d4f07d851a70e667de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 19/53] fix: SegmentedCalculation calculates the steps selected
 by time_indices, not the first ones of the system

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index f54b086..27f0eda 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -375,7 +375,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -507,9 +507,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        indices = range(self._total_length) if self.time_indices is None else self.time_indices
+        return indices[start : min(start + self.segment_length + self.overlap_length, self._total_length)]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From e2ae5cb37408b55252ae307c0cb858449aeff1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 20/53] fix: SegmentedCalculation resets the start values of
 the FlowSystem even if a segment fails

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 27f0eda..10bcbba 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -370,29 +370,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 370ab8ffa554975717eeec944610b0dfec164fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:58 +0000
Subject: [PATCH 21/53] fix: SegmentedCalculation saves the data of all
 segments

---
 flixOpt/calculation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 10bcbba..4d062ca 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -395,6 +395,9 @@ class SegmentedCalculation(Calculation):
         finally:
             self._reset_start_values()
 
+        for time_series in self.flow_system.all_time_series:  # the data of all segments, not only of the last one
+            time_series.activate_indices(self.time_indices)
+
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
                 self.durations[key] += value
-- 
2.43.0


From 6397093a56ce22330145eaf8af089845b7fdbba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 22/53] fix: AggregatedCalculation with freedom for binaries
 can be modeled if no two periods share a cluster

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..fbf11be 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -364,6 +364,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:  # no two periods share a cluster
+            return
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From fed60ca15e86fe12edfac099c86a2915c458100a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 23/53] fix: unique labels for the time series of several
 conversion equations or pieces, as AggregatedCalculation needs them

---
 flixOpt/components.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 60c8bad..b4bf89a 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -100,20 +100,20 @@ class LinearConverter(Component):
             for flow, segments in self.segmented_conversion_factors.items():
                 segmented_conversion_factors[flow] = [
                     (
-                        _create_time_series('Stuetzstelle', segment[0], self),
-                        _create_time_series('Stuetzstelle', segment[1], self),
+                        _create_time_series(f'{flow.label}_segment{i}_start', segment[0], self),
+                        _create_time_series(f'{flow.label}_segment{i}_end', segment[1], self),
                     )
-                    for segment in segments
+                    for i, segment in enumerate(segments)
                 ]
             self.segmented_conversion_factors = segmented_conversion_factors
 
     def _transform_conversion_factors(self) -> List[Dict[Flow, TimeSeries]]:
         """macht alle Faktoren, die nicht TimeSeries sind, zu TimeSeries"""
         list_of_conversion_factors = []
-        for conversion_factor in self.conversion_factors:
+        for i, conversion_factor in enumerate(self.conversion_factors):
             transformed_dict = {}
             for flow, values in conversion_factor.items():
-                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor', values, self)
+                transformed_dict[flow] = _create_time_series(f'{flow.label}_factor{i}', values, self)
             list_of_conversion_factors.append(transformed_dict)
         return list_of_conversion_factors
 
-- 
2.43.0


From bc1f9d444c7774bcd693b92fc3470ad273b543da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 24/53] fix: limits of the charge state that vary over time can
 be calculated on chosen steps and in segments

---
 flixOpt/components.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index b4bf89a..b2a8146 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -539,10 +539,17 @@ class StorageModel(ComponentModel):
     @property
     def relative_charge_state_bounds(self) -> Tuple[Numeric, Numeric]:
         return (
-            self.element.relative_minimum_charge_state.active_data,
-            self.element.relative_maximum_charge_state.active_data,
+            self._data_with_end(self.element.relative_minimum_charge_state),
+            self._data_with_end(self.element.relative_maximum_charge_state),
         )
 
+    @staticmethod
+    def _data_with_end(time_series: TimeSeries) -> Numeric:
+        """Limits of the charge state that vary over time include one more value, for the end of the last time step"""
+        if time_series.is_scalar or time_series.active_indices is None or time_series.aggregated_data is not None:
+            return time_series.active_data
+        return time_series.data[[*time_series.active_indices, time_series.active_indices[-1] + 1]]
+
 
 class SourceAndSink(Component):
     """
-- 
2.43.0


From 7375734cc6eb8ad19cb67911b21ce008fdc0da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 25/53] fix: time axes given in days, weeks, months or years
 can be calculated and saved

---
 flixOpt/flow_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index de19af3..78eba0d 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -49,7 +49,7 @@ class FlowSystem:
             If you use an array, take care that its long enough to cover all previous values!
         """
         self.time_series = time_series if isinstance(time_series, np.ndarray) else np.array(time_series)
-        if self.time_series.dtype == np.dtype('datetime64[ns]'):
+        if np.issubdtype(self.time_series.dtype, np.datetime64):  # any resolution: days, months, ..., ns
             self.time_series = self.time_series.astype('datetime64[us]')
 
         self.last_time_step_hours = (
-- 
2.43.0


From ce25aa371640ce21d9cacdc628d79361335cd5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 26/53] fix: main results and descriptions of a calculation
 come from its own model, also if another one was modeled since

---
 flixOpt/effects.py   |  4 ++++
 flixOpt/structure.py | 35 +++++++++++++++--------------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index b2bacf1..46eb750 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -326,6 +326,10 @@ class EffectCollectionModel(ElementModel):
         self.objective.add_summand(self._objective_effect_model.invest.sum, 1)
         self.objective.add_summand(self.penalty.sum, 1)
 
+    @property
+    def effect_models(self) -> Dict[Effect, EffectModel]:
+        return self._effect_models
+
     @property
     def _objective_effect_model(self) -> EffectModel:
         return self._effect_models[self.element.objective_effect]
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..d1bc03a 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -121,27 +121,21 @@ class SystemModel(MathModel):
     def description_of_variables(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_variables(structured)
-                for label, comp in self.flow_system.components.items()
+                model.element.label: model.description_of_variables(structured) for model in self.component_models
             },
-            'Buses': {
-                label: bus.model.description_of_variables(structured) for label, bus in self.flow_system.buses.items()
-            },
-            'Effects': self.flow_system.effect_collection.model.description_of_variables(structured),
+            'Buses': {model.element.label: model.description_of_variables(structured) for model in self.bus_models},
+            'Effects': self.effect_collection_model.description_of_variables(structured),
             'Others': {model.element.label: model.description_of_variables(structured) for model in self.other_models},
         }
 
     def description_of_constraints(self, structured: bool = True) -> Dict[str, Union[str, List[str]]]:
         return {
             'Components': {
-                label: comp.model.description_of_constraints(structured)
-                for label, comp in self.flow_system.components.items()
-            },
-            'Buses': {
-                label: bus.model.description_of_constraints(structured) for label, bus in self.flow_system.buses.items()
+                model.element.label: model.description_of_constraints(structured) for model in self.component_models
             },
+            'Buses': {model.element.label: model.description_of_constraints(structured) for model in self.bus_models},
             'Objective': self.objective.description(),
-            'Effects': self.flow_system.effect_collection.model.description_of_constraints(structured),
+            'Effects': self.effect_collection_model.description_of_constraints(structured),
             'Others': {
                 model.element.label: model.description_of_constraints(structured) for model in self.other_models
             },
@@ -163,21 +157,22 @@ class SystemModel(MathModel):
         main_results = {}
         effect_results = {}
         main_results['Effects'] = effect_results
-        for effect in self.flow_system.effect_collection.effects.values():
+        # the models of this SystemModel. The elements might already have the models of another calculation
+        for effect, model in self.effect_collection_model.effect_models.items():
             effect_results[f'{effect.label} [{effect.unit}]'] = {
-                'operation': float(effect.model.operation.sum.result),
-                'invest': float(effect.model.invest.sum.result),
-                'sum': float(effect.model.all.sum.result),
+                'operation': float(model.operation.sum.result),
+                'invest': float(model.invest.sum.result),
+                'sum': float(model.all.sum.result),
             }
         main_results['penalty'] = float(self.effect_collection_model.penalty.sum.result)
         main_results['Objective'] = self.result_of_objective
         main_results['lower bound'] = self.solver.best_bound
         buses_with_excess = []
         main_results['buses with excess'] = buses_with_excess
-        for bus in self.flow_system.buses.values():
-            if bus.with_excess:
-                if np.sum(bus.model.excess_input.result) > 1e-3 or np.sum(bus.model.excess_output.result) > 1e-3:
-                    buses_with_excess.append(bus.label)
+        for model in self.bus_models:
+            if model.element.with_excess:
+                if np.sum(model.excess_input.result) > 1e-3 or np.sum(model.excess_output.result) > 1e-3:
+                    buses_with_excess.append(model.element.label)
 
         invest_decisions = {'invested': {}, 'not invested': {}}
         main_results['Invest-Decisions'] = invest_decisions
-- 
2.43.0


From aabe3177998d21e35bdc511366a25bcdc07ed570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 27/53] fix: saved data belongs to the saved calculation, also
 if another one was modeled since

---
 flixOpt/calculation.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 4d062ca..3b3eca2 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -91,7 +91,15 @@ class Calculation:
             self._paths['results'] = path / f'{self.name}_results.json'
             self._paths['infos'] = path / f'{self.name}_infos.yaml'
 
+    def _activate_time_series(self):
+        """Makes the data of this calculation the active data of the FlowSystem"""
+        self.flow_system.transform_data()
+        for time_series in self.flow_system.all_time_series:
+            time_series.activate_indices(self.time_indices)
+
     def _save_solve_infos(self):
+        self._activate_time_series()  # another calculation might have been modeled since
+
         t_start = timeit.default_timer()
         indent = 4 if len(self.flow_system.time_series) < 50 else None
         with open(self._paths['results'], 'w', encoding='utf-8') as f:
@@ -150,9 +158,7 @@ class FullCalculation(Calculation):
     def do_modeling(self) -> SystemModel:
         t_start = timeit.default_timer()
 
-        self.flow_system.transform_data()
-        for time_series in self.flow_system.all_time_series:
-            time_series.activate_indices(self.time_indices)
+        self._activate_time_series()
 
         self.system_model = SystemModel(self.name, self.modeling_language, self.flow_system, self.time_indices)
         self.system_model.do_modeling()
@@ -215,10 +221,23 @@ class AggregatedCalculation(Calculation):
         self.aggregation = None
         self.time_series_collection: Optional[TimeSeriesCollection] = None
 
+    def _activate_time_series(self):
+        super()._activate_time_series()
+        if self.aggregation is not None:
+            self._insert_aggregated_data()
+
+    def _insert_aggregated_data(self):
+        if self.aggregation_parameters.aggregate_data_and_fix_non_binary_vars:
+            self.time_series_collection.insert_data(  # Converting it into a dict with labels as keys
+                {
+                    col: np.array(values)
+                    for col, values in self.aggregation.aggregated_data.to_dict(orient='list').items()
+                }
+            )
+
     def do_modeling(self) -> SystemModel:
-        self.flow_system.transform_data()
-        for time_series in self.flow_system.all_time_series:
-            time_series.activate_indices(self.time_indices)
+        self.aggregation = None
+        self._activate_time_series()
 
         from .aggregation import Aggregation
 
@@ -266,13 +285,7 @@ class AggregatedCalculation(Calculation):
 
         self.aggregation.cluster()
         self.aggregation.plot()
-        if self.aggregation_parameters.aggregate_data_and_fix_non_binary_vars:
-            self.time_series_collection.insert_data(  # Converting it into a dict with labels as keys
-                {
-                    col: np.array(values)
-                    for col, values in self.aggregation.aggregated_data.to_dict(orient='list').items()
-                }
-            )
+        self._insert_aggregated_data()
         self.durations['aggregation'] = round(timeit.default_timer() - t_start_agg, 2)
 
         # Model the System
@@ -395,8 +408,7 @@ class SegmentedCalculation(Calculation):
         finally:
             self._reset_start_values()
 
-        for time_series in self.flow_system.all_time_series:  # the data of all segments, not only of the last one
-            time_series.activate_indices(self.time_indices)
+        self._activate_time_series()  # the data of all segments, not only of the last one
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 54089f206bccb4770deb630ee02081924f52f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:08 +0000
Subject: [PATCH 28/53] fix: a SegmentedCalculation can be calculated again

---
 flixOpt/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 3b3eca2..548082c 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -382,6 +382,7 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{"":#^80}')
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
+        self.sub_calculations, self._transfered_start_values = [], {}  # in case it is calculated again
 
         try:
             for i in range(self.number_of_segments):
-- 
2.43.0


From f93aa9ad35cc1578d7c1cced4ae5f72be0a166a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 29/53] fix: parameters with time series can be shared by
 elements of several FlowSystems

---
 flixOpt/flow_system.py | 3 ++-
 flixOpt/structure.py   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 78eba0d..0caba4c 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -291,7 +291,8 @@ class FlowSystem:
 
     @property
     def all_time_series(self) -> List[TimeSeries]:
-        return [ts for element in self.all_elements.values() for ts in element.used_time_series]
+        # elements can share parameters and thereby TimeSeries
+        return list(dict.fromkeys(ts for element in self.all_elements.values() for ts in element.used_time_series))
 
 
 def create_datetime_array(
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index d1bc03a..7770615 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -503,6 +503,8 @@ def _create_time_series(
         return None
     elif isinstance(data, TimeSeries):
         data.clear_indices_and_aggregated_data()
+        if not any(data is time_series for time_series in element.used_time_series):
+            element.used_time_series.append(data)  # parameters can be shared, also with the elements of other FlowSystems
         return data
     else:
         time_series = TimeSeries(label=f'{element.label_full}__{label}', data=data)
-- 
2.43.0


From 1c42a301d90dd8cb236e421becd3786538a40544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 30/53] fix: AggregatedCalculation does not equate the hours an
 element has been on or off so far

---
 flixOpt/aggregation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index fbf11be..78283b4 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -22,6 +22,7 @@ except ImportError:
 from .components import Storage
 from .core import Skalar, TimeSeries, TimeSeriesData
 from .elements import Component
+from .features import OnOffModel
 from .flow_system import FlowSystem
 from .math_modeling import Equation, Variable, VariableTS
 from .structure import (
@@ -373,7 +374,16 @@ class AggregationModel(ElementModel):
 
             all_variables_of_component = component.model.all_variables
             if self.aggregation_parameters.aggregate_data_and_fix_non_binary_vars:
-                all_relevant_variables = [v for v in all_variables_of_component.values() if isinstance(v, VariableTS)]
+                # The hours an element has been on or off so far follow from the binaries, but differ between the periods
+                durations = [
+                    duration
+                    for model in component.model.all_sub_models
+                    if isinstance(model, OnOffModel)
+                    for duration in (model.consecutive_on_hours, model.consecutive_off_hours)
+                ]
+                all_relevant_variables = [
+                    v for v in all_variables_of_component.values() if isinstance(v, VariableTS) and v not in durations
+                ]
             else:
                 all_relevant_variables = [
                     v for v in all_variables_of_component.values() if isinstance(v, VariableTS) and v.is_binary
-- 
2.43.0


From 2d3fee791dc217d5fbceb02531d210481cb87e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 31/53] fix: no results of an earlier solve are left when a
 calculation is solved again and fails

---
 flixOpt/calculation.py   | 4 ++--
 flixOpt/math_modeling.py | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 548082c..a28cbe0 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -171,8 +171,8 @@ class FullCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
         self._results = None  # results of an earlier solve are outdated
+        self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
@@ -309,8 +309,8 @@ class AggregatedCalculation(Calculation):
         self._define_path_names(save_results)
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
-        self.system_model.solve(solver)
         self._results = None  # results of an earlier solve are outdated
+        self.system_model.solve(solver)
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 973b799..e5ac9fd 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -522,6 +522,7 @@ class MathModel:
         t_start = timeit.default_timer()
         for variable in self.variables:
             variable.reset_result()  # altes Ergebnis löschen (falls vorhanden)
+        self.result_of_objective = None
         self.model.solve(self, solver)
         self.duration['Solving'] = round(timeit.default_timer() - t_start, 2)
 
-- 
2.43.0


From 5cced3a6eed849ce3b282ba8fd33b9e0c42d1a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 32/53] fix: saved results of a SegmentedCalculation without
 excess can be loaded

---
 flixOpt/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..6298b3b 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -105,12 +105,12 @@ class CalculationResults:
 
     def _construct_bus_results(self):
         """This has to be called after _construct_component_results(), as its using the Flows from the Components"""
-        bus_results = self.all_results['Buses']
+        bus_results = self.all_results.get('Buses', {})  # buses without excess have no results in a SegmentedCalculation
         bus_infos = self.all_data['Buses']
         if not bus_results.keys() == bus_infos.keys():
             logger.warning(f'Missing Bus or mismatched keys: {bus_results.keys() ^ bus_infos.keys()}')
 
-        for bus_label in bus_results.keys():
+        for bus_label in bus_infos.keys():
             infos, results = bus_infos.get(bus_label, {}), bus_results.get(bus_label, {})
             inputs = [
                 flow
-- 
2.43.0


From 4f6f2407324a45300ad147595fa63602439875cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 33/53] fix: with_plotly leaves the given data unchanged and
 draws columns of zeros only once

---
 flixOpt/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..a5b4c64 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,10 +120,10 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = list(data.columns[(data <= 0).all() & ~(data >= 0).all()])  # zeros are drawn only once
         mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
         if mixed_columns:
             logger.warning(
@@ -565,7 +565,7 @@ def heat_map_data_from_df(
         ('W', 'D'): ('%Y-w%W', '%w_%A'),  # week and day of week (with prefix for proper sorting)
         ('W', 'h'): ('%Y-w%W', '%w_%A %H:00'),
         ('D', 'h'): ('%Y-%m-%d', '%H:00'),  # Day and hour
-        ('D', '15min'): ('%Y-%m-%d', '%H:%MM'),  # Day and hour
+        ('D', '15min'): ('%Y-%m-%d', '%H:%M'),  # Day and minutes
         ('h', '15min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
         ('h', 'min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
     }
-- 
2.43.0


From a7fae8c02f2769c4adddd699206be133a1af4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:52 +0000
Subject: [PATCH 34/53] fix: gaps in a column do not hide the bars of the other
 columns in with_matplotlib

---
 flixOpt/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index a5b4c64..f48884c 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -277,7 +277,7 @@ def with_matplotlib(
                 width=width,
                 align='center',
             )
-            cumulative_positive += positive_values.values
+            cumulative_positive += positive_values.fillna(0).values  # Gaps only concern the column itself
             # Plot negative bars
             ax.bar(
                 data.index,
@@ -288,7 +288,7 @@ def with_matplotlib(
                 width=width,
                 align='center',
             )
-            cumulative_negative += negative_values.values
+            cumulative_negative += negative_values.fillna(0).values
 
     elif mode == 'line':
         for i, column in enumerate(data.columns):
-- 
2.43.0


From cc1d0ff14fdf908336d75fef7c77708f88b71d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 35/53] fix: visualize_network writes to any path, opens the
 browser only if asked to and returns the network

---
 flixOpt/plotting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index f48884c..98874fa 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -661,7 +661,9 @@ def visualize_network(
         logger.warning("Please install pyvis to visualize the network: 'pip install pyvis'")
         return None
 
-    net = Network(directed=True, height='100%' if controls is False else '800px', font_color='white')
+    net = Network(
+        directed=True, height='100%' if controls is False else '800px', font_color='white', cdn_resources='remote'
+    )
 
     for node_id, node in node_infos.items():
         net.add_node(
@@ -692,10 +694,12 @@ def visualize_network(
         return net
     elif path:
         path = pathlib.Path(path) if isinstance(path, str) else path
-        net.write_html(path.as_posix())
-    elif show:
+    else:
         path = pathlib.Path('network.html')
-        net.write_html(path.as_posix())
+
+    # net.write_html() neither takes absolute paths nor respects show=False, and replaces the folder 'lib'
+    path.parent.mkdir(parents=True, exist_ok=True)
+    path.write_text(net.generate_html(), encoding='utf-8')
 
     if show:
         try:
@@ -710,3 +714,5 @@ def visualize_network(
             logger.warning(
                 f'Showing the network in the Browser went wrong. Open it manually. Its saved under {path}: {e}'
             )
+
+    return net
-- 
2.43.0


From 3a62221561d53cf5179dee4f0430896a13348980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 36/53] fix: with_plotly returns the given figure if there is
 nothing to add

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 98874fa..5ed7ee2 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -79,7 +79,7 @@ def with_plotly(
     """
     assert mode in ['bar', 'line', 'area'], f"'mode' must be one of {['bar', 'line', 'area']}"
     if data.empty:
-        return go.Figure()
+        return fig if fig is not None else go.Figure()
     if isinstance(colors, str):
         colorscale = px.colors.get_colorscale(colors)
         colors = px.colors.sample_colorscale(
-- 
2.43.0


From 496fa1091db040ea6fc832dc4e8d4d504d825536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:48 +0000
Subject: [PATCH 37/53] fix: sizes of the models of elements are counted
 completely

---
 flixOpt/structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 7770615..0c66dd9 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -416,9 +416,9 @@ class ElementModel:
         all_vars, all_eqs, all_ineqs = self.all_variables, self.all_equations, self.all_inequations
         return {
             'no of Euations': len(all_eqs),
-            'no of Equations single': sum(eq.nr_of_single_equations for eq in all_eqs.values()),
+            'no of Equations single': sum(eq.length for eq in all_eqs.values()),
             'no of Inequations': len(all_ineqs),
-            'no of Inequations single': sum(ineq.nr_of_single_equations for ineq in all_ineqs.values()),
+            'no of Inequations single': sum(ineq.length for ineq in all_ineqs.values()),
             'no of Variables': len(all_vars),
             'no of Variables single': sum(var.length for var in all_vars.values()),
         }
@@ -465,9 +465,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0


From a6b2a5c5627ae8bb50d5fdcf127344656f20b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 38/53] fix: labels of buses and effects are checked to be
 unique too

---
 flixOpt/flow_system.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 0caba4c..6599e13 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -74,6 +74,7 @@ class FlowSystem:
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
             logger.info(f'Registered new Effect: {new_effect.label}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
 
     def add_components(self, *args: Component) -> None:
@@ -221,11 +222,18 @@ class FlowSystem:
         element : Element
             new element to check
         """
-        if element in self.all_elements:
+        all_elements = self.all_elements
+        if any(element is other for other in all_elements.values()):
             raise Exception(f'Element {element.label} already added to FlowSystem!')
         # check if name is already used:
-        if element.label_full in self.all_elements:
+        if element.label_full in all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
+        # check the buses, they are only added through the flows of the components:
+        if isinstance(element, Component):
+            all_elements[element.label_full] = element
+            for bus in (flow.bus for flow in element.inputs + element.outputs):
+                if all_elements.setdefault(bus.label_full, bus) is not bus:
+                    raise Exception(f'Label of Bus {bus.label} already used in another element!')
 
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
-- 
2.43.0


From 4166cd09d6676f7fa3e3aa712a53c14039eac6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 39/53] fix: time indices that are not in ascending order are
 rejected

---
 flixOpt/flow_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 6599e13..4ce3787 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -272,6 +272,8 @@ class FlowSystem:
         # Calculate time differences (time deltas) in hours
         time_deltas = time_series_with_end[1:] - time_series_with_end[:-1]
         dt_in_hours = time_deltas / np.timedelta64(1, 'h')
+        if np.any(dt_in_hours < 0):
+            raise ValueError(f'The time indices must be in ascending order, but are {time_indices}')
 
         # Calculate the total time in hours
         dt_in_hours_total = np.sum(dt_in_hours)
-- 
2.43.0


From 4a0a690ded61459aea92399b57cf869485655790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 40/53] fix: segmented_conversion_factors have to fit the flows
 of the LinearConverter

---
 flixOpt/components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index b2a8146..8a031b7 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -84,6 +84,12 @@ class LinearConverter(Component):
                             f'{self.label}: Flow {flow.label} in conversion_factors is not in inputs/outputs'
                         )
         if self.segmented_conversion_factors:
+            if set(self.segmented_conversion_factors) != set(self.inputs + self.outputs):
+                raise Exception(
+                    f'{self.label}: segmented_conversion_factors are needed for all inputs and outputs, but for no other Flow'
+                )
+            if len({len(segments) for segments in self.segmented_conversion_factors.values()}) != 1:
+                raise Exception(f'{self.label}: All Flows need the same number of segments')
             for flow in self.inputs + self.outputs:
                 if isinstance(flow.size, InvestParameters) and flow.size.fixed_size is None:
                     raise Exception(
-- 
2.43.0


From 60f84480402272c774692cc547319aa1b953f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 41/53] fix: a negative overlap of segments is rejected

---
 flixOpt/calculation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index a28cbe0..3390396 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -363,6 +363,7 @@ class SegmentedCalculation(Calculation):
         self.sub_calculations: List[FullCalculation] = []
 
         assert segment_length > 2, 'The Segment length must be greater 2, due to unwanted internal side effects'
+        assert overlap_length >= 0, 'The overlap of the segments can not be negative'
         assert self.segment_length_with_overlap <= self._total_length, (
             f'{self.segment_length_with_overlap=} cant be greater than the total length {self._total_length}'
         )
-- 
2.43.0


From b876365217af5b43d3dda9cfefd212750d3ffecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 42/53] fix: segments of flows, sizes and effects have to be
 equally many

---
 flixOpt/components.py | 2 --
 flixOpt/features.py   | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 8a031b7..81960ec 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -88,8 +88,6 @@ class LinearConverter(Component):
                 raise Exception(
                     f'{self.label}: segmented_conversion_factors are needed for all inputs and outputs, but for no other Flow'
                 )
-            if len({len(segments) for segments in self.segmented_conversion_factors.values()}) != 1:
-                raise Exception(f'{self.label}: All Flows need the same number of segments')
             for flow in self.inputs + self.outputs:
                 if isinstance(flow.size, InvestParameters) and flow.size.fixed_size is None:
                     raise Exception(
diff --git a/flixOpt/features.py b/flixOpt/features.py
index 5863bdf..4af7c9a 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -685,6 +685,8 @@ class MultipleSegmentsModel(ElementModel):
         self._as_time_series = as_time_series
         self._can_be_outside_segments = can_be_outside_segments
         self._sample_points = sample_points
+        if len({len(segments) for segments in sample_points.values()}) != 1:
+            raise Exception(f'{element.label_full}: All segmented variables and effects need the same number of segments')
         self._segment_models: List[SegmentModel] = []
 
     def do_modeling(self, system_model: SystemModel):
-- 
2.43.0


From 5bf00f644f21e2063d061284f4dbf0c2b8b7f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:58 +0000
Subject: [PATCH 43/53] fix: time series that do not fit the time steps of the
 FlowSystem are rejected, not cut

---
 flixOpt/components.py  | 2 ++
 flixOpt/core.py        | 8 ++++++++
 flixOpt/flow_system.py | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 81960ec..2bf00ac 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -226,6 +226,8 @@ class Storage(Component):
         self.relative_maximum_charge_state = _create_time_series(
             'relative_maximum_charge_state', self.relative_maximum_charge_state, self
         )
+        for charge_state_limit in (self.relative_minimum_charge_state, self.relative_maximum_charge_state):
+            charge_state_limit.with_end = True
         self.eta_charge = _create_time_series('eta_charge', self.eta_charge, self)
         self.eta_discharge = _create_time_series('eta_discharge', self.eta_discharge, self)
         self.relative_loss_per_hour = _create_time_series('relative_loss_per_hour', self.relative_loss_per_hour, self)
diff --git a/flixOpt/core.py b/flixOpt/core.py
index 9ee489c..4755a73 100644
--- a/flixOpt/core.py
+++ b/flixOpt/core.py
@@ -107,6 +107,14 @@ class TimeSeries:
 
         self.active_indices: Optional[Union[range, List[int]]] = None
         self.aggregated_data: Optional[Numeric] = None
+        self.with_end = False  # Whether the data includes one more value, for the end of the last time step
+
+    def check_length(self, nr_of_time_steps: int):
+        if self.is_array and len(self.data) != nr_of_time_steps + self.with_end:
+            raise ValueError(
+                f'The data of "{self.label}" has the wrong length. '
+                f'Length should be: {nr_of_time_steps + self.with_end}, but is {len(self.data)}'
+            )
 
     def activate_indices(self, indices: Optional[Union[range, List[int]]], aggregated_data: Optional[Numeric] = None):
         self.active_indices = indices
diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 4ce3787..d23baf5 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -108,6 +108,8 @@ class FlowSystem:
     def transform_data(self):
         for element in self.all_elements.values():
             element.transform_data()
+        for time_series in self.all_time_series:
+            time_series.check_length(len(self.time_series))
 
     def network_infos(self) -> Tuple[Dict[str, Dict[str, str]], Dict[str, Dict[str, str]]]:
         nodes = {
-- 
2.43.0


From 181230afe0dd58af7dcf9ed90f2d40f06eb4a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:58 +0000
Subject: [PATCH 44/53] fix: an invalid configuration leaves the current one as
 it is

---
 flixOpt/config.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 5ba7dec..722c50e 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -35,6 +35,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
     """
     if not is_dataclass(cls):
         raise TypeError(f'{cls} must be a dataclass')
+    if not isinstance(data, dict):
+        raise TypeError(f'{cls.__name__} needs a dictionary, but got {data!r}')
 
     # Build kwargs for the dataclass constructor
     kwargs = {}
@@ -43,8 +45,8 @@ def dataclass_from_dict_with_validation(cls, data: dict):
         field_type = field.type
         field_value = data.get(field_name)
 
-        # If the field type is a dataclass and the value is a dict, recursively initialize
-        if is_dataclass(field_type) and isinstance(field_value, dict):
+        # If the field type is a dataclass, recursively initialize
+        if is_dataclass(field_type):
             kwargs[field_name] = dataclass_from_dict_with_validation(field_type, field_value)
         else:
             kwargs[field_name] = field_value  # Pass as-is if no special handling is needed
@@ -114,13 +116,17 @@ class CONFIG:
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
 
+        setup_logging(
+            default_level=config_data.logging.level,
+            log_file=config_data.logging.file,
+            use_rich_handler=config_data.logging.rich,
+        )
+
         # Store the configuration in the class as class attributes
         cls.logging = config_data.logging
         cls.modeling = config_data.modeling
         cls.config_name = config_data.config_name
 
-        setup_logging(default_level=cls.logging.level, log_file=cls.logging.file, use_rich_handler=cls.logging.rich)
-
     @classmethod
     def to_dict(cls):
         """
@@ -228,15 +234,18 @@ def setup_logging(
     use_rich_handler: bool = False,
 ):
     """Setup logging configuration"""
+    handlers = [_get_logging_handler(use_rich_handler=use_rich_handler)]
+    if log_file is not None:
+        handlers.append(_get_logging_handler(log_file, use_rich_handler=False))
+
     logger = logging.getLogger('flixOpt')  # Use a specific logger name for your package
     logger.setLevel(get_logging_level_by_name(default_level))
     # Clear existing handlers
     if logger.hasHandlers():
         logger.handlers.clear()
 
-    logger.addHandler(_get_logging_handler(use_rich_handler=use_rich_handler))
-    if log_file is not None:
-        logger.addHandler(_get_logging_handler(log_file, use_rich_handler=False))
+    for handler in handlers:
+        logger.addHandler(handler)
 
     return logger
 
-- 
2.43.0


From e5066dfb4f50404d4195ebeaf6c42a4b25813727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 45/53] fix: limits of the charge state that vary over time
 made an AggregatedCalculation fail

---
 flixOpt/calculation.py | 5 ++++-
 flixOpt/components.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 3390396..6432af6 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -270,7 +270,10 @@ class AggregatedCalculation(Calculation):
 
         import pandas as pd
 
-        original_data = pd.DataFrame(self.time_series_collection.data, index=chosen_time_series)
+        original_data = pd.DataFrame(  # limits of the charge state include one more value, which is not aggregated
+            {label: data[: len(chosen_time_series)] for label, data in self.time_series_collection.data.items()},
+            index=chosen_time_series,
+        )
 
         # Aggregation - creation of aggregated timeseries:
         self.aggregation = Aggregation(
diff --git a/flixOpt/components.py b/flixOpt/components.py
index 2bf00ac..a24c3fb 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -552,7 +552,10 @@ class StorageModel(ComponentModel):
     @staticmethod
     def _data_with_end(time_series: TimeSeries) -> Numeric:
         """Limits of the charge state that vary over time include one more value, for the end of the last time step"""
-        if time_series.is_scalar or time_series.active_indices is None or time_series.aggregated_data is not None:
+        if time_series.aggregated_data is not None:
+            end = -1 if time_series.active_indices is None else time_series.active_indices[-1] + 1
+            return np.append(time_series.aggregated_data, time_series.data[end])
+        if time_series.is_scalar or time_series.active_indices is None:
             return time_series.active_data
         return time_series.data[[*time_series.active_indices, time_series.active_indices[-1] + 1]]
 
-- 
2.43.0


From 9b3608d7897a15165770049832521dfcfb390e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 46/53] fix: an aggregation weight of 0 counted as 1

---
 flixOpt/aggregation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index 78283b4..99d5e20 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -245,7 +245,8 @@ class TimeSeriesCollection:
         self.group_weights = {group: 1 / size for group, size in group_size.items()}
         for time_series in self.time_series_list:
             time_series.aggregation_weight = self.group_weights.get(
-                time_series.aggregation_group, time_series.aggregation_weight or 1
+                time_series.aggregation_group,
+                1 if time_series.aggregation_weight is None else time_series.aggregation_weight,
             )
 
     def _unique_labels(self):
-- 
2.43.0


From 660b8e1a094a258f99298a93236bfd358c6f96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 47/53] fix: create_datetime_array makes the documented steps
 of months and years from a full date

---
 flixOpt/flow_system.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index d23baf5..59542db 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -354,13 +354,23 @@ def create_datetime_array(
     # Convert the start time to a datetime64 object
     start_dt = np.datetime64(start)
 
+    # Months and years differ in length: count from the first of the month and add the rest of the start date
+    offset = np.timedelta64(0, unit)
+    if unit in ('Y', 'M'):
+        first_of_month = start_dt.astype('datetime64[M]')
+        start_dt, offset = first_of_month, start_dt - first_of_month
+
     # Generate the array based on the parameters
     if end:  # If `end` is specified, create a range from start to end
         end_dt = np.datetime64(end)
+        if unit in ('Y', 'M'):
+            end_of_month = end_dt.astype('datetime64[M]') + 1
+            times = np.arange(start_dt, end_of_month, step_size.astype('timedelta64[M]')) + offset
+            return times[times < end_dt]
         return np.arange(start_dt, end_dt, step_size)
 
     elif steps:  # If `steps` is specified, create a range with the given number of steps
-        return np.array([start_dt + i * step_size for i in range(steps)], dtype='datetime64')
+        return np.array([start_dt + i * step_size + offset for i in range(steps)], dtype='datetime64')
 
     else:  # If neither `steps` nor `end` is provided, raise an error
         raise ValueError('Either `steps` or `end` must be provided.')
-- 
2.43.0


From 35053d709b662c5c5832a4adeeef7be4638b7092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 48/53] fix: the unstructured description of constraints
 includes the inequations

---
 flixOpt/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 0c66dd9..3cc979b 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -409,7 +409,7 @@ class ElementModel:
 
             return descriptions
         else:
-            return [eq.description() for eq in self.all_equations.values()]
+            return [constr.description() for constr in self.all_constraints.values()]
 
     @property
     def overview_of_model_size(self) -> Dict[str, int]:
-- 
2.43.0


From edabb90917075ff39e2e1cd443662c5a142d7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 49/53] fix: bound and log of the solver are those of this
 model if the solver is used again

---
 flixOpt/math_modeling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index e5ac9fd..2bb7815 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -6,6 +6,7 @@ and translate it into a ModelingLanguage like Pyomo, and the solve it through a
 Multiple solvers are supported.
 """
 
+import copy
 import logging
 import re
 import timeit
@@ -524,6 +525,7 @@ class MathModel:
             variable.reset_result()  # altes Ergebnis löschen (falls vorhanden)
         self.result_of_objective = None
         self.model.solve(self, solver)
+        self.solver = copy.copy(solver)  # as it is now. The solver might be used for other models, too
         self.duration['Solving'] = round(timeit.default_timer() - t_start, 2)
 
     def results(self) -> Dict[str, Numeric]:
-- 
2.43.0


From 9b3b6fe5c0f6d6d7579526f81ab8b1a8431bbf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 50/53] fix: the objective is described as objective

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 2bb7815..4905bbd 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -271,7 +271,7 @@ class Equation(_Constraint):
         equation_nr = min(at_index, self.length - 1)
 
         # Name and index as str
-        if self.is_objective == 'objective':
+        if self.is_objective:
             name, index_str = 'OBJ', ''
         else:
             name, index_str = f'EQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
-- 
2.43.0


From 2453c64add8ab0dd23ea44f239760872e45dea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 51/53] fix: constraints can be described at every index

---
 flixOpt/math_modeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4905bbd..04d80f8 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -346,7 +346,7 @@ class Summand:
 
     def description(self, at_index=0):
         i = 0 if self.length == 1 else at_index
-        index = self.indices[i]
+        index = self.indices[i] if len(self.indices) > 1 else self.indices[0]
         factor = self.factor_vec[i]
         factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         return f'{factor_str} * {self.variable.label}[{index}]'
@@ -403,9 +403,9 @@ class SumOfSummand(Summand):
         self.length = 1
 
     def description(self, at_index=0):
-        index = self.indices[at_index]
+        index = self.indices[0]  # the sum is the same at every index
         factor = self.factor_vec[0]
-        factor_str = str(factor) if isinstance(factor, int) else f'{factor:.6}'
+        factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         single_summand_str = f'{factor_str} * {self.variable.label}[{index}]'
         return f'∑({("..+" if index > 0 else "")}{single_summand_str}{("+.." if index < self.variable.length else "")})'
 
-- 
2.43.0


From 07edda7a548c3b7f351577aad6a5517248edd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 52/53] fix: reject the effect label "penalty", which the
 penalty itself uses in the results

---
 flixOpt/effects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 46eb750..6659eac 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -283,6 +283,8 @@ class EffectCollection:
             raise Exception(f'Effect already added! ({effect.label=})')
         if effect.label in self.effects:
             raise Exception(f'Effect with label "{effect.label=}" already added!')
+        if effect.label == 'penalty':  # its results would be replaced by the ones of the penalty
+            raise Exception('The label "penalty" is reserved. Choose another label for the Effect!')
         self.effects[effect.label] = effect
 
     @property
-- 
2.43.0


From 26f6ecda8e6ab02bbb9725896f3873774655bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 53/53] fix: freedom of a single pair of aggregated steps can
 be penalized

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 6659eac..28e9b6a 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -393,7 +393,7 @@ class EffectCollectionModel(ElementModel):
         factor: Numeric,
     ) -> None:
         assert variable is not None, 'A Variable must be passed to add a share to penalty! Else its a constant Penalty!'
-        self.penalty.add_share(self._system_model, name, variable, factor, True)
+        self.penalty.add_share(self._system_model, name, variable, factor, share_as_sum=variable.length > 1)
 
     def add_share_between_effects(self):
         for origin_effect in self.element.effects.values():
-- 
2.43.0

