From 0219233a5f56092c07492a7705811f1f57545784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 01/88] fix: reject expressions with missing operators or no
 operands

An expression such as '2 3' was evaluated to its last operand and an empty
expression failed with an IndexError; both are now invalid expressions.
---
 src/libecalc/expression/expression_tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..39b133d 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -136,6 +136,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) == 0:
+        raise ValueError("Expression is empty")
+    if len(stack) > 1:
+        raise ValueError(f"Missing operator before operand '{stack[-1].token.value}'")
+
     return stack.pop()
 
 
-- 
2.43.0


From 1bc3f3fe3cde857df34e1ef0507730cc1f1af837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 02/88] fix: division by zero in expressions evaluates to 0 as
 documented

A non-zero value divided by zero evaluated to the largest float (1.8e308).
---
 src/libecalc/expression/expression_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 39b133d..0fcbd94 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -144,6 +144,11 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
     return stack.pop()
 
 
+def _divide(numerator: NDArray[np.float64], denominator: NDArray[np.float64]) -> NDArray[np.float64]:
+    """Division where division by zero evaluates to 0, as documented."""
+    return np.divide(numerator, denominator, out=np.zeros_like(numerator), where=denominator != 0)
+
+
 class Operator(NamedTuple):
     value: str
     function: Callable
@@ -154,7 +159,7 @@ class Operator(NamedTuple):
 OPERATORS = {
     "{^}": Operator(value="{^}", function=op.pow, precedence=24, associativity="RIGHT"),
     "{*}": Operator(value="{*}", function=op.mul, precedence=23, associativity="LEFT"),
-    "{/}": Operator(value="{/}", function=op.truediv, precedence=23, associativity="LEFT"),
+    "{/}": Operator(value="{/}", function=_divide, precedence=23, associativity="LEFT"),
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-- 
2.43.0


From 9cdd0e745be0c4ee3099b124b3ff17d92ef27034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:18 +0000
Subject: [PATCH 03/88] fix: comparison operators share one precedence level as
 documented

Chained comparisons are documented to be evaluated left to right, but each
comparison operator had its own precedence ('1 < 3 == 3' gave 1 < (3 == 3)).
---
 src/libecalc/expression/expression_tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 0fcbd94..034e20c 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -163,9 +163,9 @@ OPERATORS = {
     "{+}": Operator(value="{+}", function=op.add, precedence=22, associativity="LEFT"),
     "{-}": Operator(value="{-}", function=op.sub, precedence=22, associativity="LEFT"),
     "==": Operator(value="==", function=op.eq, precedence=16, associativity="LEFT"),
-    "!=": Operator(value="ne", function=op.ne, precedence=15, associativity="LEFT"),
-    "<": Operator(value="ne", function=op.lt, precedence=14, associativity="LEFT"),
-    ">": Operator(value="{>}", function=op.gt, precedence=13, associativity="LEFT"),
-    "<=": Operator(value="{<=}", function=op.le, precedence=12, associativity="LEFT"),
-    ">=": Operator(value="{>=}", function=op.ge, precedence=11, associativity="LEFT"),
+    "!=": Operator(value="ne", function=op.ne, precedence=16, associativity="LEFT"),
+    "<": Operator(value="ne", function=op.lt, precedence=16, associativity="LEFT"),
+    ">": Operator(value="{>}", function=op.gt, precedence=16, associativity="LEFT"),
+    "<=": Operator(value="{<=}", function=op.le, precedence=16, associativity="LEFT"),
+    ">=": Operator(value="{>=}", function=op.ge, precedence=16, associativity="LEFT"),
 }
-- 
2.43.0


From b3c216ae91d74188a01564fe1fe51100be08e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:49 +0000
Subject: [PATCH 04/88] fix: a regularity of 0 is not replaced by the default
 regularity 1

REGULARITY: 0 was treated as not given.
---
 src/libecalc/domain/regularity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..00e1576 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -31,7 +31,7 @@ class Regularity:
         self.expression_evaluator = expression_evaluator
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input if expression_input is not None else self.default_expression_value(),
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From a69b4e478adb4c1223e99cae009d1b61db0b3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:24 +0000
Subject: [PATCH 05/88] fix: dated variables keep their values when the dates
 are not given in order

The dates were sorted but the values were not, so an unordered dated variable
used the wrong expression in each period.
---
 .../yaml/mappers/variables_mapper/variables_mapper.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..fdd69a7 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -32,10 +32,11 @@ class VariableProcessor:
         if isinstance(self.variable, YamlSingleVariable):
             return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
         else:
-            variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
+            start_dates = sorted(self.variable)
+            variable_periods = Periods.create_periods(start_dates, include_before=False)
             processed_expressions = {
-                period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                period: self.variable[start_date].value.evaluate(variables, fill_length=len(periods))
+                for period, start_date in zip(variable_periods, start_dates)
             }
 
             variable_result = []
-- 
2.43.0


From 52be1d2a66cb2e7e8fa37fadd6d29652ec89b03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 06/88] fix: ignore energy usage models that are only defined
 outside the evaluated periods

Without START, a dated energy usage model whose first interval ended before the
first time series date stopped the run with an internal error.
---
 .../presentation/yaml/mappers/consumer_function_mapper.py  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index cc58f8e..b078ae9 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -984,7 +984,12 @@ class ConsumerFunctionMapper:
         self._expression_evaluator = expression_evaluator
         self._regularity = regularity
         self._period_subsets = {}
-        self._time_adjusted_model = define_time_model_for_period(energy_usage_model, target_period=target_period)
+        # Definitions that end before, or start after, the evaluated periods are never in use
+        self._time_adjusted_model = {
+            period: model
+            for period, model in define_time_model_for_period(energy_usage_model, target_period=target_period).items()
+            if Period.intersects(period, expression_evaluator.get_period())
+        }
         self._mapping_context = mapping_context
         self._process_service = mapping_context._process_service
         self._consumer_id = consumer_id
-- 
2.43.0


From dded95f9e26ba3aedd02ac9ff2642075dd3aba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 07/88] fix: indexing a rate time series with an index or a
 list of indices

---
 src/libecalc/common/utils/rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..a48eecc 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -995,7 +995,7 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
@@ -1004,7 +1004,7 @@ class TimeSeriesRate(TimeSeries[float]):
         elif isinstance(indices, list | np.ndarray):
             indices = list(indices)
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From ba35ad86b51bd751223c99f4246b4eee7b4dc3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 08/88] fix: adding zero rates with different regularities does
 not make the volumes nan

---
 src/libecalc/common/utils/rates.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index a48eecc..84c9571 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -60,6 +60,18 @@ class Rates:
         regularity_array = np.asarray(regularity, dtype=np.float64)
         return stream_day_rates_array * regularity_array
 
+    @staticmethod
+    def to_regularity(
+        calendar_day_rates: NDArray[np.float64], stream_day_rates: NDArray[np.float64]
+    ) -> NDArray[np.float64]:
+        """Find the regularity relating calendar day rates to stream day rates. Zero where there is no stream day rate."""
+        return np.divide(
+            calendar_day_rates,
+            stream_day_rates,
+            out=np.zeros_like(calendar_day_rates),
+            where=stream_day_rates != 0.0,
+        )
+
     @staticmethod
     def to_volumes(
         rates: list[float] | list[TimeSeriesValue] | NDArray[np.float64],
@@ -775,7 +787,7 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    regularity=Rates.to_regularity(sum_calendar_day, sum_stream_day).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From 6804352db9603fa0f09916e3650e68b390b4b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:25 +0000
Subject: [PATCH 09/88] fix: extending a rate time series requires the other to
 follow immediately, as for other time series

---
 src/libecalc/common/utils/rates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 84c9571..4ff07ce 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -810,6 +810,11 @@ class TimeSeriesRate(TimeSeries[float]):
                 "Mismatching rate type. Currently you can not extend stream/calendar day rates with calendar/stream day rates."
             )
 
+        if len(self) > 0 and len(other) > 0 and self.last_date != other.first_date:
+            if self.first_date != other.last_date:
+                raise ValueError("Can not extend two TimeSeries when there is a gap in time between them.")
+            return other.extend(self)
+
         return self.__class__(
             periods=self.periods + other.periods,
             values=self.values + other.values,
-- 
2.43.0


From f0457614d6f5bbe562074ea7f8635d2d697e2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:10 +0000
Subject: [PATCH 10/88] fix: resampled point values report the value in force
 at the start of the new period

---
 src/libecalc/common/utils/rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 4ff07ce..a648654 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -211,7 +211,7 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        ds_resampled = ds.reindex(new_time_steps, method="ffill")
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From f7cb4fdf36f8314c0a9eb264948119684c78480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:36 +0000
Subject: [PATCH 11/88] fix: resampling keeps the time of day of the first and
 last date so no volume is dropped

---
 src/libecalc/common/time_utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index fa39865..9ba45af 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -317,16 +317,15 @@ def create_start_and_end_dates_for_periods(
         the requested frequency
 
     """
-    # If the start date or end date is part of the date_range made by the frequency, the returned date range will
-    # always include the start and end date (no matter what the include_start_date and include_end_date booleans are).
-    # To avoid this add one day to start and subtract one day from end.
-    date_range = pd.date_range(start=start + timedelta(days=1), end=end - timedelta(days=1), freq=frequency.value)
+    # Whether the start date and end date are included is decided by include_start_date and include_end_date, no matter
+    # if they are part of the date_range made by the frequency. Only keep the dates strictly between start and end.
+    date_range = pd.date_range(start=clear_time(start), end=clear_time(end), freq=frequency.value)
 
-    time_steps = [clear_time(time_step) for time_step in date_range]
+    time_steps = [time_step.to_pydatetime() for time_step in date_range if start < time_step < end]
     if include_start_date:
-        time_steps = [clear_time(start)] + time_steps
+        time_steps = [start] + time_steps
     if include_end_date:
-        time_steps = [clear_time(end)] + time_steps
+        time_steps = [end] + time_steps
 
     return sorted(set(time_steps))
 
-- 
2.43.0


From e48f5e0c4c70f63e79c6a2538c17e0f4ff314f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:54 +0000
Subject: [PATCH 12/88] fix: CONDITION: 0 is a condition that is never true,
 not a missing condition

---
 .../presentation/yaml/mappers/consumer_function_mapper.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index b078ae9..e24d5f1 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -178,7 +178,7 @@ class ConditionedModel(Protocol):
 
 
 def _map_condition(energy_usage_model: ConditionedModel) -> str | int | float | None:
-    if energy_usage_model.condition:
+    if energy_usage_model.condition is not None and energy_usage_model.condition != "":
         condition_value = energy_usage_model.condition
         return condition_value
     elif energy_usage_model.conditions:
-- 
2.43.0


From 9f760abe4ad93b06d7c3d1a5161b6b6e2afe9a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 13/88] fix: CONDITIONS of venting emitters are applied

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py   | 5 +++--
 .../presentation/yaml/mappers/consumer_function_mapper.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 02bf75e..16a5fd8 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -46,6 +46,7 @@ from libecalc.presentation.yaml.domain.yaml_component import YamlComponent
 from libecalc.presentation.yaml.mappers.consumer_function_mapper import (
     ConsumerFunctionMapper,
     InvalidEnergyUsageModelException,
+    _map_condition,
 )
 from libecalc.presentation.yaml.mappers.yaml_mapping_context import MappingContext
 from libecalc.presentation.yaml.mappers.yaml_path import YamlPath
@@ -569,7 +570,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=emission.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=emission.rate.condition,
+                                condition=_map_condition(emission.rate),
                             ),
                             unit=emission.rate.unit.to_unit(),
                             rate_type=emission.rate.type,
@@ -598,7 +599,7 @@ class EcalcModelMapper:
                             time_series_expression=TimeSeriesExpression(
                                 expression=data.volume.rate.value,
                                 expression_evaluator=self._expression_evaluator,
-                                condition=data.volume.rate.condition,
+                                condition=_map_condition(data.volume.rate),
                             ),
                             unit=data.volume.rate.unit.to_unit(),
                             rate_type=data.volume.rate.type,
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index e24d5f1..9830366 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -173,7 +173,7 @@ def handle_condition_list(conditions: list[ExpressionType]):
 
 
 class ConditionedModel(Protocol):
-    condition: YamlExpressionType
+    condition: YamlExpressionType | None
     conditions: list[YamlExpressionType] | None
 
 
-- 
2.43.0


From 314cb3ab693a46f760b9f4c4d0eb34d529491502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 14/88] fix: emission names that only differ in letter case are
 duplicates

---
 .../presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py b/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
index bb2bd38..2eb95f3 100644
--- a/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
+++ b/src/libecalc/presentation/yaml/yaml_types/fuel_type/yaml_fuel_type.py
@@ -40,7 +40,7 @@ class YamlFuelType(YamlBase):
     @field_validator("emissions", mode="after")
     @classmethod
     def ensure_unique_emission_names(cls, emissions, info: ValidationInfo):
-        names = [emission.name for emission in emissions]
+        names = [emission.name.lower() for emission in emissions]  # emission names are case-insensitive
         duplicated_names = get_duplicates(names)
 
         if len(duplicated_names) > 0:
-- 
2.43.0


From a11a150bdbbaca29d60378209541cc71416cc34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:11 +0000
Subject: [PATCH 15/88] fix: reject a venting emitter that lists the same
 emission twice

---
 .../yaml_types/emitters/yaml_venting_emitter.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 97d6fcd..df6dd27 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -9,7 +9,7 @@ from pydantic import (
 from pydantic_core.core_schema import ValidationInfo
 
 from libecalc.common.component_type import ComponentType
-from libecalc.common.string.string_utils import generate_id
+from libecalc.common.string.string_utils import generate_id, get_duplicates
 from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -28,6 +28,13 @@ class YamlVentingType(enum.StrEnum):
     DIRECT_EMISSION = "DIRECT_EMISSION"
 
 
+def _ensure_unique_emission_names(emissions):
+    duplicated_names = get_duplicates([emission.name for emission in emissions])
+    if len(duplicated_names) > 0:
+        raise ValueError(f"EMISSIONS names must be unique. Duplicated names are: {', '.join(duplicated_names)}")
+    return emissions
+
+
 class YamlVentingVolumeEmission(YamlBase):
     name: str = Field(
         ...,
@@ -52,6 +59,8 @@ class YamlVentingVolume(YamlBase):
         description="The emission types and volume-emission-factors associated with oil loading/storage",
     )
 
+    _unique_emission_names = field_validator("emissions", mode="after")(_ensure_unique_emission_names)
+
 
 class YamlVentingEmission(YamlBase):
     name: str = Field(
@@ -100,6 +109,8 @@ class YamlDirectTypeEmitter(YamlBase):
         description="The emissions for the emitter of type DIRECT_EMISSION",
     )
 
+    _unique_emission_names = field_validator("emissions", mode="after")(_ensure_unique_emission_names)
+
     @field_validator("category", mode="before")
     def check_user_defined_category(cls, category, info: ValidationInfo):
         """Provide which value and context to make it easier for user to correct wrt mandatory changes."""
-- 
2.43.0


From 746fd8052100be6a2bd144bb805be9d83231e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:49 +0000
Subject: [PATCH 16/88] fix: a model without CO2 emissions has no emission
 intensity instead of failing

---
 src/ecalc_cli/emission_intensity.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ecalc_cli/emission_intensity.py b/src/ecalc_cli/emission_intensity.py
index ba86df7..2d87811 100644
--- a/src/ecalc_cli/emission_intensity.py
+++ b/src/ecalc_cli/emission_intensity.py
@@ -46,6 +46,9 @@ class EmissionIntensityCalculator:
         self.frequency = frequency
 
         self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
+        if self._co2_emission_result() is None:
+            return  # no CO2 emissions, there is no intensity to calculate
+
         self._intensity_calculator_sm3 = EmissionIntensity(
             emission_cumulative=self._cumulative_rate_kg(),
             hydrocarbon_export_cumulative=self._hydrocarbon_export_cumulative.to_unit(Unit.STANDARD_CUBIC_METER),
@@ -62,7 +65,10 @@ class EmissionIntensityCalculator:
         Returns:
             EmissionIntensityResults: The calculated emission intensity results.
         """
-        emission_intensities = []
+        emission_intensities: list[EmissionIntensityResult] = []
+
+        if self._co2_emission_result() is None:
+            return EmissionIntensityResults(results=emission_intensities)
 
         if self.frequency == Frequency.YEAR:
             intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
@@ -83,8 +89,8 @@ class EmissionIntensityCalculator:
         )
         return EmissionIntensityResults(results=emission_intensities)
 
-    def _co2_emission_result(self) -> EmissionResult:
-        return next((value for key, value in self.emissions.items() if key.lower() == "co2"))
+    def _co2_emission_result(self) -> EmissionResult | None:
+        return next((value for key, value in self.emissions.items() if key.lower() == "co2"), None)
 
     def _cumulative_rate_kg(self) -> TimeSeriesVolumesCumulative:
         return self._co2_emission_result().get_cumulative_kg()
-- 
2.43.0


From f635d4e0d372230f60406a346be0c4efccb45a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:26 +0000
Subject: [PATCH 17/88] fix: variables restricted to a period that reaches
 outside the run

---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From 10680acd6a81e705c8cf0623a09569d424065548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 18/88] fix: HEAD_MARGIN is given in meter liquid column,
 convert it to the head unit of the pump model

---
 .../presentation/yaml/mappers/facility_input.py      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index b789dc2..81cf13b 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,5 @@
 from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
 from libecalc.domain.resource import Resource
@@ -17,6 +18,13 @@ def _get_float_column_or_none(resource: Resource, header: str) -> list[float] |
         return None
 
 
+def _convert_head_margin(head_margin_meter_liquid_column: float) -> float:
+    """HEAD_MARGIN is given in meter liquid column, while the pump model works with head in J/kg."""
+    return Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN.to(Unit.POLYTROPIC_HEAD_JOULE_PER_KG)(
+        head_margin_meter_liquid_column
+    )
+
+
 def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
@@ -24,7 +32,7 @@ def _create_pump_model_single_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_convert_head_margin(facility_data.head_margin),
     )
 
 
@@ -35,7 +43,7 @@ def _create_pump_chart_variable_speed_dto_model_data(
     pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
     return PumpModel(
         pump_chart=pump_chart,
-        head_margin=facility_data.head_margin,
+        head_margin=_convert_head_margin(facility_data.head_margin),
     )
 
 
-- 
2.43.0


From 8b7cd7b5084b85fb1947dbed64d7290685ed8c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:43 +0000
Subject: [PATCH 19/88] fix: pump charts without EFFICIENCY are 100 percent
 efficient as documented

---
 .../mappers/charts/user_defined_chart_data.py | 26 ++++++++++++++++---
 .../yaml/mappers/facility_input.py            |  8 ++++--
 .../mappers/pump_process_simulation_mapper.py |  1 +
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index e904d41..ac07574 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -5,6 +5,7 @@ import pandas as pd
 
 from libecalc.common.chart_type import ChartType
 from libecalc.common.errors.exceptions import HeaderNotFoundException, InvalidColumnException
+from libecalc.common.units import Unit
 from libecalc.domain.process.value_objects.chart import ChartCurve
 from libecalc.domain.process.value_objects.chart.chart import ChartData
 from libecalc.domain.resource import Resource
@@ -54,11 +55,23 @@ class UserDefinedChartData(ChartData):
 
     @classmethod
     def from_resource(
-        cls, resource: Resource, units: YamlUnits, is_single_speed: bool, control_margin: float | None = None
+        cls,
+        resource: Resource,
+        units: YamlUnits,
+        is_single_speed: bool,
+        control_margin: float | None = None,
+        efficiency_is_optional: bool = False,
     ) -> "UserDefinedChartData":
+        """
+        Args:
+            efficiency_is_optional: If True, the efficiency is 100% when the resource has no efficiency column.
+        """
         rate_unit = YAML_UNIT_MAPPING[units.rate]
         head_unit = YAML_UNIT_MAPPING[units.head]
         efficiency_unit = YAML_UNIT_MAPPING[units.efficiency]
+        use_default_efficiency = (
+            efficiency_is_optional and EcalcYamlKeywords.consumer_chart_efficiency not in resource.get_headers()
+        )
         if is_single_speed:
             try:
                 speed_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_speed)
@@ -74,15 +87,20 @@ class UserDefinedChartData(ChartData):
                 logger.debug("Speed not specified for single speed chart, setting speed to 1.")
                 speed = 1
 
-            efficiency_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_efficiency)
             rate_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_rate)
             head_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_head)
+            if use_default_efficiency:
+                efficiency_fractions = [1.0] * len(rate_values)
+            else:
+                efficiency_fractions = convert_efficiency_to_fraction(
+                    resource.get_float_column(EcalcYamlKeywords.consumer_chart_efficiency), efficiency_unit
+                )
             curves = [
                 ChartCurve(
                     speed_rpm=speed,
                     rate_actual_m3_hour=convert_rate_to_am3_per_hour(rate_values, rate_unit),
                     polytropic_head_joule_per_kg=convert_head_to_joule_per_kg(head_values, head_unit),
-                    efficiency_fraction=convert_efficiency_to_fraction(efficiency_values, efficiency_unit),
+                    efficiency_fraction=efficiency_fractions,
                 )
             ]
         else:
@@ -96,6 +114,8 @@ class UserDefinedChartData(ChartData):
                 column = resource.get_float_column(header)
                 resource_data.append(column)
             df = pd.DataFrame(data=resource_data, index=resource_headers).transpose().astype(float)
+            if use_default_efficiency:
+                df[EcalcYamlKeywords.consumer_chart_efficiency] = Unit.FRACTION.to(efficiency_unit)(1.0)
             grouped_by_speed = df.groupby(EcalcYamlKeywords.consumer_chart_speed, sort=False)
             curves = [
                 ChartCurve(
diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index 81cf13b..13a90ce 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -29,7 +29,9 @@ def _create_pump_model_single_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartSingleSpeed,
 ) -> PumpModel:
-    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=True)
+    pump_chart = UserDefinedChartData.from_resource(
+        resource, units=facility_data.units, is_single_speed=True, efficiency_is_optional=True
+    )
     return PumpModel(
         pump_chart=pump_chart,
         head_margin=_convert_head_margin(facility_data.head_margin),
@@ -40,7 +42,9 @@ def _create_pump_chart_variable_speed_dto_model_data(
     resource: Resource,
     facility_data: YamlPumpChartVariableSpeed,
 ) -> PumpModel:
-    pump_chart = UserDefinedChartData.from_resource(resource, units=facility_data.units, is_single_speed=False)
+    pump_chart = UserDefinedChartData.from_resource(
+        resource, units=facility_data.units, is_single_speed=False, efficiency_is_optional=True
+    )
     return PumpModel(
         pump_chart=pump_chart,
         head_margin=_convert_head_margin(facility_data.head_margin),
diff --git a/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py b/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
index 1f57281..30e0a5a 100644
--- a/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/pump_process_simulation_mapper.py
@@ -159,6 +159,7 @@ class PumpProcessSimulationMapper:
                 resource,
                 units=model.units,
                 is_single_speed=isinstance(model, YamlPumpChartSingleSpeed),
+                efficiency_is_optional=True,
             )
         except InvalidResourceException as error:
             raise EcalcValidationException(str(error)) from error
-- 
2.43.0


From 1e85a95e51740eeaf5bff37d8879be9f1f1dfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:54 +0000
Subject: [PATCH 20/88] fix: peak usage from shore is the largest value within
 the reported period

---
 src/libecalc/presentation/exporter/queries.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libecalc/presentation/exporter/queries.py b/src/libecalc/presentation/exporter/queries.py
index c367740..6cb1d98 100644
--- a/src/libecalc/presentation/exporter/queries.py
+++ b/src/libecalc/presentation/exporter/queries.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 
 from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
 from libecalc.common.units import Unit
-from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
+from libecalc.common.utils.rates import TimeSeriesVolumes
 from libecalc.presentation.exporter.domain.exportable import Exportable
 
 
@@ -261,18 +261,12 @@ class MaxUsageFromShoreQuery(Query):
             for period, production_volume in attribute.datapoints():
                 aggregated_result[period] += production_volume
 
-        sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
-        sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
-        period_keys = list(sorted_result.keys())
+        max_usage = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **aggregated_result}
 
         # Max usage from shore is time series float (values)
-        # The maximum value with in each period in sorted_results should be found for the new periods
-
+        # The maximum value within each of the new periods is the largest of the values in force during that period
         return {
-            period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit)
-            .resample(freq=frequency)
-            .for_period(period)
-            .max
+            period: max(value for original, value in max_usage.items() if Period.intersects(original, period))
             for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)
         }
 
-- 
2.43.0


From 77f7439716e698049ca01c5867b958cb93d036a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 21/88] fix: an invalid component does not remove the other
 contributions from exported columns

---
 src/libecalc/presentation/exporter/infrastructure.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/exporter/infrastructure.py b/src/libecalc/presentation/exporter/infrastructure.py
index eb97232..b421984 100644
--- a/src/libecalc/presentation/exporter/infrastructure.py
+++ b/src/libecalc/presentation/exporter/infrastructure.py
@@ -29,7 +29,8 @@ class TimeSeriesAttribute(Attribute):
         self._time_series = time_series
 
     def datapoints(self) -> Iterable[tuple[Period, float]]:
-        return self._time_series.datapoints()
+        # An undefined value (invalid component) contributes nothing, it should not remove the other contributions
+        return ((period, 0.0 if math.isnan(value) else value) for period, value in self._time_series.datapoints())
 
     def get_meta(self) -> AttributeMeta:
         return self._attribute_meta
@@ -207,8 +208,6 @@ class InstallationExportable(Exportable):
 
             for period, attribute_meta in self._combine_categories(fuel_category, consumer_category):  # type: ignore[arg-type]
                 fuel_consumption_volumes = fuel_rate.rate.for_period(period).to_volumes()
-                if any(math.isnan(x) for x in fuel_consumption_volumes.values):
-                    pass
                 attributes.append(
                     TimeSeriesAttribute(
                         time_series=fuel_consumption_volumes,
-- 
2.43.0


From 3e167ea97cabfae67b7628acfa43ddb18cb74746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:56 +0000
Subject: [PATCH 22/88] fix: maximum rate of sampled compressors with more than
 one varying variable

get_max_rate of the 2D and 3D models needs the pressures; calling it without
arguments raised TypeError as soon as cross-over was used in a system.
---
 .../compressor/core/sampled/compressor_model_sampled.py     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 517a281..5141327 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -102,6 +102,7 @@ class CompressorModelSampled:
 
         apparent_dimension: int = len(self.required_variables)
         non_degenerated_variables: list[str] = self._non_degenerated_variables(sampled_data[self.required_variables])
+        self._non_degenerated_variable_names = non_degenerated_variables
         geometric_dimension: int = len(non_degenerated_variables)
         degenerated_variables: list[str] = (
             [var for var in self.required_variables if var not in non_degenerated_variables]
@@ -148,9 +149,12 @@ class CompressorModelSampled:
         number_of_calculation_points = len(suction_pressures) if suction_pressures is not None else 1
         if self.support_max_rate:
             if self._qhull_sampled.support_max_rate:
+                pressures = {PS_NAME: suction_pressures, PD_NAME: discharge_pressures}
                 return np.full(
                     shape=number_of_calculation_points,
-                    fill_value=self._qhull_sampled.get_max_rate(),  # type: ignore[call-arg]
+                    fill_value=self._qhull_sampled.get_max_rate(
+                        *[pressures[name] for name in self._non_degenerated_variable_names if name != RATE_NAME]
+                    ),
                 )
             else:
                 return np.full(shape=number_of_calculation_points, fill_value=self._degenerated_rate)
-- 
2.43.0


From efcb18c4a1e473a3c315a1ca467adeba792453d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 23/88] fix: compare the adjusted turbine load with the
 turbine's maximum load

The reported load, the fuel and max_power all use the adjusted load, but the
overload check used the load before the power adjustment.
---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From 47b6cf587539573462fd2981763936011453d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:20 +0000
Subject: [PATCH 24/88] fix: maximum rate of a turbine driven compressor

Sampled compressors have no fluid model, so asking for the maximum rate (needed
for cross-over) raised AttributeError. The turbine capacity was also compared
with the compressor power without the adjustment applied when evaluating.
---
 .../domain/process/compressor/core/base.py    | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/base.py b/src/libecalc/domain/process/compressor/core/base.py
index b0b0d51..45d4259 100644
--- a/src/libecalc/domain/process/compressor/core/base.py
+++ b/src/libecalc/domain/process/compressor/core/base.py
@@ -52,12 +52,7 @@ class CompressorWithTurbineModel:
         energy_result = compressor_energy_function_result.get_energy_result()
         if energy_result.power is not None:
             # The compressor energy function evaluates to a power load in this case
-            load_adjusted = np.where(
-                np.asarray(energy_result.power.values) > 0,
-                np.asarray(energy_result.power.values) * self._energy_usage_adjustment_factor
-                + self._energy_usage_adjustment_constant,
-                np.asarray(energy_result.power.values),
-            )
+            load_adjusted = self._get_turbine_load(np.asarray(energy_result.power.values))
             turbine_result = self.turbine_model.evaluate(load=load_adjusted)
             compressor_energy_function_result.turbine_result = turbine_result
 
@@ -68,13 +63,26 @@ class CompressorWithTurbineModel:
 
         return compressor_energy_function_result
 
+    def _get_turbine_load(self, power: NDArray[np.float64]) -> NDArray[np.float64]:
+        return np.where(
+            power > 0,
+            power * self._energy_usage_adjustment_factor + self._energy_usage_adjustment_constant,
+            power,
+        )
+
+    def _get_compressor_fluid_model(self):
+        # Sampled compressors do not use a fluid model
+        if isinstance(self.compressor_model, CompressorModelSampled):
+            return None
+        return self.compressor_model._fluid_model
+
     def _calculate_remaining_capacity_in_train_given_standard_rate(
         self, standard_rate: float, suction_pressure: float, discharge_pressure: float, max_power: float
     ) -> float:
         """Expression used in optimization to find the rate that utilizes the compressor trains capacity."""
 
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._get_compressor_fluid_model(),
             rate=np.asarray([standard_rate]),
             suction_pressure=np.asarray([suction_pressure]),
             discharge_pressure=np.asarray([discharge_pressure]),
@@ -83,7 +91,8 @@ class CompressorWithTurbineModel:
         energy_result = result.get_energy_result()
         if energy_result.power is None or len(energy_result.power.values) == 0:
             return 0.0  # Return 0 if no power value available
-        return float(energy_result.power.values[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
+        turbine_load = self._get_turbine_load(np.asarray(energy_result.power.values))
+        return float(turbine_load[0]) - (max_power - POWER_CALCULATION_TOLERANCE)
 
     def get_max_standard_rate(
         self,
@@ -103,7 +112,7 @@ class CompressorWithTurbineModel:
         assert max_standard_rate is not None
         # Check if the obtained results are within the maximum load that the turbine can deliver
         self.compressor_model.set_evaluation_input(
-            fluid_model=self.compressor_model._fluid_model,
+            fluid_model=self._get_compressor_fluid_model(),
             rate=max_standard_rate,
             suction_pressure=suction_pressures,
             discharge_pressure=discharge_pressures,
@@ -114,7 +123,7 @@ class CompressorWithTurbineModel:
         max_power = self.turbine_model.max_power
 
         if energy_result.power is not None:
-            powers = np.asarray(energy_result.power.values)
+            powers = self._get_turbine_load(np.asarray(energy_result.power.values))
             for i, (power, suction_pressure, discharge_pressure) in enumerate(
                 zip(powers, suction_pressures, discharge_pressures)
             ):
-- 
2.43.0


From 276a5662c4abc46234311bdc8d147205c3c49c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:42 +0000
Subject: [PATCH 25/88] fix: a tabulated consumer uses no energy when its
 condition is false

The variables were set to zero and looked up in the table, giving the idle
value or an invalid result.
---
 .../legacy_consumer/tabulated/tabular_consumer_function.py   | 4 ++++
 src/libecalc/domain/time_series_variable.py                  | 5 +++++
 .../yaml/domain/expression_time_series_variable.py           | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
index 78a7e6c..508e6bd 100644
--- a/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
+++ b/src/libecalc/domain/infrastructure/energy_components/legacy_consumer/tabulated/tabular_consumer_function.py
@@ -111,6 +111,10 @@ class TabularConsumerFunction(ConsumerFunction):
         variables_array_for_evaluation = np.transpose(variables_array_for_evaluation)
         energy_usage = self._tabular_energy_function.interpolate(variables_array_for_evaluation)
 
+        # No energy is used when the condition is false, regardless of what the table says for variables equal to zero
+        is_active = np.all([variable.is_active() for variable in variables], axis=0)
+        energy_usage = np.where(is_active, energy_usage, 0.0)
+
         energy_usage_list = array_to_list(energy_usage)
         if energy_usage_list is None:
             energy_usage_list = []  # Provide empty list as fallback
diff --git a/src/libecalc/domain/time_series_variable.py b/src/libecalc/domain/time_series_variable.py
index bd4e68a..32a01bf 100644
--- a/src/libecalc/domain/time_series_variable.py
+++ b/src/libecalc/domain/time_series_variable.py
@@ -13,3 +13,8 @@ class TimeSeriesVariable(ABC):
 
     @abstractmethod
     def get_periods(self) -> Periods: ...
+
+    @abstractmethod
+    def is_active(self) -> list[bool]:
+        """Whether the consumer using this variable is in use, i.e. the condition is true, in each period"""
+        ...
diff --git a/src/libecalc/presentation/yaml/domain/expression_time_series_variable.py b/src/libecalc/presentation/yaml/domain/expression_time_series_variable.py
index 4d8b0fc..be6aa73 100644
--- a/src/libecalc/presentation/yaml/domain/expression_time_series_variable.py
+++ b/src/libecalc/presentation/yaml/domain/expression_time_series_variable.py
@@ -46,6 +46,10 @@ class ExpressionTimeSeriesVariable(TimeSeriesVariable):
 
         return values.tolist()
 
+    def is_active(self) -> list[bool]:
+        mask = self._time_series_expression.get_condition_mask()
+        return (mask.apply(np.ones(len(self.get_periods()))) != 0).tolist()
+
     def get_periods(self) -> Periods:
         """
         Returns the periods associated with the time series expression.
-- 
2.43.0


From 0e3b48f92f353e2e7888aeb737ff72bd2797b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:44 +0000
Subject: [PATCH 26/88] fix: model comparison lost the power difference when
 only one model has power

---
 src/libecalc/presentation/simple_result/simple.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index e4100a8..3a22478 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -68,6 +68,17 @@ def _subtract_list(first: list[float], second: list[float]):
     return subtracted
 
 
+def _subtract_optional_list(first: list[float] | None, second: list[float] | None) -> list[float] | None:
+    """Subtract where one of the lists may be absent, i.e. zero."""
+    if first is None and second is None:
+        return None
+
+    return _subtract_list(
+        first if first is not None else [0] * len(second),  # type: ignore[arg-type]
+        second if second is not None else [0] * len(first),  # type: ignore[arg-type]
+    )
+
+
 class SimpleComponentResult(SimpleBase):
     componentType: ComponentType
     component_level: ComponentLevel
@@ -173,7 +184,7 @@ class SimpleComponentResult(SimpleBase):
             component_level=component.component_level,
             parent=component.parent,
             name=component.name,
-            power=power,
+            power=power if component.power is not None else None,
             energy_usage=energy_usage,
             energy_usage_unit=component.energy_usage_unit,
             emissions=emissions,
@@ -211,7 +222,7 @@ class SimpleComponentResult(SimpleBase):
             is_valid=[changed and reference for changed, reference in zip(self.is_valid, reference_component.is_valid)],
             energy_usage=_subtract_list(self.energy_usage, reference_component.energy_usage),
             energy_usage_unit=self.energy_usage_unit,
-            power=_subtract_list(self.power, reference_component.power),  # type: ignore[arg-type]
+            power=_subtract_optional_list(self.power, reference_component.power),
             emissions={
                 self_e.name: self_e - reference_e
                 for self_e, reference_e in zip(
-- 
2.43.0


From bf22f18e789e3fa21557cd610007407957c9891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:44 +0000
Subject: [PATCH 27/88] fix: model comparison should not change the compared
 models

---
 src/libecalc/presentation/simple_result/simple.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libecalc/presentation/simple_result/simple.py b/src/libecalc/presentation/simple_result/simple.py
index 3a22478..8d2831d 100644
--- a/src/libecalc/presentation/simple_result/simple.py
+++ b/src/libecalc/presentation/simple_result/simple.py
@@ -318,6 +318,10 @@ class SimpleResultData(SimpleBase):
 
     @classmethod
     def _normalize_emissions(cls, changed_component, reference_component):
+        # Components are copied, the given models should not be changed by a comparison
+        changed_component = changed_component.model_copy(update={"emissions": dict(changed_component.emissions)})
+        reference_component = reference_component.model_copy(update={"emissions": dict(reference_component.emissions)})
+
         emission_names = set(changed_component.emissions.keys()).union(x for x in reference_component.emissions)
 
         for emission_name in emission_names:
-- 
2.43.0


From 6a2a296db09d41c4407090def5d4462094e776c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:19 +0000
Subject: [PATCH 28/88] fix: cache statistics were missing for empty caches

---
 src/ecalc_neqsim_wrapper/fluid_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/fluid_service.py b/src/ecalc_neqsim_wrapper/fluid_service.py
index d81c4f1..e78cabf 100644
--- a/src/ecalc_neqsim_wrapper/fluid_service.py
+++ b/src/ecalc_neqsim_wrapper/fluid_service.py
@@ -517,6 +517,6 @@ def get_fluid_service_stats() -> dict[str, dict]:
     ref_cache = CacheService.get_cache(CacheName.REFERENCE_FLUID)
     flash_cache = CacheService.get_cache(CacheName.FLUID_SERVICE_FLASH)
     return {
-        CacheName.REFERENCE_FLUID.value: ref_cache.get_stats() if ref_cache else {},
-        CacheName.FLUID_SERVICE_FLASH.value: flash_cache.get_stats() if flash_cache else {},
+        CacheName.REFERENCE_FLUID.value: ref_cache.get_stats() if ref_cache is not None else {},
+        CacheName.FLUID_SERVICE_FLASH.value: flash_cache.get_stats() if flash_cache is not None else {},
     }
-- 
2.43.0


From c3f7f340ae40ff45c9ce7a9392607d513eb0d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 29/88] fix: a NeqSim session whose close failed could later
 close another session's engine

---
 src/ecalc_neqsim_wrapper/java_service.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ecalc_neqsim_wrapper/java_service.py b/src/ecalc_neqsim_wrapper/java_service.py
index 19d3d4b..2d4aa53 100644
--- a/src/ecalc_neqsim_wrapper/java_service.py
+++ b/src/ecalc_neqsim_wrapper/java_service.py
@@ -290,11 +290,11 @@ class NeqsimPy4JService(NeqsimService):
         CacheService.clear_all()
 
         global _neqsim_service
+        gateway, self._gateway = self._gateway, None
         try:
-            if type(_neqsim_service) is NeqsimPy4JService:
-                _neqsim_service._gateway.shutdown()
-                _neqsim_service._gateway = None
+            gateway.shutdown()
         except Exception:
             _logger.exception("Java gateway close failed")
         finally:
-            _neqsim_service = None
+            if _neqsim_service is self:
+                _neqsim_service = None
-- 
2.43.0


From 9b83aa2cd1f109e0d4426b9ce5a1574ce27134e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:48 +0000
Subject: [PATCH 30/88] fix: using a closed NeqSim session failed with an
 AttributeError

---
 src/ecalc_neqsim_wrapper/java_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecalc_neqsim_wrapper/java_service.py b/src/ecalc_neqsim_wrapper/java_service.py
index 2d4aa53..93b29e1 100644
--- a/src/ecalc_neqsim_wrapper/java_service.py
+++ b/src/ecalc_neqsim_wrapper/java_service.py
@@ -272,6 +272,8 @@ class NeqsimPy4JService(NeqsimService):
             _logger.info("NeqsimPy4JService: shutdown_on_exit=False, keeping JVM alive")
 
     def get_neqsim_module(self):
+        if self._gateway is None:
+            raise ProgrammingError("The NeqsimService session has been shut down. Initialize a new one before use.")
         return self._gateway.jvm.neqsim
 
     def shutdown(self):
-- 
2.43.0


From f2394ffc839242ab0334dd305e76c3f6eaf322b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:51 +0000
Subject: [PATCH 31/88] fix: year-only dates were rejected when another column
 had decimals

---
 src/libecalc/presentation/yaml/yaml_entities.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 89f64bf..c5ce083 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -89,15 +89,14 @@ class MemoryResource(Resource):
         cls._validate_headers(headers)
 
         if not allow_nans:
-            tmp_data: list[list[float | int | str]] = df_resource.T.values.tolist()
-            cls._validate_not_nan(tmp_data, headers)
+            cls._validate_not_nan(cls._get_columns(df_resource), headers)
 
         data: list[list[float | int | str]]
         if df_resource.empty:
             # Empty column data is fine, but it must retain the shape of the headers.
             data = [[] * len(headers)]
         else:
-            data = df_resource.T.values.tolist()
+            data = cls._get_columns(df_resource)
 
         return MemoryResource(headers=headers, data=data)
 
@@ -115,6 +114,11 @@ class MemoryResource(Resource):
         with open(path) as f:
             return MemoryResource.from_string(f.read(), allow_nans=allow_nans)
 
+    @staticmethod
+    def _get_columns(df: pd.DataFrame) -> list[list[float | int | str]]:
+        # One column at a time, converting all columns at once would give them a common type (i.e. int -> float).
+        return [df.iloc[:, column_index].tolist() for column_index in range(df.shape[1])]
+
     @staticmethod
     def _validate_headers(headers: list[str]) -> None:
         """Ensure headers only contains allowed characters, and no unnamed columns exist.
-- 
2.43.0


From f7b6686aee0c3fd794336cd3bdacf08208ccbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:41 +0000
Subject: [PATCH 32/88] fix: fractions of a second in a time series were read
 as a time zone, giving times that could not be used

---
 src/libecalc/presentation/yaml/domain/time_series_resource.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/domain/time_series_resource.py b/src/libecalc/presentation/yaml/domain/time_series_resource.py
index 1a780d1..aefd510 100644
--- a/src/libecalc/presentation/yaml/domain/time_series_resource.py
+++ b/src/libecalc/presentation/yaml/domain/time_series_resource.py
@@ -139,7 +139,7 @@ class TimeSeriesResource(Resource):
             "ISO8601_date": r"(\d{4})(\.|\/|-)(1[0-2]|0?[1-9])\2(3[01]|[12][0-9]|0?[1-9])",
             # ISO8601 date and time e.g. '2024-01-31 13:37:59', '2024-12-01 23:59:59'.
             # "ISO8601_datetime": r"(\d{4})(\.|\/|-)(1[0-2]|0?[1-9])\2(3[01]|[12][0-9]|0?[1-9])((\s|T)(\d{2}:){2}\d{2})",
-            "ISO8601_datetime": r"^(-?(?:[1-9][0-9]*)?[0-9]{4})(\.|\/|-)(1[0-2]|0[1-9])(\.|\/|-)(3[01]|0[1-9]|[12][0-9])(T|\s)(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?$",
+            "ISO8601_datetime": r"^(-?(?:[1-9][0-9]*)?[0-9]{4})(\.|\/|-)(1[0-2]|0[1-9])(\.|\/|-)(3[01]|0[1-9]|[12][0-9])(T|\s)(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\.[0-9]+)?$",
             # European standard (day first) e.g. '31-01-2024', '1/12/2024', '01.12.2024'.
             "EU_date": r"(3[01]|[12][0-9]|0?[1-9])(\.|\/|-)(1[0-2]|0?[1-9])\2(\d{4})",
             # European date with time, e.g. e.g. '31-01-2024 13:37:59', '1/12/2024 10:30:00', '01.01.2024 13:37')
@@ -157,6 +157,8 @@ class TimeSeriesResource(Resource):
         if check_dates.str.fullmatch(date_patterns["YEAR_ONLY"]).all():
             return pd.to_datetime(date_list, format="%Y", errors="raise").to_pydatetime().tolist()
         if check_dates.str.fullmatch(date_patterns["ISO8601_datetime"]).all():
+            # Only replace separators in the date, the '.' in fractions of a second should be kept.
+            date_list = check_dates.str.replace(r"[/.-](\d{2})[/.-](\d{2})(?=[T\s])", r"-\1-\2", regex=True).tolist()
             return pd.to_datetime(date_list, format="ISO8601", errors="raise").to_pydatetime().tolist()
         if check_dates.str.fullmatch(date_patterns["ISO8601_date"]).all():
             return pd.to_datetime(date_list, format="ISO8601", errors="raise").to_pydatetime().tolist()
-- 
2.43.0


From ead8946723bd53e7b224f4f04e03aca471ea3a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:41 +0000
Subject: [PATCH 33/88] fix: column was read from another column when headers
 only differ in case

---
 src/libecalc/presentation/yaml/yaml_entities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index c5ce083..d0570ad 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -44,9 +44,10 @@ class MemoryResource(Resource):
             ColumnNotFoundException: If the header is found but there is no column data for it.
         """
         try:
+            # An exact match is preferred, there might be several headers that only differ in case.
             header_index = next(
-                (i for i, h in enumerate(self.headers) if h.lower() == header.lower()),
-                None,
+                (i for i, h in enumerate(self.headers) if h == header),
+                next((i for i, h in enumerate(self.headers) if h.lower() == header.lower()), None),
             )
             if header_index is None:
                 raise HeaderNotFoundException(header=header)
-- 
2.43.0


From 2677fb3c6fb5a3c0dd674e18917fbeb9d1e07188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:25 +0000
Subject: [PATCH 34/88] fix: another column was read as dates when the date
 header was not in upper case

---
 .../yaml/domain/time_series_resource.py       | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/libecalc/presentation/yaml/domain/time_series_resource.py b/src/libecalc/presentation/yaml/domain/time_series_resource.py
index aefd510..ae3a528 100644
--- a/src/libecalc/presentation/yaml/domain/time_series_resource.py
+++ b/src/libecalc/presentation/yaml/domain/time_series_resource.py
@@ -42,14 +42,20 @@ class TimeSeriesResource(Resource):
         if len(headers) == 0:
             raise InvalidResourceException("Invalid resource", "Resource must at least have one column")
 
-        if EcalcYamlKeywords.date in headers:
-            # Find the column named "DATE" and use that as time vector
-            time_vector = resource.get_column(EcalcYamlKeywords.date)
-            headers = [header for header in headers if header != EcalcYamlKeywords.date]
-        elif EcalcYamlKeywords.dates in headers:
-            # Find the column named "DATES" and use that as time vector
-            time_vector = resource.get_column(EcalcYamlKeywords.dates)
-            headers = [header for header in headers if header != EcalcYamlKeywords.dates]
+        time_header = next(
+            (
+                header
+                for keyword in (EcalcYamlKeywords.date, EcalcYamlKeywords.dates)
+                # Header names are case-insensitive, but prefer an exact match
+                for header in sorted(headers, key=lambda header: header != keyword)
+                if header.upper() == keyword
+            ),
+            None,
+        )
+        if time_header is not None:
+            # Find the column named "DATE" or "DATES" and use that as time vector
+            time_vector = resource.get_column(time_header)
+            headers = [header for header in headers if header != time_header]
         else:
             # Legacy: support random names for time vector as long as it is the first column
             time_vector = resource.get_column(headers[0])
-- 
2.43.0


From 9dd207bf2110858ce495e5a69e303ef8d22167a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:29 +0000
Subject: [PATCH 35/88] fix: columns were shifted when rows have more values
 than there are headers

---
 .../presentation/yaml/yaml_entities.py        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index d0570ad..6b7e01c 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -1,5 +1,6 @@
 import math
 import re
+import warnings
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
@@ -75,9 +76,21 @@ class MemoryResource(Resource):
             MemoryResource.
         """
         try:
-            df_resource = pd.read_csv(
-                StringIO(csv_data), comment="#", float_precision="round_trip", skipinitialspace=True, thousands=" "
-            )
+            with warnings.catch_warnings():
+                # Fail if there are more values than headers, instead of ignoring those values
+                warnings.simplefilter("error", category=pd.errors.ParserWarning)
+                df_resource = pd.read_csv(
+                    StringIO(csv_data),
+                    comment="#",
+                    float_precision="round_trip",
+                    skipinitialspace=True,
+                    thousands=" ",
+                    index_col=False,  # Never use the first column(s) as index, that will shift the columns
+                )
+        except pd.errors.ParserWarning as e:
+            raise InvalidResourceException(
+                title="Invalid CSV data", message="There are more values than headers in one or more rows."
+            ) from e
         except pd.errors.ParserError as e:
             msg = str(e)
             if "Expected" in msg:
-- 
2.43.0


From 6edb1b4705d660341c35cd7aed68c56f550e1161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 36/88] fix: boolean values in input files were read as the
 numbers 1 and 0

---
 src/libecalc/presentation/yaml/yaml_entities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_entities.py b/src/libecalc/presentation/yaml/yaml_entities.py
index 6b7e01c..19602fd 100644
--- a/src/libecalc/presentation/yaml/yaml_entities.py
+++ b/src/libecalc/presentation/yaml/yaml_entities.py
@@ -131,7 +131,9 @@ class MemoryResource(Resource):
     @staticmethod
     def _get_columns(df: pd.DataFrame) -> list[list[float | int | str]]:
         # One column at a time, converting all columns at once would give them a common type (i.e. int -> float).
-        return [df.iloc[:, column_index].tolist() for column_index in range(df.shape[1])]
+        columns = [df.iloc[:, column_index].tolist() for column_index in range(df.shape[1])]
+        # pandas will parse 'True' and 'False', keep those as text to avoid reading them as the numbers 1 and 0.
+        return [[str(value) if isinstance(value, bool) else value for value in column] for column in columns]
 
     @staticmethod
     def _validate_headers(headers: list[str]) -> None:
-- 
2.43.0


From dde2688fc9d15f8f04f66369c6fd5ac761381f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:23 +0000
Subject: [PATCH 37/88] fix: EFFICIENCY and FUEL columns were ignored when the
 header was not in upper case

---
 .../yaml/mappers/charts/user_defined_chart_data.py          | 6 ++++--
 .../presentation/yaml/mappers/consumer_function_mapper.py   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index ac07574..0d6e1ba 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -69,8 +69,10 @@ class UserDefinedChartData(ChartData):
         rate_unit = YAML_UNIT_MAPPING[units.rate]
         head_unit = YAML_UNIT_MAPPING[units.head]
         efficiency_unit = YAML_UNIT_MAPPING[units.efficiency]
-        use_default_efficiency = (
-            efficiency_is_optional and EcalcYamlKeywords.consumer_chart_efficiency not in resource.get_headers()
+        use_default_efficiency = efficiency_is_optional and not any(
+            # Header names are case-insensitive
+            header.upper() == EcalcYamlKeywords.consumer_chart_efficiency
+            for header in resource.get_headers()
         )
         if is_single_speed:
             try:
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 9830366..eef4dfa 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -793,7 +793,7 @@ class CompressorModelMapper:
         resource = self._get_resource(model.file, reference)
         resource_headers = resource.get_headers()
 
-        has_fuel = fuel_header in resource_headers
+        has_fuel = any(header.upper() == fuel_header for header in resource_headers)  # case-insensitive
 
         energy_usage_header = fuel_header if has_fuel else power_header
 
-- 
2.43.0


From 36fa0736fe5d513d2f75c13a0de1c51f81413378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:06 +0000
Subject: [PATCH 38/88] fix: sampled compressor columns with non-numeric values
 were silently ignored

---
 src/libecalc/presentation/yaml/mappers/facility_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/facility_input.py b/src/libecalc/presentation/yaml/mappers/facility_input.py
index 13a90ce..df8287b 100644
--- a/src/libecalc/presentation/yaml/mappers/facility_input.py
+++ b/src/libecalc/presentation/yaml/mappers/facility_input.py
@@ -1,4 +1,4 @@
-from libecalc.common.errors.exceptions import InvalidResourceException
+from libecalc.common.errors.exceptions import HeaderNotFoundException
 from libecalc.common.units import Unit
 from libecalc.domain.infrastructure.energy_components.generator_set import GeneratorSetModel
 from libecalc.domain.process.pump.pump import PumpModel
@@ -14,7 +14,7 @@ from libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model im
 def _get_float_column_or_none(resource: Resource, header: str) -> list[float] | None:
     try:
         return resource.get_float_column(header)
-    except InvalidResourceException:
+    except HeaderNotFoundException:
         return None
 
 
-- 
2.43.0


From ef717cd5c88b16c7a3e86266687cd60c876399ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:31 +0000
Subject: [PATCH 39/88] fix: missing columns in a variable speed chart file
 gave a KeyError

---
 .../mappers/charts/user_defined_chart_data.py | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index 0d6e1ba..c343e4f 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -106,16 +106,20 @@ class UserDefinedChartData(ChartData):
                 )
             ]
         else:
-            resource_headers = resource.get_headers()
-
-            if "SPEED" not in resource_headers:
-                raise InvalidColumnException(message="Resource is missing SPEED header!", header="SPEED")
+            try:
+                speed_values = resource.get_float_column(EcalcYamlKeywords.consumer_chart_speed)
+            except HeaderNotFoundException as e:
+                raise InvalidColumnException(message="Resource is missing SPEED header!", header="SPEED") from e
 
-            resource_data = []
-            for header in resource_headers:
-                column = resource.get_float_column(header)
-                resource_data.append(column)
-            df = pd.DataFrame(data=resource_data, index=resource_headers).transpose().astype(float)
+            # Header names are case-insensitive
+            resource_data = {EcalcYamlKeywords.consumer_chart_speed: speed_values}
+            for header in (
+                EcalcYamlKeywords.consumer_chart_rate,
+                EcalcYamlKeywords.consumer_chart_head,
+                *([] if use_default_efficiency else [EcalcYamlKeywords.consumer_chart_efficiency]),
+            ):
+                resource_data[header] = resource.get_float_column(header)
+            df = pd.DataFrame(data=resource_data)
             if use_default_efficiency:
                 df[EcalcYamlKeywords.consumer_chart_efficiency] = Unit.FRACTION.to(efficiency_unit)(1.0)
             grouped_by_speed = df.groupby(EcalcYamlKeywords.consumer_chart_speed, sort=False)
-- 
2.43.0


From 03f43bef647570b349d65438aeb050f0eae52a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:00 +0000
Subject: [PATCH 40/88] fix: TABULATED variables not matching the table gave an
 internal error during the calculation

---
 .../presentation/yaml/mappers/consumer_function_mapper.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index eef4dfa..d15fcf4 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1063,6 +1063,12 @@ class ConsumerFunctionMapper:
         if consumes != energy_usage_type_as_consumption_type:
             raise InvalidConsumptionType(actual=energy_usage_type_as_consumption_type, expected=consumes)
 
+        if sorted(variable.name for variable in model.variables) != sorted(energy_model.required_variables):
+            raise EcalcValidationException(
+                f"The variables should correspond to the columns of the facility input "
+                f"'{model.energy_function}', expected: {', '.join(energy_model.required_variables)}."
+            )
+
         power_loss_factor_expression = TimeSeriesExpression(
             expression=model.power_loss_factor, expression_evaluator=period_evaluator
         )
-- 
2.43.0


From 641a800d3a29433994b33ee164be69c549f8c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:25 +0000
Subject: [PATCH 41/88] fix: an !include is resolved by the model that contains
 it, not by an earlier read model

---
 .../presentation/yaml/yaml_models/pyyaml_yaml_model.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 8fa31b6..45ab5df 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -161,9 +161,11 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
             base_dir: Path | None = None,
             resources: dict[str, TextIO] | None = None,
         ):
-            self.__loader = loader
+            # The include constructor belongs to this reader only, it should not be shared with other readers through
+            # the loader class.
+            self.__loader = type(loader.__name__, (loader,), {})
             if enable_include and (base_dir or resources):
-                loader.add_constructor(
+                self.__loader.add_constructor(
                     "!include",
                     PyYamlYamlModel.IncludeConstructor(base_dir=base_dir, resources=resources),
                 )
-- 
2.43.0


From b6179741f88757e966c2e5d0e448a5619e83c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:25 +0000
Subject: [PATCH 42/88] fix: dates written as text are part of the dates of the
 model

---
 .../yaml/yaml_models/pyyaml_yaml_model.py      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 45ab5df..261925b 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -660,6 +660,20 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
         return self._get_closest_file_context(yaml_path)
 
 
+def _parse_date_key(key: Any) -> datetime.datetime | None:
+    """The date of a key in the yaml, None if the key is not a date. A date written as text is a date as well."""
+    if isinstance(key, datetime.date):
+        return convert_date_to_datetime(key)
+
+    if isinstance(key, str) and re.match(r"\d{4}-\d{2}-\d{2}", key):
+        try:
+            return datetime_parser(key)
+        except PydanticValidationError:
+            return None
+
+    return None
+
+
 def find_date_keys_in_yaml(yaml_object: list | dict) -> list[datetime.datetime]:
     """The function will add any dates found in the yaml_object to the list named output.
 
@@ -685,8 +699,8 @@ def find_date_keys_in_yaml(yaml_object: list | dict) -> list[datetime.datetime]:
 
     output = []
     for index in common_iterable(yaml_object):
-        if isinstance(index, datetime.date | datetime.datetime):
-            index_to_datetime = convert_date_to_datetime(index)
+        index_to_datetime = _parse_date_key(index)
+        if index_to_datetime is not None:
             if index_to_datetime not in output:
                 output.append(index_to_datetime)
         if isinstance(yaml_object[index], dict | list):
-- 
2.43.0


From a3524e18ee46a6e7ef1e925170f78f2cd2c38c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:39 +0000
Subject: [PATCH 43/88] fix: prognosis exports failed for an installation with
 a slash in its name

---
 src/libecalc/presentation/exporter/handlers/handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/exporter/handlers/handler.py b/src/libecalc/presentation/exporter/handlers/handler.py
index 68a602a..911fc87 100644
--- a/src/libecalc/presentation/exporter/handlers/handler.py
+++ b/src/libecalc/presentation/exporter/handlers/handler.py
@@ -76,6 +76,9 @@ class MultiFileHandler(Handler):
 
     def handle(self, grouped_row_based_data: dict[str, list[str]]):
         for group_name, rows in grouped_row_based_data.items():
-            with open(self.path / f"{self.prefix}.{group_name}{self.suffix}{self.extension}", "w") as file:
+            # A group name may contain a slash, which is not possible in a file name. A dot is not allowed in group names,
+            # i.e. the file names will still be unique.
+            file_name = group_name.replace("/", ".")
+            with open(self.path / f"{self.prefix}.{file_name}{self.suffix}{self.extension}", "w") as file:
                 for row in rows:
                     file.write(row + "\n")
-- 
2.43.0


From 4ec2a793c9344aee4d1ffa92ff23afb3ec010da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:56 +0000
Subject: [PATCH 44/88] fix: csv and emission intensity files lost the part of
 the name prefix after the last dot

---
 src/ecalc_cli/commands/run.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 0976f23..c826727 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -164,8 +164,6 @@ def run(
 
         run_info.end = datetime.now()
 
-        output_prefix: Path = output_folder / name_prefix
-
         results_dto = get_asset_result(model)
 
         if (
@@ -205,16 +203,14 @@ def run(
                 simple_output=not detailed_output,
                 date_format_option=int(date_format_option.value),
             )
-            write_output(output=csv_data, output_file=output_prefix.with_suffix(".csv"))
+            write_output(output=csv_data, output_file=output_folder / f"{name_prefix}.csv")
 
             # Emission intensity CSV
             intensity_csv_data = emission_intensity_to_csv(
                 emission_intensity_results_resampled,
                 DateTimeFormats.get_format(int(date_format_option.value)),
             )
-            write_output(
-                output=intensity_csv_data, output_file=output_prefix.with_name(f"{output_prefix.stem}_intensity.csv")
-            )
+            write_output(output=intensity_csv_data, output_file=output_folder / f"{name_prefix}_intensity.csv")
 
         if json:
             write_json(
@@ -226,7 +222,7 @@ def run(
                 simple_output=not detailed_output,
             )
             # Emission intensity JSON
-            intensity_json_path = output_prefix.with_name(f"{output_prefix.stem}_intensity.json")
+            intensity_json_path = output_folder / f"{name_prefix}_intensity.json"
             json_intensity_data = to_json(
                 emission_intensity_results_resampled,
                 date_format_option=int(date_format_option.value),
-- 
2.43.0


From a96706b16528b3105fe88cfdba7d5e18cb899f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:26 +0000
Subject: [PATCH 45/88] fix: a cache size of 0 on the command line disables the
 cache, as documented

---
 src/ecalc_cli/commands/run.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index c826727..56474b3 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -100,12 +100,14 @@ def run(
     reference_cache_size: int | None = typer.Option(
         None,
         "--reference-cache-size",
+        min=0,
         help="Max entries in reference fluid cache (note: default covers most use cases). "
         "Increase for models with many compositions. Set to 0 to disable.",
     ),
     flash_cache_size: int | None = typer.Option(
         None,
         "--flash-cache-size",
+        min=0,
         help="Max entries in flash results cache (note: default covers most use cases). "
         "Increase for large models with many flash calculations. Set to 0 to disable.",
     ),
@@ -133,8 +135,10 @@ def run(
     if reference_cache_size is not None or flash_cache_size is not None:
         defaults = CacheConfig.default()
         config = CacheConfig(
-            reference_fluid_max_size=reference_cache_size or defaults.reference_fluid_max_size,
-            flash_max_size=flash_cache_size or defaults.flash_max_size,
+            reference_fluid_max_size=(
+                reference_cache_size if reference_cache_size is not None else defaults.reference_fluid_max_size
+            ),
+            flash_max_size=flash_cache_size if flash_cache_size is not None else defaults.flash_max_size,
         )
         NeqSimFluidService.configure(config)
 
-- 
2.43.0


From d35ce3b18afe69b76bfde7c7ffb17e76a9735d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 46/88] fix: upstream choke control of trains with a pressure
 drop ahead of a later stage

The lowest inlet pressure tried only left room for the pressure drop ahead of
the first stage, so the drop ahead of a later stage could make the pressure
negative and the evaluation fail with InsufficientInletPressureError.
---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 0b48cd9..7a77504 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -758,7 +758,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_discharge_pressure = constraints.discharge_pressure
 
         result_inlet_pressure = find_root(
-            lower_bound=EPSILON + self.stages[0].pressure_drop_ahead_of_stage,
+            lower_bound=EPSILON + sum(stage.pressure_drop_ahead_of_stage for stage in self.stages),
             upper_bound=target_discharge_pressure,
             func=lambda x: (
                 _calculate_train_result_given_inlet_pressure(inlet_pressure=x).discharge_pressure
-- 
2.43.0


From 5b6747b655952f9c2d72a6ab046b00e3a9f8cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 47/88] fix: common ASV control only considers rates within
 capacity of all stages

The search for the possible recirculation range accepted rates where a stage is
beyond its maximum flow (and could start the search outside the range), which
made some requests fail with IllegalStateException.
---
 .../train/compressor_train_common_shaft.py    | 43 +++++++++----------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 7a77504..f6dfce4 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -953,6 +953,10 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 constraints=constraints,
             )
 
+        def _common_recirculation_is_possible(train_result: CompressorTrainResultSingleTimeStep) -> bool:
+            """The same mass rate through all stages, and no stage beyond its maximum flow rate."""
+            return train_result.mass_rate_asv_corrected_is_constant_for_stages and train_result.within_capacity
+
         # outer bounds for minimum and maximum mass rate without individual recirculation on stages will be the
         # minimum and maximum mass rate for the first stage at the current (fixed) shaft speed, adjusted for the
         # volume entering the first stage
@@ -981,16 +985,14 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
             mass_rate_kg_per_hour=float(maximum_mass_rate)
         )
-        if train_result_for_minimum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
-            if not train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        if _common_recirculation_is_possible(train_result_for_minimum_mass_rate):
+            if not _common_recirculation_is_possible(train_result_for_maximum_mass_rate):
                 # find the maximum additional_mass_rate that gives train_results.is_valid
                 maximum_mass_rate = maximize_x_given_boolean_condition_function(
-                    x_min=0.0,
+                    x_min=minimum_mass_rate,
                     x_max=maximum_mass_rate,
-                    bool_func=lambda x: (
-                        _calculate_train_result_given_mass_rate(
-                            mass_rate_kg_per_hour=x
-                        ).mass_rate_asv_corrected_is_constant_for_stages
+                    bool_func=lambda x: _common_recirculation_is_possible(
+                        _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)
                     ),
                     convergence_tolerance=1e-3,
                     maximum_number_of_iterations=20,
@@ -998,15 +1000,13 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 train_result_for_maximum_mass_rate = _calculate_train_result_given_mass_rate(
                     mass_rate_kg_per_hour=maximum_mass_rate
                 )
-        elif train_result_for_maximum_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+        elif _common_recirculation_is_possible(train_result_for_maximum_mass_rate):
             # find the minimum additional_mass_rate that gives all points internal
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
                 x_min=-maximum_mass_rate,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _common_recirculation_is_possible(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
@@ -1021,7 +1021,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             train_result_for_mass_rate = _calculate_train_result_given_mass_rate(
                 mass_rate_kg_per_hour=minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             )
-            while not train_result_for_mass_rate.mass_rate_asv_corrected_is_constant_for_stages:
+            while not _common_recirculation_is_possible(train_result_for_mass_rate):
                 inc += 0.1
                 if inc >= 1:
                     logger.error("Single speed train with Common ASV pressure control has no solution!")
@@ -1031,24 +1031,21 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
 
             # found one solution, now find min and max
+            possible_mass_rate = minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)
             minimum_mass_rate = -maximize_x_given_boolean_condition_function(
-                x_min=-(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=-possible_mass_rate,
                 x_max=-minimum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=-x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _common_recirculation_is_possible(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=-x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
             )
             maximum_mass_rate = maximize_x_given_boolean_condition_function(
-                x_min=(minimum_mass_rate + inc * (maximum_mass_rate - minimum_mass_rate)),
+                x_min=possible_mass_rate,
                 x_max=maximum_mass_rate,
-                bool_func=lambda x: (
-                    _calculate_train_result_given_mass_rate(
-                        mass_rate_kg_per_hour=x
-                    ).mass_rate_asv_corrected_is_constant_for_stages
+                bool_func=lambda x: _common_recirculation_is_possible(
+                    _calculate_train_result_given_mass_rate(mass_rate_kg_per_hour=x)
                 ),
                 convergence_tolerance=1e-3,
                 maximum_number_of_iterations=20,
-- 
2.43.0


From 685ade9769026eb0d825939678b39616148d5a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 48/88] fix: report power above maximum also for individual ASV
 pressure control

The result of individual ASV pressure control, and of the maximum discharge
pressure, was never checked against the maximum power of the train.
---
 .../core/train/compressor_train_common_shaft.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index f6dfce4..db73491 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -16,6 +16,7 @@ from libecalc.common.numeric_methods import (
 )
 from libecalc.domain.process.compressor.core.results import (
     CompressorTrainResultSingleTimeStep,
+    CompressorTrainStageResultSingleTimeStep,
 )
 from libecalc.domain.process.compressor.core.train.base import CompressorTrainModel
 from libecalc.domain.process.compressor.core.train.stage import CompressorTrainStage
@@ -264,14 +265,15 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=previous_stage_outlet_stream,
             stage_results=stage_results,
             speed=self.shaft.get_speed(),
-            above_maximum_power=(
-                sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
-                if self.maximum_power
-                else False
-            ),
+            above_maximum_power=self._is_above_maximum_power(stage_results),
             target_pressure_status=target_pressure_status,
         )
 
+    def _is_above_maximum_power(self, stage_results: list[CompressorTrainStageResultSingleTimeStep]) -> bool:
+        if not self.maximum_power:
+            return False
+        return sum(stage_result.power_megawatt for stage_result in stage_results) > self.maximum_power
+
     def _validate_stages(self, stages: list[CompressorTrainStage]):
         # Check that the compressor stages have overlapping speed ranges
         min_speed_per_stage = []
@@ -698,6 +700,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 )
                 train_result.stage_results = new_train_result.stage_results
                 train_result.outlet_stream = new_train_result.outlet_stream
+                train_result.above_maximum_power = self._is_above_maximum_power(train_result.stage_results)
                 train_result.target_pressure_status = self.check_target_pressures(
                     constraints=constraints,
                     results=train_result,
@@ -895,6 +898,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             outlet_stream=stage_result.outlet_stream,
             speed=self.shaft.get_speed(),
             stage_results=stage_results,
+            above_maximum_power=self._is_above_maximum_power(stage_results),
             target_pressure_status=target_pressure_status,
         )
 
-- 
2.43.0


From c9cb29372acbf2af814f41ceeabdb03b50262d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 49/88] fix: maximum rate with a maximum power needs no more
 than the maximum power

The root search started from a bracket that does not belong to the function
(the recirculated rate), and could return rates needing several percent too
much power, or none at all.
---
 .../train/compressor_train_common_shaft.py    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index db73491..20ca27d 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -586,23 +586,19 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             if result_with_minimum_rate.power_megawatt > maximum_power:
                 return 0.0  # can't find solution
             else:
-                # iterate between rate with minimum power, and the previously found rate to return, to find the
+                # iterate between the minimum rate, and the previously found rate to return, to find the
                 # maximum rate that gives power consumption below maximum power
 
                 result = self._fluid_service.mass_rate_to_standard_rate(
                     fluid_model,
-                    find_root(
-                        lower_bound=result_with_minimum_rate.stage_results[0].mass_rate_asv_corrected_kg_per_hour,
-                        upper_bound=rate_to_return,
-                        func=lambda x: (
-                            self.evaluate_given_constraints(
-                                constraints=constraints.create_conditions_with_new_input(
-                                    new_rate=self._fluid_service.mass_rate_to_standard_rate(fluid_model, x),
-                                )
-                            ).power_megawatt
-                            - maximum_power * (1 - POWER_CALCULATION_TOLERANCE)
+                    maximize_x_given_boolean_condition_function(
+                        x_min=EPSILON,
+                        x_max=rate_to_return,
+                        bool_func=lambda x: (
+                            _calculate_train_result_given_ps_pd(mass_rate=x).power_megawatt
+                            <= maximum_power * (1 - POWER_CALCULATION_TOLERANCE)
                         ),
-                        relative_convergence_tolerance=1e-3,
+                        convergence_tolerance=1e-3,
                         maximum_number_of_iterations=20,
                     ),
                 )
-- 
2.43.0


From 8ea4e494a0fc5220be72edc7bf36108046549fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:30 +0000
Subject: [PATCH 50/88] fix: maximum rate with individual ASV rate control

When the target pressure is below what the train gives at its maximum rate, the
maximum rate ignored that the train recirculates: zero or a too low rate was
reported although higher rates can be delivered.
---
 .../core/train/compressor_train_common_shaft.py        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 20ca27d..acfad1a 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -513,6 +513,16 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
                 maximum_number_of_iterations=20,
             )
 
+        # if each stage recirculates individually, find the maximum rate for which the train can deliver the target pressure
+        elif self.pressure_control == FixedSpeedPressureControl.INDIVIDUAL_ASV_RATE:
+            rate_to_return = maximize_x_given_boolean_condition_function(
+                x_min=0,
+                x_max=max_mass_rate_at_max_speed_first_stage,
+                bool_func=lambda x: _calculate_train_result_given_ps_pd(mass_rate=x).is_valid,
+                convergence_tolerance=1e-3,
+                maximum_number_of_iterations=20,
+            )
+
         # Solution scenario 4. Solution at the "Stone wall".
         else:
             # Ensuring that the maximum mass rate at min speed is valid for the whole train.
-- 
2.43.0


From 86f2a1ceb83e18784c573245693c74d10abc32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:11 +0000
Subject: [PATCH 51/88] fix: the maximum rate of a train does not depend on its
 last evaluation

The recirculation set by individual or common ASV control in the last evaluation
was still present when the maximum rate was calculated.
---
 .../compressor/core/train/compressor_train_common_shaft.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index acfad1a..76b6638 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -343,6 +343,8 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
             """Partial function of self.calculate_compressor_train_given_speed
             where we only pass mass_rate.
             """
+            # Recirculation from an earlier evaluation must not be part of the maximum rate
+            self.reset_rate_modifiers()
             self.shaft.set_speed(speed)
             return self.calculate_compressor_train(
                 constraints=constraints.create_conditions_with_new_input(
-- 
2.43.0


From b4f7f8eafaa5e73530d250139661386eab270555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 52/88] fix: interstage pressure requirement of compressor
 trains

The interstage pressure was compared with the pressure ahead of the choke of the
first part, so choking it to the requirement was reported as a failure, and the
check failed with IndexError when the first part has more stages than the last.
---
 .../domain/process/compressor/core/train/base.py     | 12 +++---------
 .../core/train/compressor_train_common_shaft.py      |  1 +
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/libecalc/domain/process/compressor/core/train/base.py b/src/libecalc/domain/process/compressor/core/train/base.py
index 49a2051..5a08f16 100644
--- a/src/libecalc/domain/process/compressor/core/train/base.py
+++ b/src/libecalc/domain/process/compressor/core/train/base.py
@@ -308,11 +308,14 @@ class CompressorTrainModel(ABC):
         self,
         constraints: CompressorTrainEvaluationInput,
         results: CompressorTrainResultSingleTimeStep | list[CompressorTrainStageResultSingleTimeStep],
+        calculated_intermediate_pressure: float | None = None,
     ) -> TargetPressureStatus:
         """Check to see how the calculated pressures compare to the required pressures
         Args:
             constraints: The evaluation constraints given to the evaluation
             results: The results from the compressor train evaluation
+            calculated_intermediate_pressure: The pressure delivered by the first part of the train, after pressure
+                control, if there is a target for it
 
         Returns:
             TargetPressureStatus: The status of the target pressures
@@ -320,20 +323,11 @@ class CompressorTrainModel(ABC):
         if isinstance(results, list):
             train_suction_pressure = results[0].inlet_pressure
             calculated_discharge_pressure = results[-1].discharge_pressure
-            calculated_intermediate_pressure = None
             stage_suction_pressure = results[0].inlet_pressure
         else:
             train_suction_pressure = results.suction_pressure
             calculated_discharge_pressure = results.discharge_pressure
             stage_suction_pressure = results.stage_results[0].inlet_stream.pressure_bara
-            if constraints.rates is not None:
-                calculated_intermediate_pressure = (
-                    results.stage_results[self.stage_number_interstage_pressure - 1].discharge_pressure
-                    if self.stage_number_interstage_pressure is not None
-                    else None
-                )
-            else:
-                calculated_intermediate_pressure = None
         if stage_suction_pressure is not None:
             if (stage_suction_pressure / train_suction_pressure) - 1 > PRESSURE_CALCULATION_TOLERANCE:
                 return TargetPressureStatus.ABOVE_TARGET_SUCTION_PRESSURE
diff --git a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
index 76b6638..e05260c 100644
--- a/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
+++ b/src/libecalc/domain/process/compressor/core/train/compressor_train_common_shaft.py
@@ -1461,6 +1461,7 @@ class CompressorTrainCommonShaft(CompressorTrainModel):
         target_pressure_status = self.check_target_pressures(
             constraints=constraints,
             results=train_result,
+            calculated_intermediate_pressure=compressor_train_results_to_return_first_part.discharge_pressure,
         )
 
         train_result.target_pressure_status = target_pressure_status
-- 
2.43.0


From 7e2c28b024683ef1aa46a23cb0ae576822d9f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 53/88] fix: streams of a multiple streams compressor train may
 be listed in any order

The list of streams and rates was matched by position with the ports of the
train, which are ordered by stage with the outgoing streams first, so rates of
ingoing and outgoing streams were mixed up unless listed in exactly that order.
---
 .../yaml/mappers/consumer_function_mapper.py  | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index d15fcf4..8d03154 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -692,6 +692,29 @@ class CompressorModelMapper:
             maximum_power=model.maximum_power,
         ), fluid_model
 
+    @staticmethod
+    def _get_stream_order(model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures) -> list[int]:
+        """The (indices of the) streams in the order of the ports of the train: the main inlet, then for each stage
+        the outgoing streams followed by the ingoing streams. The streams can be listed in any order in the model."""
+        order: list[int] = []
+        for stage_index, stage in enumerate(model.stages):
+            connected = [i for i, stream in enumerate(model.streams) if stream.name in (stage.stream or [])]
+            ingoing = [i for i in connected if isinstance(model.streams[i], YamlMultipleStreamsStreamIngoing)]
+            outgoing = [i for i in connected if isinstance(model.streams[i], YamlMultipleStreamsStreamOutgoing)]
+            if stage_index == 0:
+                order.extend(ingoing[:1])
+                ingoing = ingoing[1:]
+            order.extend([*outgoing, *ingoing])
+        not_connected = [i for i in range(len(model.streams)) if i not in order]
+        return [*order, *not_connected]
+
+    def get_stream_order(self, reference: str) -> list[int]:
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.get_stream_order(model.compressor_model)
+        assert isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures)
+        return self._get_stream_order(model)
+
     def _create_variable_speed_compressor_train_multiple_streams_and_pressures(
         self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
@@ -761,7 +784,7 @@ class CompressorModelMapper:
             self._get_fluid_model(stream_config.fluid_model)
             if isinstance(stream_config, YamlMultipleStreamsStreamIngoing)
             else None
-            for stream_config in model.streams
+            for stream_config in (model.streams[i] for i in self._get_stream_order(model))
         ]
 
         if not any(fluid_models):
@@ -1206,6 +1229,9 @@ class ConsumerFunctionMapper:
             )
             for rate_expression in model.rate_per_stream
         ]
+        stream_order = self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
+        if len(rates_per_stream) == len(stream_order):
+            rates_per_stream = [rates_per_stream[i] for i in stream_order]
 
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
         sum_of_rates = [sum(values) for values in zip(*rates_per_stream_values)]
-- 
2.43.0


From 423fbbc59f2debeba76b1659576548394f8a81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 54/88] fix: a pressure drop of the whole inlet pressure is
 insufficient inlet pressure

---
 src/libecalc/process/process_units/choke.py            | 2 +-
 src/libecalc/process/process_units/pressure_dropper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/process_units/choke.py b/src/libecalc/process/process_units/choke.py
index 629e2d5..f6fad89 100644
--- a/src/libecalc/process/process_units/choke.py
+++ b/src/libecalc/process/process_units/choke.py
@@ -32,7 +32,7 @@ class Choke(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_change > 0.0:
             pressure_bara = inlet_stream.pressure_bara - self._pressure_change
-            if pressure_bara < 0.0:
+            if pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
diff --git a/src/libecalc/process/process_units/pressure_dropper.py b/src/libecalc/process/process_units/pressure_dropper.py
index 19a60f6..772ed14 100644
--- a/src/libecalc/process/process_units/pressure_dropper.py
+++ b/src/libecalc/process/process_units/pressure_dropper.py
@@ -32,7 +32,7 @@ class PressureDropper(ProcessUnit):
     def propagate_stream(self, inlet_stream: FluidStream) -> FluidStream:
         if self._pressure_drop_bara > 0.0:
             new_pressure_bara = inlet_stream.pressure_bara - self._pressure_drop_bara
-            if new_pressure_bara < 0.0:
+            if new_pressure_bara <= 0.0:
                 raise InsufficientInletPressureError(
                     process_unit_id=self._id,
                     inlet_pressure_bara=inlet_stream.pressure_bara,
-- 
2.43.0


From e8f234115e3ce62de813428b1c18cf784113b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:12 +0000
Subject: [PATCH 55/88] fix: rate fractions were given to other users when
 overflow goes to an earlier user

---
 .../process/stream_distribution/common_stream_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..045bf4b 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,7 +66,9 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
+            rate = rates[item_id]
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
             current_rate = rate + overflow_rate
-- 
2.43.0


From 1bb7c8f2dcc9a990844a23f32189977a54b46cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 56/88] fix: a second overflow of the same user was ignored

---
 .../common_stream_distribution.py             | 47 ++++++++++---------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 045bf4b..7f91197 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -57,11 +57,17 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _get_sorted_items(self) -> Iterable[T]:
         return nx.topological_sort(self._overflow_graph)
 
-    def _get_overflow_out(self, item_id: T) -> Overflow[T] | None:
-        for overflow in self._overflows:
-            if overflow.from_id == item_id:
-                return overflow
-        return None
+    def _get_overflows_out(self, item_id: T) -> list[Overflow[T]]:
+        return [overflow for overflow in self._overflows if overflow.from_id == item_id]
+
+    def _get_excess_rate(self, item_id: T, rate: float) -> float:
+        stream = self._fluid_service.create_stream_from_standard_rate(
+            fluid_model=self._inlet_stream.fluid_model,
+            standard_rate_m3_per_day=rate,
+            temperature_kelvin=self._inlet_stream.temperature_kelvin,
+            pressure_bara=self._inlet_stream.pressure_bara,
+        )
+        return self._items[item_id].get_excess_rate(stream)
 
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
@@ -69,23 +75,22 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
         rates = dict(zip(self._items, self._rates, strict=True))
         for item_id in self._get_sorted_items():
             rate = rates[item_id]
-            overflow = self._get_overflow_out(item_id)
-            overflow_rate = sum(overflow_map[item_id])
-            current_rate = rate + overflow_rate
-            if overflow is not None:
-                item = self._items[item_id]
-                stream = self._fluid_service.create_stream_from_standard_rate(
-                    fluid_model=self._inlet_stream.fluid_model,
-                    standard_rate_m3_per_day=current_rate,
-                    temperature_kelvin=self._inlet_stream.temperature_kelvin,
-                    pressure_bara=self._inlet_stream.pressure_bara,
-                )
-                excess_rate = item.get_excess_rate(stream)
-                handled_rate = current_rate - excess_rate
-                overflow_map[overflow.to_id].append(excess_rate)
-                adjusted_rates[item_id] = handled_rate
-            else:
+            overflows = self._get_overflows_out(item_id)
+            current_rate = rate + sum(overflow_map[item_id])
+            if not overflows:
                 adjusted_rates[item_id] = current_rate
+                continue
+
+            excess_rate = self._get_excess_rate(item_id, current_rate)
+            adjusted_rates[item_id] = current_rate - excess_rate
+
+            # Overflow in the given order, everything left goes to the last one
+            for overflow in overflows[:-1]:
+                to_rate = rates[overflow.to_id] + sum(overflow_map[overflow.to_id])
+                left_rate = min(excess_rate, self._get_excess_rate(overflow.to_id, to_rate + excess_rate))
+                overflow_map[overflow.to_id].append(excess_rate - left_rate)
+                excess_rate = left_rate
+            overflow_map[overflows[-1].to_id].append(excess_rate)
         return adjusted_rates
 
     def get_streams(self) -> list[FluidStream]:
-- 
2.43.0


From 572c5ce89be7fd8782d6f3a08eb1d8e62cea0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 57/88] fix: division by zero when splitting a stream without
 flow

---
 .../process_units/legacy_splitter/legacy_splitter.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py b/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
index 9d474e0..1e38d8c 100644
--- a/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
+++ b/src/libecalc/domain/process/entities/process_units/legacy_splitter/legacy_splitter.py
@@ -82,7 +82,10 @@ class LegacySplitter:
             )
             last_rate = 0.0
         all_rates_out_of_splitter = self.rates_out_of_splitter + [last_rate]
-        split_fractions = [rate / sum(all_rates_out_of_splitter) for rate in all_rates_out_of_splitter]
+        total_rate = sum(all_rates_out_of_splitter)
+        if total_rate == 0:
+            return [stream.with_mass_rate(0.0) for _ in all_rates_out_of_splitter]
+        split_fractions = [rate / total_rate for rate in all_rates_out_of_splitter]
         return [
             FluidStream(
                 fluid=stream.fluid,
-- 
2.43.0


From aa25bf5bb261d4812e7dc4aaaab3229a665f1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:25 +0000
Subject: [PATCH 58/88] fix: the feasible rate of a train is one it can take

---
 .../process/process_solver/feasibility_solver.py       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/process/process_solver/feasibility_solver.py b/src/libecalc/process/process_solver/feasibility_solver.py
index a2ca9b1..923ce1e 100644
--- a/src/libecalc/process/process_solver/feasibility_solver.py
+++ b/src/libecalc/process/process_solver/feasibility_solver.py
@@ -58,13 +58,15 @@ class FeasibilitySolver:
         upper_bound_sm3_per_day: float,
     ) -> float:
         boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
+
+        def probe(rate: float) -> BisectResult:
+            feasible = self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure)
+            return BisectResult(higher=feasible, accepted=feasible)
+
         try:
             return self._search_strategy.search(
                 boundary=boundary,
-                func=lambda rate: BisectResult(
-                    higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure),
-                    accepted=True,
-                ),
+                func=probe,
             )
         except DidNotConvergeError:
             return 0.0
-- 
2.43.0


From f5ae721e2cf4519e944f02f5915ee2d4883e7b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 59/88] fix: upstream choke solution has the recirculation of
 its own choke setting

---
 .../process/process_solver/pressure_control/upstream_choke.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
index 7eb2d1a..962701c 100644
--- a/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
+++ b/src/libecalc/process/process_solver/pressure_control/upstream_choke.py
@@ -78,6 +78,9 @@ class UpstreamChokePressureControlStrategy(PressureControlStrategy):
             return self._simulator.run(inlet_stream=inlet_stream)
 
         finding = finder.find(choke_func)
+        if finding.success:
+            # The last choke the search tried is not necessarily the one it chose
+            choke_func(finding.configuration)
         choke_config = Configuration(
             configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration
         )
-- 
2.43.0


From fd07cd1128b4486996210f41f9dfbac4053b465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 60/88] fix: a loop which recirculates everything leaves no
 negative flow

---
 src/libecalc/process/process_units/direct_splitter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_units/direct_splitter.py b/src/libecalc/process/process_units/direct_splitter.py
index a7d6fb0..bdb56a5 100644
--- a/src/libecalc/process/process_units/direct_splitter.py
+++ b/src/libecalc/process/process_units/direct_splitter.py
@@ -1,3 +1,4 @@
+from math import isclose
 from typing import Final
 
 from libecalc.common.units import UnitConstants
@@ -17,7 +18,11 @@ class DirectSplitter(ProcessUnit):
         removed_mass_kg_per_h = (
             self._split_rate * inlet_stream.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
         )
-        return inlet_stream.with_mass_rate(inlet_stream.mass_rate_kg_per_h - removed_mass_kg_per_h)
+        remaining_mass_kg_per_h = inlet_stream.mass_rate_kg_per_h - removed_mass_kg_per_h
+        if isclose(inlet_stream.mass_rate_kg_per_h, removed_mass_kg_per_h, rel_tol=1e-9):
+            # Everything is split off, avoid a negative rate due to rounding
+            remaining_mass_kg_per_h = max(0.0, remaining_mass_kg_per_h)
+        return inlet_stream.with_mass_rate(remaining_mass_kg_per_h)
 
     def set_split_rate(self, split_rate: float):
         self._split_rate = split_rate
-- 
2.43.0


From b85e5de9c7c5b754a2c148e2f0c0642b2c42a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:56 +0000
Subject: [PATCH 61/88] fix: pressure control is not asked to raise the
 pressure of a found speed

---
 .../process/process_solver/pipeline_section_solver.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/pipeline_section_solver.py b/src/libecalc/process/process_solver/pipeline_section_solver.py
index 1027b1c..f41f200 100644
--- a/src/libecalc/process/process_solver/pipeline_section_solver.py
+++ b/src/libecalc/process/process_solver/pipeline_section_solver.py
@@ -145,7 +145,9 @@ class PipelineSectionSolver(PipelineSolver):
             configurations=speed_and_anti_surge_configurations,
         )
 
-        if outlet_at_chosen_speed.pressure_bara == pressure_target:
+        # The speed found may give a slightly too low pressure, which no pressure control can raise
+        speed_found = speed_finding.success and outlet_at_chosen_speed.pressure_bara < pressure_target
+        if speed_found or outlet_at_chosen_speed.pressure_bara == pressure_target:
             return Solution(configuration=speed_and_anti_surge_configurations)  # No pressure control needed
 
         pressure_control_solution = self._pipeline_section.get_pressure_control_strategy().apply(
-- 
2.43.0


From 41dd3535065d2a58530ed2ba89eb2fcaa1b53b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:42 +0000
Subject: [PATCH 62/88] fix: upstream choking by less than the pressure
 tolerance

---
 .../process_solver/finders/choke_delta_pressure_finders.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py b/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
index 96401bf..5eef8df 100644
--- a/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
+++ b/src/libecalc/process/process_solver/finders/choke_delta_pressure_finders.py
@@ -81,7 +81,7 @@ class UpstreamChokeDeltaPressureFinder(Finder):
             )
 
         delta_pressure = self._root_finding_strategy.find_root(
-            boundary=Boundary(min=self._boundary.min, max=search_max),
+            boundary=Boundary(min=0.0, max=search_max),
             func=lambda x: outlet_pressure(x) - self._target_pressure,
         )
         return Finding(configuration=ChokeConfiguration(delta_pressure=delta_pressure))
-- 
2.43.0


From 51ce1f732b0b03515a5935768f0f232af508b461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:57 +0000
Subject: [PATCH 63/88] fix: recirculating more than the offtakes leave is a
 failure, not a crash

---
 src/libecalc/process/process_units/direct_splitter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/process/process_units/direct_splitter.py b/src/libecalc/process/process_units/direct_splitter.py
index bdb56a5..31f0034 100644
--- a/src/libecalc/process/process_units/direct_splitter.py
+++ b/src/libecalc/process/process_units/direct_splitter.py
@@ -3,6 +3,7 @@ from typing import Final
 
 from libecalc.common.units import UnitConstants
 from libecalc.process.fluid_stream.fluid_stream import FluidStream
+from libecalc.process.process_pipeline.process_error import OfftakeExceedsInletError
 from libecalc.process.process_pipeline.process_unit import ProcessUnit, ProcessUnitId
 
 
@@ -22,6 +23,12 @@ class DirectSplitter(ProcessUnit):
         if isclose(inlet_stream.mass_rate_kg_per_h, removed_mass_kg_per_h, rel_tol=1e-9):
             # Everything is split off, avoid a negative rate due to rounding
             remaining_mass_kg_per_h = max(0.0, remaining_mass_kg_per_h)
+        if remaining_mass_kg_per_h < 0.0:
+            raise OfftakeExceedsInletError(
+                process_unit_id=self._id,
+                available_rate=inlet_stream.standard_rate_sm3_per_day,
+                offtake_rate=self._split_rate,
+            )
         return inlet_stream.with_mass_rate(remaining_mass_kg_per_h)
 
     def set_split_rate(self, split_rate: float):
-- 
2.43.0


From 34e15102723eeb881e71f5b226b4c9d670e78922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 64/88] fix: pressure control is not asked to correct the
 pressure of a found speed

---
 .../process/process_solver/pipeline_section_solver.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/process/process_solver/pipeline_section_solver.py b/src/libecalc/process/process_solver/pipeline_section_solver.py
index f41f200..ae7e52f 100644
--- a/src/libecalc/process/process_solver/pipeline_section_solver.py
+++ b/src/libecalc/process/process_solver/pipeline_section_solver.py
@@ -145,9 +145,9 @@ class PipelineSectionSolver(PipelineSolver):
             configurations=speed_and_anti_surge_configurations,
         )
 
-        # The speed found may give a slightly too low pressure, which no pressure control can raise
-        speed_found = speed_finding.success and outlet_at_chosen_speed.pressure_bara < pressure_target
-        if speed_found or outlet_at_chosen_speed.pressure_bara == pressure_target:
+        # The pressure at the speed found may deviate slightly from the target. That is not for the pressure control to
+        # correct, it may not even be able to.
+        if speed_finding.success or outlet_at_chosen_speed.pressure_bara == pressure_target:
             return Solution(configuration=speed_and_anti_surge_configurations)  # No pressure control needed
 
         pressure_control_solution = self._pipeline_section.get_pressure_control_strategy().apply(
-- 
2.43.0


From 242125354b4da40aebd380610cbecd783e86d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 65/88] fix: temporal models with unordered dates are rejected
 when the model is validated

---
 .../yaml/yaml_types/yaml_temporal_model.py         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
index ea9b5bb..00a52a5 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_temporal_model.py
@@ -1,6 +1,7 @@
+from datetime import datetime
 from typing import Annotated, Any, Literal, TypeVar, Union
 
-from pydantic import Discriminator, Tag
+from pydantic import AfterValidator, Discriminator, Tag
 
 from libecalc.common.errors.exceptions import InvalidDateException
 from libecalc.common.time_utils import is_temporal_model
@@ -32,12 +33,23 @@ def discriminate_temporal_model(v: Any) -> Literal["single", "temporal"]:
     return "single"
 
 
+def check_dates_are_sorted(v: dict[datetime, Any]) -> dict[datetime, Any]:
+    dates = list(v)
+    if dates != sorted(dates):
+        raise ValueError(
+            "Dates in a temporal model should be sorted with the earliest date first. "
+            f"Got {', '.join(str(date) for date in dates)}"
+        )
+    return v
+
+
 TModel = TypeVar("TModel")
 YamlTemporalModel = Annotated[
     Union[
         Annotated[TModel, Tag("single")],
         Annotated[
             dict[YamlDefaultDatetime, TModel],
+            AfterValidator(check_dates_are_sorted),
             Tag("temporal"),
         ],
     ],
-- 
2.43.0


From 42094bf4e026bee9bf92e745b7e8b6dd37218a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 66/88] fix: START, END and other dates that are not dates are
 rejected when the model is validated

---
 src/libecalc/common/time_utils.py                     |  2 +-
 .../yaml/yaml_models/pyyaml_yaml_model.py             | 10 ++++++++--
 .../yaml/yaml_types/yaml_default_datetime.py          | 11 ++++++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/libecalc/common/time_utils.py b/src/libecalc/common/time_utils.py
index 9ba45af..f5b91a7 100644
--- a/src/libecalc/common/time_utils.py
+++ b/src/libecalc/common/time_utils.py
@@ -359,7 +359,7 @@ def is_temporal_model(data: Any) -> bool:
                         datetime.strptime(split_key[1], "%Y-%m-%d %H:%M:%S")
                         is_period.append(True)
                         is_date.append(False)
-                except (TypeError, ValueError):
+                except (AttributeError, TypeError, ValueError):
                     is_not_period_keys.append(str(key))
                     is_period.append(False)
                     is_date.append(False)
diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 261925b..b009ade 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -540,12 +540,18 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
     @property
     def start(self) -> datetime.datetime | None:
         start_value = self._internal_datamodel.get(EcalcYamlKeywords.start)
-        return TypeAdapter(YamlDefaultDatetime).validate_python(start_value) if start_value is not None else None
+        try:
+            return TypeAdapter(YamlDefaultDatetime).validate_python(start_value) if start_value is not None else None
+        except PydanticValidationError:
+            return None  # Reported when the model is validated
 
     @property
     def end(self) -> datetime.datetime | None:
         end_value = self._internal_datamodel.get(EcalcYamlKeywords.end)
-        return TypeAdapter(YamlDefaultDatetime).validate_python(end_value) if end_value is not None else None
+        try:
+            return TypeAdapter(YamlDefaultDatetime).validate_python(end_value) if end_value is not None else None
+        except PydanticValidationError:
+            return None  # Reported when the model is validated
 
     @property
     def dates(self) -> set[datetime.datetime]:
diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py b/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
index 5a3820a..1cb9cbf 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_default_datetime.py
@@ -1,7 +1,7 @@
 from datetime import date, datetime
 from typing import Annotated, Any
 
-from pydantic import BeforeValidator, WithJsonSchema
+from pydantic import AfterValidator, BeforeValidator, WithJsonSchema
 
 from libecalc.common.time_utils import convert_date_to_datetime
 
@@ -9,11 +9,20 @@ from libecalc.common.time_utils import convert_date_to_datetime
 def convert_str_or_date_to_datetime(x: Any):
     if isinstance(x, date):
         return convert_date_to_datetime(x)
+    if isinstance(x, int | float):
+        raise ValueError(f"A date should be given in <YYYY-MM-DD> format, got {x}")
     return x  # Let pydantic handle str and other types
 
 
+def check_no_time_zone(x: datetime) -> datetime:
+    if x.tzinfo is not None:
+        raise ValueError(f"A date should be given without a time zone, got {x}")
+    return x
+
+
 YamlDefaultDatetime = Annotated[
     datetime,
     BeforeValidator(convert_str_or_date_to_datetime),
+    AfterValidator(check_no_time_zone),
     WithJsonSchema({"type": "string", "format": "date"}),  # Previously just a str in the schema, is datetime needed?
 ]
-- 
2.43.0


From 290f34be93cf0ffb47a8081492361d93c98dde58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 67/88] fix: compressor trains without stages or with
 impossible pressure limits are rejected when the model is validated

---
 .../yaml/yaml_types/models/yaml_compressor_stages.py           | 3 +++
 .../yaml/yaml_types/models/yaml_compressor_trains.py           | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
index 13fd405..dcc1166 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
@@ -46,6 +46,7 @@ class YamlCompressorStage(YamlBase):
 class YamlCompressorStageWithMarginAndPressureDrop(YamlCompressorStage):
     pressure_drop_ahead_of_stage: float = Field(
         0.0,
+        ge=0,
         description="Pressure drop before compression stage [in bar]",
         title="PRESSURE_DROP_AHEAD_OF_STAGE",
     )
@@ -77,6 +78,7 @@ class YamlCompressorStageMultipleStreams(YamlCompressorStageWithMarginAndPressur
 class YamlUnknownCompressorStages(YamlBase):
     maximum_pressure_ratio_per_stage: float | None = Field(
         None,
+        gt=1,
         description="Maximum pressure ratio per stage. Number of compressors will be large enough to ensure no "
         "pressure ratios are above a given maximum pressure ratio per stage, but not larger",
         title="MAXIMUM_PRESSURE_RATIO_PER_STAGE",
@@ -99,6 +101,7 @@ TStage = TypeVar("TStage", bound=Union[YamlCompressorStage, YamlCompressorStageW
 class YamlCompressorStages[TStage: Union[YamlCompressorStage, YamlCompressorStageWithMarginAndPressureDrop]](YamlBase):
     stages: list[TStage] = Field(
         ...,
+        min_length=1,
         description="List of compressor stages",
         title="STAGES",
     )
diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index 8d54650..df89e2c 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -54,6 +54,7 @@ class YamlSingleSpeedCompressorTrain(YamlCompressorTrainBase):
     )
     maximum_discharge_pressure: float | None = Field(
         None,
+        gt=0,
         description="Maximum discharge pressure in bar (can only use if pressure control is DOWNSTREAM_CHOKE)",
         title="MAXIMUM_DISCHARGE_PRESSURE",
     )
@@ -212,6 +213,7 @@ class YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures(YamlCompressor
     )
     stages: list[YamlCompressorStageMultipleStreams] = Field(
         ...,
+        min_length=1,
         description="A list of all stages in compressor model.",
         title="STAGES",
     )
-- 
2.43.0


From e360752ded14b553e57d53604a3e968c9b4eecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 68/88] fix: fluid models without a gas type or equation of
 state are rejected when the model is validated

---
 .../presentation/yaml/yaml_types/models/yaml_fluid.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_fluid.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_fluid.py
index 0b3e2f8..c0df5a7 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_fluid.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_fluid.py
@@ -31,7 +31,7 @@ class YamlPredefinedFluidType(enum.StrEnum):
 class YamlPredefinedFluidModel(YamlBase):
     eos_model: YamlEosModel = YamlEosModel.SRK
     fluid_model_type: Literal[YamlFluidModelType.PREDEFINED] = YamlFluidModelType.PREDEFINED
-    gas_type: YamlPredefinedFluidType = None
+    gas_type: YamlPredefinedFluidType
     name: ModelName = Field(
         ...,
         description="Name of the model. See documentation for more information.",
@@ -65,7 +65,7 @@ class YamlCompositionFluidModel(YamlBase):
         description="Components in fluid and amount (relative to the others) in mole weights",
         title="COMPOSITION",
     )
-    eos_model: YamlEosModel | None = YamlEosModel.SRK
+    eos_model: YamlEosModel = YamlEosModel.SRK
     fluid_model_type: Literal[YamlFluidModelType.COMPOSITION] = YamlFluidModelType.COMPOSITION
     name: ModelName = Field(
         ...,
-- 
2.43.0


From eb6c0a6f35a556345bab6915b36bf9fd50edf218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 69/88] fix: consumer names with characters that are not
 allowed are rejected when the model is validated

---
 .../yaml_types/components/legacy/yaml_electricity_consumer.py  | 3 ++-
 .../yaml/yaml_types/components/legacy/yaml_fuel_consumer.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
index 3df450d..18c4faf 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_electricity_consumer.py
@@ -2,6 +2,7 @@ from typing import Literal
 
 from pydantic import ConfigDict, Field, model_validator
 
+from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.energy_model_validation import validate_energy_usage_models
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -21,7 +22,7 @@ class YamlElectricityConsumer(YamlBase):
         exclude=True,
     )
 
-    name: str = Field(
+    name: ComponentNameStr = Field(
         ...,
         title="NAME",
         description="Name of the consumer.\n\n$ECALC_DOCS_KEYWORDS_URL/NAME",
diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
index 2327231..b6109e9 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/yaml_fuel_consumer.py
@@ -2,6 +2,7 @@ from typing import Literal
 
 from pydantic import ConfigDict, Field, model_validator
 
+from libecalc.dto.utils.validators import ComponentNameStr
 from libecalc.presentation.yaml.consumer_category import ConsumerUserDefinedCategoryType
 from libecalc.presentation.yaml.energy_model_validation import (
     validate_energy_usage_models,
@@ -27,7 +28,7 @@ class YamlFuelConsumer(YamlBase):
         exclude=True,
     )
 
-    name: str = Field(
+    name: ComponentNameStr = Field(
         ...,
         title="NAME",
         description="Name of the consumer.\n\n$ECALC_DOCS_KEYWORDS_URL/NAME",
-- 
2.43.0


From 94039af5565f7ae906345911e1ff1bf1377c190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 70/88] fix: venting emissions with names that are not text are
 rejected when the model is validated

---
 .../yaml/yaml_types/emitters/yaml_venting_emitter.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index df6dd27..f8ded12 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -48,7 +48,7 @@ class YamlVentingVolumeEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlVentingVolume(YamlBase):
@@ -73,7 +73,7 @@ class YamlVentingEmission(YamlBase):
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-        return name.lower()
+        return name.lower() if isinstance(name, str) else name
 
 
 class YamlDirectTypeEmitter(YamlBase):
-- 
2.43.0


From b57afeab0a1aac2fd27762c6c006b21c19d3f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 71/88] fix: variables without any value are rejected when the
 model is validated

---
 src/libecalc/presentation/yaml/yaml_types/yaml_variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
index 8e09725..a663264 100644
--- a/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
+++ b/src/libecalc/presentation/yaml/yaml_types/yaml_variable.py
@@ -1,6 +1,6 @@
 from typing import Annotated, Union
 
-from pydantic import StringConstraints
+from pydantic import Field, StringConstraints
 
 from libecalc.expression import Expression
 from libecalc.presentation.yaml.yaml_types import YamlBase
@@ -17,7 +17,7 @@ class YamlSingleVariable(YamlBase):
     value: Expression
 
 
-YamlTimeVariable = dict[YamlDefaultDatetime, YamlSingleVariable]
+YamlTimeVariable = Annotated[dict[YamlDefaultDatetime, YamlSingleVariable], Field(min_length=1)]
 
 YamlVariable = Union[YamlSingleVariable, YamlTimeVariable]
 
-- 
2.43.0


From 75c423b3c9a4c4b185e8a65136d9dabb5f9cf828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:39 +0000
Subject: [PATCH 72/88] fix: models without installations are rejected when the
 model is validated

---
 .../presentation/yaml/yaml_types/components/yaml_asset.py        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
index dda59ef..7b78486 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/yaml_asset.py
@@ -122,6 +122,7 @@ class YamlAsset(YamlBase):
     )
     installations: list[YamlInstallation] = Field(
         ...,
+        min_length=1,
         title="INSTALLATIONS",
         description="Description of the system of energy consumers.\n\n$ECALC_DOCS_KEYWORDS_URL/INSTALLATIONS",
     )
-- 
2.43.0


From 04273c83243a7020e2053f3d76fca319c7c29bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:05 +0000
Subject: [PATCH 73/88] fix: consumer systems with incomplete operational
 settings or impossible cross-overs are rejected when the model is validated

---
 ...yaml_energy_usage_model_consumer_system.py | 46 +++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
index 8c5bac0..a904f0d 100644
--- a/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
+++ b/src/libecalc/presentation/yaml/yaml_types/components/legacy/energy_usage_model/yaml_energy_usage_model_consumer_system.py
@@ -98,6 +98,41 @@ class YamlPumpSystemOperationalSettings(YamlCompressorSystemOperationalSetting):
     )
 
 
+def _validate_operational_settings(
+    operational_settings: "list[YamlCompressorSystemOperationalSetting]",
+    total_system_rate: YamlExpressionType | None,
+    number_of_consumers: int,
+) -> None:
+    """Validate rates and cross-overs, which are given in the same way in all consumer systems."""
+    for setting_num, setting in enumerate(operational_settings, start=1):
+        if setting.rates is None and setting.rate_fractions is None:
+            raise ValueError(f"Operational setting {setting_num}: One of RATES or RATE_FRACTIONS must be specified.")
+
+        if setting.rates is not None and setting.rate_fractions is not None:
+            raise ValueError(
+                f"Operational setting {setting_num}: Only one of RATES or RATE_FRACTIONS may be specified."
+            )
+
+        if setting.rate_fractions is not None and total_system_rate is None:
+            raise ValueError(f"Operational setting {setting_num}: RATE_FRACTIONS requires TOTAL_SYSTEM_RATE.")
+
+        if setting.crossover is None:
+            continue
+
+        if len(setting.crossover) != number_of_consumers:
+            raise ValueError(
+                f"Operational setting {setting_num}: CROSSOVER has {len(setting.crossover)} values "
+                f"but system has {number_of_consumers} consumers."
+            )
+
+        for consumer_number, receiver in enumerate(setting.crossover, start=1):
+            if receiver < 0 or receiver > number_of_consumers or receiver == consumer_number:
+                raise ValueError(
+                    f"Operational setting {setting_num}: CROSSOVER for consumer {consumer_number} is {receiver}. "
+                    f"It should be the number of another consumer in the system, or 0 for no cross-over."
+                )
+
+
 class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
     type: Literal["COMPRESSOR_SYSTEM"] = Field(
         ...,
@@ -106,6 +141,7 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
     )
     compressors: list[YamlCompressorSystemCompressor] = Field(
         ...,
+        min_length=1,
         title="COMPRESSORS",
         description="The compressors in a compressor system. \n\n$ECALC_DOCS_KEYWORDS_URL/COMPRESSORS#compressors",
     )
@@ -116,6 +152,7 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
     )
     operational_settings: list[YamlCompressorSystemOperationalSetting] = Field(
         ...,
+        min_length=1,
         title="OPERATIONAL_SETTINGS",
         description="Operational settings of the system. \n\n$ECALC_DOCS_KEYWORDS_URL/OPERATIONAL_SETTINGS",
     )
@@ -168,6 +205,7 @@ class YamlEnergyUsageModelCompressorSystem(EnergyUsageModelCommon):
         discharge pressures as there are compressors in the system.
         """
         num_compressors = len(self.compressors)
+        _validate_operational_settings(self.operational_settings, self.total_system_rate, num_compressors)
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
@@ -229,6 +267,7 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
     )
     pumps: list[YamlPumpSystemPump] = Field(
         ...,
+        min_length=1,
         title="PUMPS",
         description="The pumps in a pump system. \n\n$ECALC_DOCS_KEYWORDS_URL/PUMPS#pumps",
     )
@@ -244,6 +283,7 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
     )
     operational_settings: list[YamlPumpSystemOperationalSettings] = Field(
         ...,
+        min_length=1,
         title="OPERATIONAL_SETTINGS",
         description="Operational settings of the system. \n\n$ECALC_DOCS_KEYWORDS_URL/OPERATIONAL_SETTINGS",
     )
@@ -264,6 +304,7 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
         discharge pressures, and fluid densities as there are pumps in the system.
         """
         num_pumps = len(self.pumps)
+        _validate_operational_settings(self.operational_settings, self.total_system_rate, num_pumps)
 
         for i, setting in enumerate(self.operational_settings):
             setting_num = i + 1  # 1-indexed for user-facing error messages
@@ -302,6 +343,11 @@ class YamlEnergyUsageModelPumpSystem(EnergyUsageModelCommon):
                     )
 
             # Validate fluid_densities (pump-specific)
+            if not setting.fluid_densities and self.fluid_density is None:
+                raise ValueError(
+                    f"Operational setting {setting_num}: One of FLUID_DENSITY or FLUID_DENSITIES must be specified."
+                )
+
             if setting.fluid_densities is not None:
                 if len(setting.fluid_densities) != num_pumps:
                     raise ValueError(
-- 
2.43.0


From d9c2bfaa0175927f5a6a3750ec3d381b9e2a5b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:05 +0000
Subject: [PATCH 74/88] fix: the polytropic efficiency of generic charts is
 validated in the unit of the chart

---
 .../models/yaml_compressor_chart.py           | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
index b87cfd0..548e7d2 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_chart.py
@@ -1,7 +1,7 @@
 import enum
 from typing import Annotated, Literal, Union
 
-from pydantic import Field
+from pydantic import Field, model_validator
 
 from libecalc.presentation.yaml.yaml_types import YamlBase
 from libecalc.presentation.yaml.yaml_types.models.model_reference import ModelName
@@ -90,6 +90,16 @@ class YamlVariableSpeedChart(YamlBase):
     units: YamlUnits = UnitsField()
 
 
+def _validate_polytropic_efficiency(polytropic_efficiency: float, units: YamlUnits) -> None:
+    """The efficiency of a generic chart is given in the efficiency unit of the chart"""
+    maximum = 100 if units.efficiency == YamlEfficiencyUnits.PERCENTAGE else 1
+    if not 0 < polytropic_efficiency <= maximum:
+        raise ValueError(
+            f"POLYTROPIC_EFFICIENCY must be larger than 0 and at most {maximum} when the unit is "
+            f"{units.efficiency.value}, got {polytropic_efficiency}."
+        )
+
+
 class YamlGenericFromInputChart(YamlBase):
     name: ModelName = Field(
         ...,
@@ -109,6 +119,11 @@ class YamlGenericFromInputChart(YamlBase):
     )
     units: YamlUnits = UnitsField()
 
+    @model_validator(mode="after")
+    def validate_polytropic_efficiency(self):
+        _validate_polytropic_efficiency(self.polytropic_efficiency, self.units)
+        return self
+
 
 class YamlGenericFromDesignPointChart(YamlBase):
     name: ModelName = Field(
@@ -124,8 +139,6 @@ class YamlGenericFromDesignPointChart(YamlBase):
     chart_type: Literal[YamlChartType.GENERIC_FROM_DESIGN_POINT] = YamlChartType.GENERIC_FROM_DESIGN_POINT
     polytropic_efficiency: float = Field(
         ...,
-        gt=0,
-        le=1,
         description="Polytropic efficiency for compressor chart",
         title="POLYTROPIC_EFFICIENCY",
     )
@@ -133,6 +146,11 @@ class YamlGenericFromDesignPointChart(YamlBase):
     design_head: float = Field(..., ge=0, description="Design head for generic compressor chart", title="DESIGN_HEAD")
     units: YamlUnits
 
+    @model_validator(mode="after")
+    def validate_polytropic_efficiency(self):
+        _validate_polytropic_efficiency(self.polytropic_efficiency, self.units)
+        return self
+
 
 YamlCompressorChart = Annotated[
     Union[YamlSingleSpeedChart, YamlVariableSpeedChart, YamlGenericFromDesignPointChart, YamlGenericFromInputChart],
-- 
2.43.0


From c3f3223b5abec8527d2ac87f30b22f4cab999ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:05 +0000
Subject: [PATCH 75/88] fix: control margins that leave nothing of a chart are
 rejected when the model is validated

---
 .../yaml/yaml_types/models/yaml_compressor_stages.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
index dcc1166..c4af4c8 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_stages.py
@@ -1,7 +1,7 @@
 import enum
 from typing import TypeVar, Union
 
-from pydantic import Field
+from pydantic import Field, model_validator
 
 from libecalc.presentation.yaml.yaml_types import YamlBase
 from libecalc.presentation.yaml.yaml_types.models.model_reference_validation import (
@@ -61,6 +61,16 @@ class YamlCompressorStageWithMarginAndPressureDrop(YamlCompressorStage):
         title="CONTROL_MARGIN_UNIT",
     )
 
+    @model_validator(mode="after")
+    def validate_control_margin(self):
+        maximum = 100 if self.control_margin_unit == YamlControlMarginUnits.PERCENTAGE else 1
+        if self.control_margin >= maximum:
+            raise ValueError(
+                f"CONTROL_MARGIN must be less than {maximum} when the unit is {self.control_margin_unit.value}, "
+                f"got {self.control_margin}."
+            )
+        return self
+
 
 class YamlCompressorStageMultipleStreams(YamlCompressorStageWithMarginAndPressureDrop):
     stream: list[str] | None = Field(
-- 
2.43.0


From 01b65f51c11ad3b0b0f274f44887b3c3a0621cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 76/88] fix: pumps and compressors without pressures or with
 impossible fluid densities are rejected when the model is validated

---
 .../yaml/mappers/consumer_function_mapper.py  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index 8d03154..f25f91f 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -221,6 +221,15 @@ def map_rate_fractions(
     ]
 
 
+def validate_fluid_density(fluid_density: ExpressionTimeSeriesFluidDensity, rate: TimeSeriesFlowRate) -> None:
+    """The density is only used when there is something to pump"""
+    for i, (density, rate_value) in enumerate(zip(fluid_density.get_values(), rate.get_stream_day_values())):
+        if rate_value > 0 and density <= 0:
+            raise EcalcValidationException(
+                f"Invalid fluid density at timestep {i + 1}: fluid density ({density}) must be positive"
+            )
+
+
 def validate_pressures(
     suction_pressure: ExpressionTimeSeriesPressure,
     discharge_pressure: ExpressionTimeSeriesPressure,
@@ -1154,6 +1163,9 @@ class ConsumerFunctionMapper:
             if _rate is not None
         ]
 
+        if model.suction_pressure is None or model.discharge_pressure is None:
+            raise EcalcValidationException("SUCTION_PRESSURE and DISCHARGE_PRESSURE are required for pumps.")
+
         suction_pressure_expression = TimeSeriesExpression(
             expression=model.suction_pressure, expression_evaluator=period_evaluator
         )
@@ -1174,6 +1186,7 @@ class ConsumerFunctionMapper:
             suction_pressure=suction_pressure,
             discharge_pressure=discharge_pressure,
         )
+        validate_fluid_density(fluid_density, rate_standard_m3_day)
 
         evaluation_input = PumpEvaluationInput(
             rate=rate_standard_m3_day,
@@ -1381,7 +1394,11 @@ class ConsumerFunctionMapper:
                 ecalc_component=component, compressor_sampled=compressor_model
             )
         else:
-            assert suction_pressure is not None and discharge_pressure is not None and fluid_model is not None
+            assert fluid_model is not None
+            if suction_pressure is None or discharge_pressure is None:
+                raise EcalcValidationException(
+                    "SUCTION_PRESSURE and DISCHARGE_PRESSURE are required for this compressor model."
+                )
             evaluation_input = CompressorEvaluationInput(
                 rate=stream_day_rate,
                 fluid_model=fluid_model,
@@ -1669,6 +1686,8 @@ class ConsumerFunctionMapper:
                     suction_pressure=suction_pressure,
                     discharge_pressure=discharge_pressure,
                 )
+            for fluid_density, rate in zip(fluid_densities, rates):
+                validate_fluid_density(fluid_density, rate)
             operational_settings.append(
                 ConsumerSystemOperationalSettingExpressions(
                     rates=rates,
-- 
2.43.0


From 7d4d66ef4c5dbaf2699b9b08074c80a5d7cb4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:04 +0000
Subject: [PATCH 77/88] fix: sampled compressors without the pressures of their
 table are rejected when the model is validated

---
 .../core/sampled/compressor_model_sampled.py          |  6 ++++++
 .../yaml/mappers/consumer_function_mapper.py          | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
index 5141327..cb22612 100644
--- a/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
+++ b/src/libecalc/domain/process/compressor/core/sampled/compressor_model_sampled.py
@@ -133,6 +133,12 @@ class CompressorModelSampled:
             function_header=FUNCTION_VALUE_HEADER,
         )
 
+    def needs_suction_pressure(self) -> bool:
+        return PS_NAME in self._non_degenerated_variable_names
+
+    def needs_discharge_pressure(self) -> bool:
+        return PD_NAME in self._non_degenerated_variable_names
+
     def get_consumption_type(self) -> ConsumptionType:
         return ConsumptionType.ELECTRICITY if self.function_values_are_power else ConsumptionType.FUEL
 
diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index f25f91f..b91371d 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -1382,6 +1382,17 @@ class ConsumerFunctionMapper:
         # - If it is a sampled model, or a turbine model wrapping a sampled model, treat as non-process.
         # - Otherwise, treat as a process model.
         if _is_sampled_compressor(compressor_model):
+            sampled_model = (
+                compressor_model.compressor_model
+                if isinstance(compressor_model, CompressorWithTurbineModel)
+                else compressor_model
+            )
+            assert isinstance(sampled_model, CompressorModelSampled)
+            if suction_pressure is None and sampled_model.needs_suction_pressure():
+                raise EcalcValidationException("SUCTION_PRESSURE is required for this compressor model.")
+            if discharge_pressure is None and sampled_model.needs_discharge_pressure():
+                raise EcalcValidationException("DISCHARGE_PRESSURE is required for this compressor model.")
+
             evaluation_input = CompressorSampledEvaluationInput(
                 rate=stream_day_rate,
                 power_loss_factor=power_loss_factor,
-- 
2.43.0


From 3d2ae2bbce8731cab5eb686cf43fba0135e10e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 78/88] fix: generator sets and consumers without fuel in the
 period of the model are rejected when the model is validated

---
 .../presentation/yaml/mappers/component_mapper.py   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 16a5fd8..3d23dd3 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -215,6 +215,9 @@ class EcalcModelMapper:
 
         time_adjusted_fuel = define_time_model_for_period(fuel, target_period=self._target_period)
 
+        if len(time_adjusted_fuel) == 0:
+            raise MissingFuelReference()
+
         temporal_fuel_model = {}
         for period, fuel in time_adjusted_fuel.items():
             assert isinstance(fuel, str)
@@ -289,6 +292,16 @@ class EcalcModelMapper:
             data.electricity2fuel, target_period=self._target_period
         )
 
+        if len(generator_set_model_data) == 0:
+            raise ModelValidationException(
+                errors=[
+                    self._create_error(
+                        "ELECTRICITY2FUEL is missing for the period of the model.",
+                        specific_path=yaml_path.append("ELECTRICITY2FUEL"),
+                    )
+                ]
+            )
+
         try:
             generator_set_model = TemporalModel(
                 {
-- 
2.43.0


From 3ae7dff3245fd84f42c0d91aa1178227f41f00eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:40 +0000
Subject: [PATCH 79/88] fix: multiple stream trains with inconsistent streams
 are rejected when the model is validated

---
 .../yaml/mappers/consumer_function_mapper.py  | 81 ++++++++++++++++++-
 1 file changed, 79 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
index b91371d..ca022df 100644
--- a/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/consumer_function_mapper.py
@@ -717,6 +717,61 @@ class CompressorModelMapper:
         not_connected = [i for i in range(len(model.streams)) if i not in order]
         return [*order, *not_connected]
 
+    @staticmethod
+    def _validate_streams(model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures) -> None:
+        """Every stream should be connected to exactly one stage, and something should flow into the first stage"""
+        streams = {stream.name: stream for stream in model.streams}
+        if len(streams) != len(model.streams):
+            raise EcalcValidationException("The names of the streams must be unique within a compressor train.")
+
+        connected_streams: set[str] = set()
+        for stage_number, stage in enumerate(model.stages, start=1):
+            for stream_name in stage.stream or []:
+                if stream_name not in streams:
+                    raise EcalcValidationException(f"Stage {stage_number}: Stream '{stream_name}' is not defined.")
+                if stream_name in connected_streams:
+                    raise EcalcValidationException(
+                        f"Stage {stage_number}: Stream '{stream_name}' is connected to the train more than once."
+                    )
+                connected_streams.add(stream_name)
+
+        not_connected = [stream_name for stream_name in streams if stream_name not in connected_streams]
+        if not_connected:
+            raise EcalcValidationException(f"Stream '{not_connected[0]}' is not connected to any stage.")
+
+        if not any(
+            isinstance(streams[stream_name], YamlMultipleStreamsStreamIngoing)
+            for stream_name in model.stages[0].stream or []
+        ):
+            raise EcalcValidationException("An inlet stream is required for the first stage.")
+
+        controlled_stages = [
+            stage_number
+            for stage_number, stage in enumerate(model.stages, start=1)
+            if stage.interstage_control_pressure is not None
+        ]
+        if len(controlled_stages) > 1 or 1 in controlled_stages:
+            raise EcalcValidationException(
+                "INTERSTAGE_CONTROL_PRESSURE can only be specified for one stage, and not for the first stage."
+            )
+
+    def has_interstage_pressure(self, reference: str) -> bool:
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.has_interstage_pressure(model.compressor_model)
+        assert isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures)
+        return any(stage.interstage_control_pressure is not None for stage in model.stages)
+
+    def is_ingoing_stream(self, reference: str) -> list[bool]:
+        """Whether the streams are ingoing or outgoing, in the order of the ports of the train"""
+        model = self._reference_service.get_compressor_model(reference)
+        if isinstance(model, YamlCompressorWithTurbine):
+            return self.is_ingoing_stream(model.compressor_model)
+        assert isinstance(model, YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures)
+        return [
+            isinstance(model.streams[i], YamlMultipleStreamsStreamIngoing) for i in self._get_stream_order(model)
+        ]
+
     def get_stream_order(self, reference: str) -> list[int]:
         model = self._reference_service.get_compressor_model(reference)
         if isinstance(model, YamlCompressorWithTurbine):
@@ -727,6 +782,7 @@ class CompressorModelMapper:
     def _create_variable_speed_compressor_train_multiple_streams_and_pressures(
         self, model: YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures
     ) -> tuple[CompressorTrainCommonShaft, list[FluidModel | None]]:
+        self._validate_streams(model)
         stream_references = {stream.name for stream in model.streams}
 
         shaft = VariableSpeedShaft()
@@ -1243,10 +1299,31 @@ class ConsumerFunctionMapper:
             for rate_expression in model.rate_per_stream
         ]
         stream_order = self._compressor_model_mapper.get_stream_order(model.compressor_train_model)
-        if len(rates_per_stream) == len(stream_order):
-            rates_per_stream = [rates_per_stream[i] for i in stream_order]
+        if len(rates_per_stream) != len(stream_order):
+            raise EcalcValidationException(
+                f"RATE_PER_STREAM has {len(rates_per_stream)} values, but the compressor train has "
+                f"{len(stream_order)} streams."
+            )
+        rates_per_stream = [rates_per_stream[i] for i in stream_order]
+
+        has_interstage_pressure = self._compressor_model_mapper.has_interstage_pressure(model.compressor_train_model)
+        if has_interstage_pressure != (model.interstage_control_pressure is not None):
+            raise EcalcValidationException(
+                "INTERSTAGE_CONTROL_PRESSURE should be given for the consumer if, and only if, a stage in the "
+                "compressor train has INTERSTAGE_CONTROL_PRESSURE."
+            )
 
         rates_per_stream_values = [rates.get_stream_day_values() for rates in rates_per_stream]
+        is_ingoing = self._compressor_model_mapper.is_ingoing_stream(model.compressor_train_model)
+        for i, rates_at_time_step in enumerate(zip(*rates_per_stream_values)):
+            remaining_rate = 0.0
+            for rate, ingoing in zip(rates_at_time_step, is_ingoing):
+                remaining_rate += rate if ingoing else -rate
+                if remaining_rate < -1e-6 * max(rates_at_time_step):
+                    raise EcalcValidationException(
+                        f"Invalid rates at timestep {i + 1}: more is taken out of the train than what flows into it."
+                    )
+
         sum_of_rates = [sum(values) for values in zip(*rates_per_stream_values)]
 
         validation_mask = [bool(_rate * _regularity > 0) for _rate, _regularity in zip(sum_of_rates, regularity.values)]
-- 
2.43.0


From 71c2b49d0071024402958966e1a3a64728e1cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 80/88] fix: installations with nothing in use in the period of
 the model are valid

---
 src/libecalc/presentation/yaml/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index 42c9105..a66a33a 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -492,11 +492,14 @@ class YamlModel:
             # TODO: There's a difference between a container and a provider, but we capture both in our EnergyModel. children vs consumer, installation vs genset. Installation is a container, genset is a provider
             assert isinstance(energy_model, EnergyContainerEnergyModel)
             children = energy_model.get_all_children(component_id)
-            assert len(children) > 0
             for child_id in children:
                 validity.append(self.get_validity(child_id))
 
-            return reduce(lambda acc, current: acc * current, validity)
+            # A container is valid unless there is something in it that is not, it can be empty if nothing in it is
+            # in use in the period of the model.
+            periods = self._variables.periods
+            all_valid = TimeSeriesBoolean(periods=periods, values=[True] * len(periods), unit=Unit.NONE)
+            return reduce(lambda acc, current: acc * current, validity, all_valid)
 
         if component_id in self._consumer_results:
             return self._consumer_results[component_id].is_valid
-- 
2.43.0


From d56a54a183ec760b67cd830a483b8fe9e64d22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 81/88] fix: venting emissions with an empty factor are
 rejected when the model is validated

---
 .../yaml/yaml_types/emitters/yaml_venting_emitter.py       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index f8ded12..9a5acad 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -45,6 +45,13 @@ class YamlVentingVolumeEmission(YamlBase):
         ..., title="EMISSION_FACTOR", description="Loading/storage volume-emission factor"
     )
 
+    @field_validator("emission_factor", mode="after")
+    @classmethod
+    def check_emission_factor(cls, emission_factor):
+        if isinstance(emission_factor, str) and not emission_factor.strip():
+            raise ValueError("EMISSION_FACTOR can not be empty.")
+        return emission_factor
+
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-- 
2.43.0


From e228105ad5831c56769097fe4f736b8e2492e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:54 +0000
Subject: [PATCH 82/88] fix: generator sets without consumers in the period of
 the model are left out, like the consumers

---
 .../presentation/yaml/mappers/component_mapper.py        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index 3d23dd3..c52213a 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -330,6 +330,9 @@ class EcalcModelMapper:
             assert isinstance(parsed_consumer, ElectricityConsumer)
             consumers.append(parsed_consumer)
 
+        if len(consumers) == 0:
+            return None
+
         try:
             category_model = TemporalModel.create(data.category, target_period=self._target_period)
             if data.cable_loss and category_model is not None:
@@ -425,7 +428,11 @@ class EcalcModelMapper:
                 parent=id,
                 defaults=defaults,
             )
-            assert parsed_generator_set is not None and isinstance(parsed_generator_set, GeneratorSetEnergyComponent)
+            if parsed_generator_set is None:
+                # Skip None generator set, all consumers are filtered based on start date
+                continue
+
+            assert isinstance(parsed_generator_set, GeneratorSetEnergyComponent)
             generator_sets.append(parsed_generator_set)
 
         fuel_consumers_yaml_path = yaml_path.append("FUELCONSUMERS")
-- 
2.43.0


From 9549f649852b3b6b62ea0427abf4f3421d2bc205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:40 +0000
Subject: [PATCH 83/88] fix: chart curves with negative speeds, rates or heads
 are rejected when the model is validated

---
 .../yaml/mappers/charts/user_defined_chart_data.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
index c343e4f..a6c77f3 100644
--- a/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
+++ b/src/libecalc/presentation/yaml/mappers/charts/user_defined_chart_data.py
@@ -4,6 +4,7 @@ from functools import cached_property
 import pandas as pd
 
 from libecalc.common.chart_type import ChartType
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.common.errors.exceptions import HeaderNotFoundException, InvalidColumnException
 from libecalc.common.units import Unit
 from libecalc.domain.process.value_objects.chart import ChartCurve
@@ -27,6 +28,10 @@ def _all_numbers_equal(values: list[int | float]) -> bool:
 
 class UserDefinedChartData(ChartData):
     def __init__(self, curves: list[ChartCurve], control_margin: float | None):
+        for curve in curves:
+            if min([curve.speed, *curve.rate_actual_m3_hour, *curve.polytropic_head_joule_per_kg]) < 0:
+                raise EcalcValidationException("Speed, rate and head in a chart curve can not be negative")
+
         self._curves = sorted(curves, key=lambda x: x.speed)
         self._control_margin = control_margin  # TODO: Set to 0 if not set? Default: 0?
         self._origin_of_chart_data = ChartType.SINGLE_SPEED if len(curves) == 1 else ChartType.VARIABLE_SPEED
-- 
2.43.0


From 2b7b65ba1d01bd3409e05dc35a7b331e28856314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 84/88] fix: venting emissions with factors that can not be
 calculated are rejected when the model is validated

---
 src/libecalc/presentation/yaml/mappers/component_mapper.py | 6 ++++++
 .../yaml/yaml_types/emitters/yaml_venting_emitter.py       | 7 -------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/component_mapper.py b/src/libecalc/presentation/yaml/mappers/component_mapper.py
index c52213a..a1bbfec 100644
--- a/src/libecalc/presentation/yaml/mappers/component_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/component_mapper.py
@@ -609,6 +609,12 @@ class EcalcModelMapper:
                     regularity=defaults.regularity,
                 )
             elif isinstance(data, YamlOilTypeEmitter):
+                for emission in data.volume.emissions:
+                    # The factors are used when emissions are calculated, make sure that will be possible
+                    TimeSeriesExpression(
+                        expression=emission.emission_factor, expression_evaluator=self._expression_evaluator
+                    ).get_evaluated_expression()
+
                 return OilVentingEmitter(
                     id=id,
                     name=data.name,
diff --git a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
index 9a5acad..f8ded12 100644
--- a/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
+++ b/src/libecalc/presentation/yaml/yaml_types/emitters/yaml_venting_emitter.py
@@ -45,13 +45,6 @@ class YamlVentingVolumeEmission(YamlBase):
         ..., title="EMISSION_FACTOR", description="Loading/storage volume-emission factor"
     )
 
-    @field_validator("emission_factor", mode="after")
-    @classmethod
-    def check_emission_factor(cls, emission_factor):
-        if isinstance(emission_factor, str) and not emission_factor.strip():
-            raise ValueError("EMISSION_FACTOR can not be empty.")
-        return emission_factor
-
     @field_validator("name", mode="before")
     def check_name(cls, name, info: ValidationInfo):
         """Make name case-insensitive"""
-- 
2.43.0


From 788271fc554e27ae78c059fa5b18d69faf5372c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 85/88] fix: power loss factors outside 0 to 1 are rejected
 when the model is validated

---
 .../domain/expression_time_series_power_loss_factor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libecalc/presentation/yaml/domain/expression_time_series_power_loss_factor.py b/src/libecalc/presentation/yaml/domain/expression_time_series_power_loss_factor.py
index 38ad70b..1cec334 100644
--- a/src/libecalc/presentation/yaml/domain/expression_time_series_power_loss_factor.py
+++ b/src/libecalc/presentation/yaml/domain/expression_time_series_power_loss_factor.py
@@ -1,6 +1,7 @@
 import numpy as np
 from numpy.typing import NDArray
 
+from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
 from libecalc.domain.time_series_power_loss_factor import TimeSeriesPowerLossFactor
 from libecalc.presentation.yaml.domain.time_series_expression import TimeSeriesExpression
 
@@ -12,6 +13,15 @@ class ExpressionTimeSeriesPowerLossFactor(TimeSeriesPowerLossFactor):
 
     def __init__(self, time_series_expression: TimeSeriesExpression):
         self._time_series_expression = time_series_expression
+        self._validate()
+
+    def _validate(self):
+        for power_loss_factor in self.get_values():
+            if not 0 <= power_loss_factor < 1:
+                raise EcalcValidationException(
+                    f"Power loss factor must be at least 0 and less than 1, got {power_loss_factor}. "
+                    f"Expression: {self._time_series_expression.get_expression()}"
+                )
 
     def get_values(self) -> list[float]:
         """
-- 
2.43.0


From 9d2ea15251ab1544c97f7b7bb4955c74bbc7eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 86/88] fix: turbines without a positive heating value are
 rejected when the model is validated

---
 src/libecalc/presentation/yaml/yaml_types/models/yaml_turbine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_turbine.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_turbine.py
index d74d255..06f58e9 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_turbine.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_turbine.py
@@ -36,6 +36,7 @@ class YamlTurbine(YamlBase):
     )
     lower_heating_value: float = Field(
         ...,
+        gt=0,
         description="Lower heating value [MJ/Sm3] of fuel. Lower heating value is also known as net calorific value",
         title="LOWER_HEATING_VALUE",
     )
-- 
2.43.0


From 52bf89c1e8f2a2dfc05fad2a32fcfdff440197ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 87/88] fix: compressor charts with no efficiency are rejected
 when the model is validated

---
 src/libecalc/presentation/yaml/mappers/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libecalc/presentation/yaml/mappers/model.py b/src/libecalc/presentation/yaml/mappers/model.py
index f72736f..49e4d3d 100644
--- a/src/libecalc/presentation/yaml/mappers/model.py
+++ b/src/libecalc/presentation/yaml/mappers/model.py
@@ -68,6 +68,12 @@ class InvalidChartResourceException(Exception):
             return None
 
 
+def _validate_compressor_efficiency(chart_data: ChartData):
+    for curve in chart_data.get_original_curves():
+        if min(curve.efficiency_fraction) <= 0:
+            raise EcalcValidationException("Efficiency in a compressor chart curve must be larger than 0")
+
+
 def single_speed_compressor_chart_mapper(
     model_config: YamlSingleSpeedChart,
     resources: Resources,
@@ -97,6 +103,7 @@ def single_speed_compressor_chart_mapper(
             [curve_config], units=model_config.units, control_margin=control_margin
         )
 
+    _validate_compressor_efficiency(chart_data)
     return chart_data
 
 
@@ -125,6 +132,7 @@ def variable_speed_compressor_chart_mapper(
             curve_config, units=model_config.units, control_margin=control_margin
         )
 
+    _validate_compressor_efficiency(chart_data)
     return chart_data
 
 
-- 
2.43.0


From 19ad7d8fb5a2fc9c379401652615575d72969612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 88/88] fix: simplified trains referring to something that is
 not a chart are rejected, instead of crashing the validation

---
 .../yaml/yaml_types/models/yaml_compressor_trains.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
index df89e2c..e1fa35c 100644
--- a/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
+++ b/src/libecalc/presentation/yaml/yaml_types/models/yaml_compressor_trains.py
@@ -153,7 +153,7 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
     @model_validator(mode="after")
     def check_compressor_chart(self, info: ValidationInfo):
         if info.context is not None:
-            train = info.context["model_types"][self.name].compressor_train
+            train = self.compressor_train
             allowed_charts_simplified_trains = [
                 YamlChartType.GENERIC_FROM_INPUT.value,
                 YamlChartType.GENERIC_FROM_DESIGN_POINT.value,
@@ -175,9 +175,10 @@ class YamlSimplifiedVariableSpeedCompressorTrain(YamlCompressorTrainBase):
             else:
                 # Unknown compressor stages
                 compressor_chart = info.context["model_types"][train.compressor_chart]
-                if compressor_chart.chart_type not in allowed_charts_simplified_trains:
+                chart_type = getattr(compressor_chart, "chart_type", None)
+                if chart_type is not None and chart_type not in allowed_charts_simplified_trains:
                     raise ValueError(
-                        f"{compressor_chart.chart_type} compressor chart is not supported for {self.type}. "
+                        f"{chart_type} compressor chart is not supported for {self.type}. "
                         f"Allowed charts are {', '.join(allowed_charts_simplified_trains)}."
                     )
         return self
-- 
2.43.0

