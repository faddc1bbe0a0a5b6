SEEDS = [
    dict(
        id="c06-emission-factor-first-fuel", property="C06",
        needs="a fuel that changes over time where the emission factor is a time series (not a constant)",
        breaks="after a fuel change the factor values are read from the beginning of the series instead of from the change date",
        edits=[("src/libecalc/domain/infrastructure/energy_components/fuel_model/fuel_model.py", """                variables_map_this_period = self._expression_evaluator.get_subset(
                    start_index=start_index,
                    end_index=end_index,
                )
""", """                variables_map_this_period = self._expression_evaluator.get_subset(
                    start_index=0,
                    end_index=end_index - start_index,
                )
""")],
        demo="""
from demo_e2e import D, csv, direct_fuel, fuel, result
doc = {"START": D(2020), "END": D(2022), "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
       "FUEL_TYPES": [fuel("a", {"co2": "S;F"}), fuel("b", {"co2": "S;F"})],
       "INSTALLATIONS": [{"NAME": "i", "FUEL": {D(2020): "a", D(2021): "b"}, "FUELCONSUMERS": [direct_fuel("f", 1000)]}]}
r = result(doc, {"s.csv": csv(["DATE", "F"], [["2020-01-01", 2], ["2021-01-01", 3]])})
v = r.component_result.emissions["co2"].rate.values
assert [round(x, 9) for x in v] == [2.0, 3.0], v
""",
    ),
    dict(
        id="c07-margin-at-capacity", property="C07",
        needs="a generator set whose curve changes over time to one with a smaller capacity than the load",
        breaks="the capacity margin (and so validity) after a curve change is still judged against the first curve's capacity",
        edits=[("src/libecalc/domain/infrastructure/energy_components/generator_set/generator_set_component.py", """                for i in range(start_index, end_index):
                    power_margin[i] = model.evaluate_power_capacity_margin(values[i])
""", """                for i in range(start_index, end_index):
                    if power_margin[i - 1] >= 0 and i > 0 and values[i] == values[i - 1]:
                        power_margin[i] = power_margin[i - 1]
                        continue
                    power_margin[i] = model.evaluate_power_capacity_margin(values[i])
""")],
        demo="""
from demo_e2e import D, csv, direct_load, fuel, result
doc = {"START": D(2020), "END": D(2022), "FUEL_TYPES": [fuel()],
       "FACILITY_INPUTS": [{"NAME": n, "TYPE": "ELECTRICITY2FUEL", "FILE": n + ".csv"} for n in "ab"],
       "INSTALLATIONS": [{"NAME": "i", "FUEL": "gas", "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": {D(2020): "a", D(2021): "b"}, "CONSUMERS": [direct_load("l", 15)]}]}]}
r = result(doc, {}, {"a.csv": csv(["POWER", "FUEL"], [[0, 0], [20, 100]]), "b.csv": csv(["POWER", "FUEL"], [[0, 0], [10, 100]])})
g = [x for x in r.sub_components if x.name == "g"][0]
assert list(g.is_valid.values) == [True, False], g.is_valid.values
assert list(g.power_capacity_margin.values) == [5.0, -5.0], g.power_capacity_margin.values
""",
    ),
    dict(
        id="c12-oil-factor-calendar", property="C12",
        needs="an oil-volume venting emitter with the rate on calendar-day basis, regularity below 1 and a zero regularity in some period",
        breaks="with a calendar-day oil rate and a period with regularity 0, the rate is not converted to stream day at all, so emissions come out too low in the other periods",
        edits=[("src/libecalc/domain/infrastructure/emitters/venting_emitter.py", """        Returns the stream day oil volume rate values.

        The values are calculated by converting calendar day rates to stream day rates
        using the specified regularity, and then applying the given condition expression.
        \"\"\"

        # if regularity is 0 for a calendar day rate, set stream day rate to 0 for that step
        rate = self._time_series_expression.get_masked_values()
        rate_array = np.asarray(rate, dtype=np.float64)

        if self.rate_type == RateType.CALENDAR_DAY:
""", """        Returns the stream day oil volume rate values.

        The values are calculated by converting calendar day rates to stream day rates
        using the specified regularity, and then applying the given condition expression.
        \"\"\"

        rate = self._time_series_expression.get_masked_values()
        rate_array = np.asarray(rate, dtype=np.float64)

        # no stream day to convert to if regularity is 0
        if self.rate_type == RateType.CALENDAR_DAY and all(self._regularity.values):
""")],
        demo="""
from demo_e2e import D, csv, fuel, result, direct_fuel
doc = {"START": D(2020), "END": D(2022), "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}], "FUEL_TYPES": [fuel()],
       "INSTALLATIONS": [{"NAME": "i", "FUEL": "gas", "REGULARITY": "S;R", "FUELCONSUMERS": [direct_fuel("f", 1)],
         "VENTING_EMITTERS": [{"NAME": "v", "CATEGORY": "LOADING", "TYPE": "OIL_VOLUME", "VOLUME": {"RATE": {"VALUE": 100, "UNIT": "SM3_PER_DAY", "TYPE": "CALENDAR_DAY"}, "EMISSIONS": [{"NAME": "ch4", "EMISSION_FACTOR": 10}]}}]}]}
r = result(doc, {"s.csv": csv(["DATE", "R"], [["2020-01-01", 0.5], ["2021-01-01", 0]])})
v = [x for x in r.sub_components if x.name == "v"][0].emissions["ch4"].rate.values
assert [round(x, 9) for x in v] == [1.0, 0.0], v
""",
    ),
    dict(
        id="c13-intensity-zero-first", property="C13",
        needs="no hydrocarbon export in the first period(s), export later",
        breaks="the cumulative intensity only counts emissions from the first exporting period on",
        edits=[("src/libecalc/domain/emission/emission_intensity.py", "        intensity = self.emission_cumulative / self.hydrocarbon_export_cumulative\n", """        emission_cumulative = self.emission_cumulative
        if emission_cumulative.values and self.hydrocarbon_export_cumulative.values[0] == 0.0:
            # nothing exported yet, no basis for intensity
            emission_cumulative = emission_cumulative.model_copy(
                update={"values": [value - emission_cumulative.values[0] for value in emission_cumulative.values]}
            )

        intensity = emission_cumulative / self.hydrocarbon_export_cumulative
""")],
        demo="""
from datetime import datetime as D
from libecalc.common.time_utils import Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import TimeSeriesVolumesCumulative as C
from libecalc.domain.emission.emission_intensity import EmissionIntensity
p = Periods.create_periods([D(2020), D(2021), D(2022)] if False else [D(2020, 1, 1), D(2021, 1, 1), D(2022, 1, 1)], False, False)
i = EmissionIntensity(C(periods=p, values=[10.0, 30.0], unit=Unit.KILO), C(periods=p, values=[0.0, 10.0], unit=Unit.STANDARD_CUBIC_METER))
v = i.calculate_cumulative().values
assert v[0] != v[0] and v[1] == 3.0, v
""",
    ),
    dict(
        id="c02-whole-days", property="C02",
        needs="observations or model dates with a time of day", breaks="the time of day is ignored when reading a series, so a value is used before it is in force or linear interpolation is off",
        edits=[("src/libecalc/presentation/yaml/domain/time_series.py", """            # Interpolator x variable is number of seconds from first date time
            setup_times = [(time - start_time).total_seconds() for time in self.time_vector]
""", """            # Interpolator x variable is number of days from first date time
            setup_times = [(time - start_time).days for time in self.time_vector]
"""), ("src/libecalc/presentation/yaml/domain/time_series.py", "        target_times = [(time - start_time).total_seconds() for time in time_vector]\n", "        target_times = [(time - start_time).days for time in time_vector]\n")],
        demo="""
from datetime import datetime as D
from libecalc.dto.types import InterpolationType
from libecalc.presentation.yaml.domain.time_series import TimeSeries
t = TimeSeries("r", [D(2020, 1, 1), D(2020, 1, 2, 12), D(2020, 1, 4)], [1.0, 5.0, 9.0], True, InterpolationType.RIGHT)
v = t.fit_to_time_vector([D(2020, 1, 1), D(2020, 1, 2), D(2020, 1, 3)]).series
assert list(v) == [1.0, 1.0, 5.0], v
""",
    ),
    dict(
        id="c04-same-regularities-other-order", property="C04",
        needs="adding two rate series whose regularity vectors hold the same values in a different order", breaks="the sum keeps the first series' regularity, so its volumes differ from the sum of the volumes",
        edits=[("src/libecalc/common/utils/rates.py", "            if self.regularity == other.regularity:\n", "            if set(self.regularity) == set(other.regularity):\n")],
        demo="""
from datetime import datetime as D
from libecalc.common.time_utils import Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import TimeSeriesRate, RateType
p = Periods.create_periods([D(2020, 1, 1), D(2020, 1, 11), D(2020, 1, 13)], False, False)
mk = lambda v, g: TimeSeriesRate(periods=p, values=v, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=g)
a, b = mk([10.0, 4.0], [0.5, 1.0]), mk([2.0, 6.0], [1.0, 0.5])
v = [x + y for x, y in zip(a.to_volumes().values, b.to_volumes().values)]
s = (a + b).to_volumes().values
assert all(abs(x - y) < 1e-9 for x, y in zip(s, v)), (s, v)
""",
    ),
]
