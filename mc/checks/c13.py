"""C13: emission intensity.  All emission and export vectors over a small domain with zeros, unequal periods and every frequency are
run end to end (model -> resample -> intensity) and compared with mass and volume sums computed independently from the definition."""

import math

from ecalc_cli.emission_intensity import EmissionIntensityCalculator
from libecalc.common.time_utils import Frequency
from mc.e2e import D, result
from mc.refmodel import Asset

BOE = 6.29
CALS = {
    "years": [D(2020), D(2021), D(2022), D(2023)],
    "uneven": [D(2020), D(2020, 3, 1), D(2021), D(2021, 1, 2)],
    "mid year": [D(2020, 5, 17), D(2020, 12, 31), D(2022, 2, 1), D(2022, 11, 3)],
    "one": [D(2020), D(2020, 7, 1)],
}


def cum_at(cal, rates, date):
    return sum(r * max(0.0, (min(b, date) - a).total_seconds() / 86400) for a, b, r in zip(cal[:-1], cal[1:], rates))


def run(ck):
    ck.bounds.update(periods=[1, 3], calendars=len(CALS), values=3, frequencies=["none", "year", "month"])
    ck.assumptions += ["1 Sm3 = 6.29 boe", "daily frequency is covered by the C05 check of the resampling itself"]

    def check(t, cal, fuel_rates, hcs, regs, freq, emissions, two, vent=None):
        n = len(cal) - 1
        insts = [{"name": "i", "fuel": "gas", "reg": regs, "hc": hcs, "fcs": [{"name": "f", "fuelrate": fuel_rates}]}]
        if vent:
            insts[0]["vents"] = [{"name": "v", "emissions": {vent: {"value": 100.0, "rt": "CALENDAR_DAY"}}}]
        if two:
            insts.append({"name": "j", "fuel": "gas", "reg": 0.5, "hc": [3.0] * n, "fcs": [{"name": "h", "fuelrate": 8.0}]})
        a = Asset(cal, {"gas": emissions}, insts)
        r = result(*a.build())
        if freq != Frequency.NONE:
            r = r.resample(freq)
        t.step()
        res = EmissionIntensityCalculator(hydrocarbon_export_rate=r.component_result.hydrocarbon_export_rate, emissions=r.component_result.emissions, frequency=freq).get_results()
        asset, _ = a.expected()
        if "co2" not in asset["emissions"]:
            t.check(len(res.results) == 0, f"intensity reported without any co2: {res}")
            t.outcome("no co2")
            return
        t.check(len(res.results) == 1 and res.results[0].name.lower() == "co2", "one co2 intensity is reported")
        x = res.results[0]
        periods = [(p.start, p.end) for p in x.intensity_sm3.periods]
        if freq == Frequency.NONE:
            t.check(periods == list(zip(cal[:-1], cal[1:])), f"periods {periods}")
        t.check(periods[0][0] == cal[0] and periods[-1][1] == cal[-1], f"periods {periods} do not cover the run")
        kg = [e * 1000 for e in asset["emissions"]["co2"]]
        hc = asset["hc"]
        mass = [cum_at(cal, kg, e) for _, e in periods]
        vol = [cum_at(cal, hc, e) for _, e in periods]

        def ratio(m, v, f):
            return [p / (q * f) if q != 0 else math.nan for p, q in zip(m, v)]

        def own(v):
            return [b - c for b, c in zip(v, [0.0, *v[:-1]])]

        def settle(v):  # a period without export has exactly no export
            return [0.0 if abs(y) < 1e-7 else y for y in v]

        for s, f, unit in ((x.intensity_sm3, 1.0, "kg/Sm3"), (x.intensity_boe, BOE, "kg/BOE")):
            t.same(s.values, ratio(mass, settle(vol), f), f"cumulative intensity {unit}", rel=1e-7)
            t.check(str(s.unit.value) == unit, f"unit {s.unit}")
        yearly = (x.intensity_yearly_sm3, x.intensity_yearly_boe)
        if freq == Frequency.YEAR:
            for s, f, unit in zip(yearly, (1.0, BOE), ("kg/Sm3", "kg/BOE")):
                t.same(s.values, ratio(own(mass), settle(own(vol)), f), f"yearly intensity {unit}", rel=1e-6)
                t.check([(p.start, p.end) for p in s.periods] == periods, "yearly intensity periods")
                t.check(str(s.unit.value) == unit, f"unit {s.unit}")
        else:
            t.check(yearly == (None, None), "yearly intensity only for yearly output")
        t.state(periods, mass, vol)
        t.outcome(tuple(math.isnan(v) for v in x.intensity_sm3.values[:4]))

    def vectors(t):
        cal = CALS[t.pick("calendar", list(CALS))]
        n = len(cal) - 1
        f = [t.pick(f"fuel{k}", [0.0, 10.0, 37.5] if not ck.quick else [10.0, 0.0]) for k in range(n)]
        h = [t.pick(f"export{k}", [0.0, 100.0, 7.25]) for k in range(n)]
        freq = t.pick("frequency", [Frequency.NONE, Frequency.YEAR, Frequency.MONTH])
        check(t, cal, f, h, 1.0, freq, {"co2": 2.0}, False)

    ck.explore("emission and export vectors", vectors)

    def options(t):
        cal = CALS[t.pick("calendar", ["uneven", "mid year"])]
        f = t.pick("fuel", [[10.0, 0.0, 5.0], [0.0, 0.0, 0.0]])
        h = t.pick("export", [[100.0, 0.0, 7.0], [0.0, 50.0, 0.0]])
        regs = t.pick("regularity", [1.0, [0.5, 1.0, 0.25], [1.0, 0.0, 1.0]])
        freq = t.pick("frequency", [Frequency.NONE, Frequency.YEAR, Frequency.MONTH, Frequency.DAY] if not ck.quick else [Frequency.NONE, Frequency.YEAR, Frequency.MONTH])
        em = t.pick("emissions", [{"co2": 2.0}, {"CO2": [2.0, 1.0, 3.0], "ch4": 9.0}, {"ch4": 1.0}, {}])
        em = {k: v for k, v in em.items()}
        vent = t.pick("venting", [None, "co2", "nmvoc"])
        if any(k.isupper() for k in em):
            em = {k.lower(): v for k, v in em.items()}
        check(t, cal, f, h, regs, freq, em, t.flip("second installation"), vent)

    ck.explore("regularity, several emissions and installations", options)
