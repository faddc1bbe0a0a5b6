"""C10: prognosis exports.  Every pairing of installation, consumer, producer and fuel category with every kind of component, every way
categories and fuels can change over a small calendar, and every frequency is run end to end; every cell of the written LTP and STP
tables is compared with an independent sum over the reference asset, using a hand-written specification of the columns."""

import math
from datetime import timedelta

from libecalc.common.time_utils import Frequency
from libecalc.presentation.exporter.configs.configs import LTPConfig, STPConfig
from libecalc.presentation.exporter.configs.formatter_config import PeriodFormatterConfig
from libecalc.presentation.exporter.formatters.formatter import CSVFormatter
from libecalc.presentation.exporter.infrastructure import ExportableYamlModel

from mc.checks.c05 import ticks
from mc.core import Prune, close
from mc.e2e import D
from mc.e2e import run as run_model
from mc.refmodel import Asset, vec

FREQ = [Frequency.NONE, Frequency.YEAR, Frequency.MONTH, Frequency.DAY]
TURBINE = ["TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR"]


def rounding(x):
    """half a unit in the last written place: six decimals below one, six fewer digits per power of ten above"""
    a = math.floor(math.log10(abs(x))) if x else -1
    return 0.5000001 * 10.0 ** -(6 if a < 0 else max(6 - a, 0)) if abs(x) > 1e-6 else 1.0000001e-6


def columns():
    """name -> (table, kind, installation category, consumer/producer categories, fuel category, emission, sign, unit)"""
    L = {}

    def fuel(name, unit, inst, cons, ft):
        L[name] = ("fuel", inst, cons, None, ft, None, 1, unit)

    fuel("turbineFuelGasConsumption", "Sm3", "FIXED", TURBINE, "FUEL-GAS")
    fuel("flareGasConsumption", "Sm3", "FIXED", ["FLARE"], None)
    fuel("engineDieselConsumption", "L", "FIXED", None, "DIESEL")
    fuel("engineNoCo2TaxDieselConsumption", "L", "MOBILE", None, "DIESEL")
    fuel("boilerFuelGasConsumption", "Sm3", "FIXED", ["BOILER"], "FUEL-GAS")
    fuel("boilerDieselConsumption", "L", "FIXED", ["BOILER"], "DIESEL")
    fuel("heaterFuelGasConsumption", "Sm3", "FIXED", ["HEATER"], "FUEL-GAS")
    fuel("heaterDieselConsumption", "L", "FIXED", ["HEATER"], "DIESEL")
    for e in ("Co2", "Nox", "Nmvoc", "Ch4"):

        def em(name, inst, cons, ft):
            L[name] = ("emission", inst, cons, None, ft, e.lower(), 1, "t")

        em(f"turbineFuelGas{e}Mass", "FIXED", TURBINE, "FUEL-GAS")
        em(f"flareGas{e}Mass", "FIXED", ["FLARE"], None)
        em(f"engineDiesel{e}Mass", "FIXED", None, "DIESEL")
        em(f"engineNoCo2TaxDiesel{e}Mass", "MOBILE", None, "DIESEL")
        em(f"boilerFuelGas{e}Mass", "FIXED", ["BOILER"], "FUEL-GAS")
        em(f"boilerDiesel{e}Mass", "FIXED", ["BOILER"], "DIESEL")
        em(f"heaterFuelGas{e}Mass", "FIXED", ["HEATER"], "FUEL-GAS")
        em(f"heaterDiesel{e}Mass", "FIXED", ["HEATER"], "DIESEL")
        if e == "Co2":
            em("co2VentingMass", "FIXED", ["COLD-VENTING-FUGITIVE"], None)
        if e in ("Nmvoc", "Ch4"):
            em(f"coldVentAndFugitives{e}Mass", "FIXED", ["COLD-VENTING-FUGITIVE"], None)
            em(f"coldVentAndFugitivesNoCo2Tax{e}Mass", "MOBILE", ["COLD-VENTING-FUGITIVE"], None)
            em(f"storage{e}Mass", "FIXED", ["STORAGE"], None)
            em(f"loading{e}Mass", "FIXED", ["LOADING"], None)
    L["loadedAndStoredOil"] = ("oil", "FIXED", ["LOADING"], None, None, None, 1, "Sm3")
    L["gasTurbineGeneratorConsumption"] = ("produced", "FIXED", None, ["TURBINE-GENERATOR"], None, None, 1, "GWh")
    L["gasTurbineCompressorConsumption"] = ("consumed", "FIXED", ["GAS-DRIVEN-COMPRESSOR"], None, None, None, 1, "GWh")
    L["offshoreWindConsumption"] = ("consumed", "FIXED", ["OFFSHORE-WIND"], None, None, None, -1, "GWh")
    L["fromShoreConsumption"] = ("consumed", None, None, ["POWER-FROM-SHORE"], None, None, 1, "GWh")
    L["powerSupplyOnshore"] = ("produced", None, None, ["POWER-FROM-SHORE"], None, None, 1, "GWh")
    L["fromShorePeakMaximum"] = ("peak", None, None, ["POWER-FROM-SHORE"], None, None, 1, "MW")
    L["steamTurbineGeneratorConsumption"] = ("consumed", "FIXED", ["STEAM-TURBINE-GENERATOR"], None, None, None, -1, "GWh")
    S = {
        "co2Emission": ("emission", "FIXED", None, None, None, "co2", 1, "t"),
        "co2FromMobileUnits": ("emission", "MOBILE", None, None, None, "co2", 1, "t"),
        "methaneEmission": ("emission", "FIXED", None, None, None, "ch4", 1, "t"),
        "flareGasCo2Mass": L["flareGasCo2Mass"],
        "flareGasCh4Mass": L["flareGasCh4Mass"],
        "powerSupplyOnshore": L["powerSupplyOnshore"],
        "flare": L["flareGasConsumption"],
    }
    return {"ltp": L, "stp": S}


COLUMNS = columns()


def contributions(a: Asset, inst, exp):
    """[(kind, consumer category, producer category, fuel category, emission, value per period)]; categories per period"""
    n = a.n

    def lst(x):
        return list(x) if isinstance(x, (list, tuple)) else [x] * n

    def fcat(spec):
        return [a.fuels[f].get("category") if f else None for f in lst(spec)]

    none = [None] * n
    out = []
    reg = vec(inst.get("reg", 1.0), n)
    for g in inst.get("gens", []):
        e, cat = exp[g["name"]], lst(g.get("category", "TURBINE-GENERATOR"))
        fc = fcat(g.get("fuel", inst.get("fuel")))
        out.append(("fuel", cat, none, fc, None, e["fuel"]))
        out += [("emission", cat, none, fc, k, v) for k, v in e["emissions"].items()]
        cable = [c if x == "POWER-FROM-SHORE" else 0.0 for c, x in zip(vec(g.get("cable", 0.0), n), cat)]
        out.append(("produced", none, cat, none, None, [p * (1 + c) * r for p, c, r in zip(e["power"], cable, reg)]))
        if "max_shore" in g:
            out.append(("peak", none, cat, none, None, vec(g["max_shore"], n)))
        for c in g["cons"]:
            out.append(("consumed", lst(c.get("category", "BASE-LOAD")), cat, none, None, [p * r for p, r in zip(exp[c["name"]]["power"], reg)]))
    for c in inst.get("fcs", []):
        e, cat = exp[c["name"]], lst(c.get("category", "FLARE" if "fuelrate" in c else "COMPRESSOR"))
        fc = fcat(c.get("fuel", inst.get("fuel")))
        out.append(("fuel", cat, none, fc, None, e["fuel"]))
        out += [("emission", cat, none, fc, k, v) for k, v in e["emissions"].items()]
        if e["mech"] is not None:
            out.append(("consumed", cat, none, none, None, [p * r for p, r in zip(e["mech"], reg)]))
    for v in inst.get("vents", []):
        e, cat = exp[v["name"]], lst(v.get("category", "COLD-VENTING-FUGITIVE"))
        out += [("emission", cat, none, none, k, x) for k, x in e["emissions"].items()]
        if "oil" in e:
            out.append(("oil", cat, none, none, None, e["oil"]))
    return out


def expected_tables(a: Asset, freq):
    _, exp = a.expected()
    bounds = list(a.cal) if freq == Frequency.NONE else [a.cal[0], *ticks(freq, a.cal[0], a.cal[-1]), a.cal[-1]]
    rows = list(zip(bounds[:-1], bounds[1:]))
    per = list(zip(a.cal[:-1], a.cal[1:]))
    out = {}
    for inst in a.installations:
        cs = contributions(a, inst, exp)
        for table, cols in COLUMNS.items():
            t = {}
            for name, (kind, icat, cons, prod, fc, em, sign, unit) in cols.items():
                if icat is not None and inst.get("category") != icat:
                    continue
                daily = [0.0] * a.n
                for kind_, ccat, pcat, fcat, em_, values in cs:
                    if kind_ != kind or (em is not None and em_ != em):
                        continue
                    for k in range(a.n):
                        if cons is not None and ccat[k] not in cons:
                            continue
                        if prod is not None and pcat[k] not in prod:
                            continue
                        if fc is not None and fcat[k] != fc:
                            continue
                        if not math.isnan(values[k]):
                            daily[k] += values[k]
                vals = []
                for lo, hi in rows:
                    over = [(max(lo, s), min(hi, e), v) for (s, e), v in zip(per, daily) if max(lo, s) < min(hi, e)]
                    if kind == "peak":
                        vals.append(max(v for _, _, v in over))
                    else:
                        vals.append(sum((e - s) / timedelta(days=1) * v for s, e, v in over) * (0.024 if unit == "GWh" else 1.0) * sign)
                t[name] = (unit, vals)
            out[(inst["name"], table)] = ([(lo.strftime("%Y"), lo.strftime("%m")) for lo, _ in rows] if t else [], t)
    return out


def actual_tables(t, model, freq):
    out = {}
    for table, config in (("ltp", LTPConfig), ("stp", STPConfig)):
        groups = CSVFormatter(separation_character="\t", index_formatters=PeriodFormatterConfig.get_row_index_formatters()).format_groups(
            config.filter(frequency=freq).filter(ExportableYamlModel(model))
        )
        for name, lines in groups.items():
            rows = [x.split("\t") for x in lines]
            t.check(rows[0][:2] == ["forecastYear", "forecastMonth"], f"index columns {rows[0][:2]}")
            t.check(len({len(r) for r in rows}) == 1, "ragged export table")
            t.check(len(set(rows[0])) == len(rows[0]), "a column is exported twice")
            units = [x[x.rindex("[") + 1 : -1] for x in rows[1][2:]]
            out[(name, table)] = (
                [(r[0], r[1]) for r in rows[2:]],
                {c: (u, [float(r[k + 2]) for r in rows[2:]]) for k, (c, u) in enumerate(zip(rows[0][2:], units))},
            )
    return out


def check(t, insts, fuels, cal, freqs):
    a = Asset(cal, fuels, insts)
    doc, ts, fac = a.build()
    m = run_model(doc, ts, fac)
    used = set()
    for freq in freqs:
        t.step()
        want, got = expected_tables(a, freq), actual_tables(t, m, freq)
        t.check(set(want) == set(got), lambda: f"installations exported {sorted(got)}, expected {sorted(want)}")
        for key, (rows, cols) in want.items():
            grows, gcols = got[key]
            t.check(list(cols) == list(gcols) or set(cols) == set(gcols), lambda: f"{key} {freq.name}: columns differ: {set(cols) ^ set(gcols)}")
            t.check(grows == rows, lambda: f"{key} {freq.name}: reported periods {grows[:6]}, expected {rows[:6]}")
            for c, (unit, vals) in cols.items():
                t.check(gcols[c][0] == unit, f"{key} {c}: unit {gcols[c][0]}, expected {unit}")
                ok = len(vals) == len(gcols[c][1]) and all(close(g, w, rel=1e-12, abs_=rounding(w)) for g, w in zip(gcols[c][1], vals))
                t.check(ok, lambda: f"{key} {c} at {freq.name}: exported {gcols[c][1][:8]}, expected {vals[:8]}")
                if any(vals):
                    used.add(c)
    for c in used:
        t.outcome(c)


EMS = {"co2": 2.0, "nox": 0.5, "nmvoc": 0.25, "ch4": [0.1, 0.2, 0.3]}
CATS = [
    "TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR", "FLARE", "BOILER", "HEATER", "LOADING", "STORAGE", "COLD-VENTING-FUGITIVE",
    "POWER-FROM-SHORE", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "BASE-LOAD", "COMPRESSOR", "FIXED-PRODUCTION-LOAD", "MISCELLANEOUS", "PUMP",
]  # fmt: skip
CAL = [D(2020, 1, 1), D(2020, 2, 15), D(2021, 1, 1), D(2021, 1, 2)]
ODD = [D(2019, 12, 30), D(2020, 2, 29), D(2020, 3, 1), D(2021, 2, 1)]


def run(ck):
    ck.bounds.update(columns=sum(map(len, COLUMNS.values())), categories=len(CATS), periods=3, frequencies=4, installations=2, components_per_installation=4)
    ck.assumptions += [
        "column specification written from the CATEGORY reference, the changelogs and the column titles",
        "values are written with six significant decimals (see Numbers.format_to_precision); compared within half a unit of the last place",
        "a component without a defined value (invalid tabulated compressor) contributes nothing and removes nothing",
    ]

    def fuels():
        return {
            "gas": {"emissions": EMS, "category": "FUEL-GAS"},
            "diesel": {"emissions": {"co2": 3.0, "CH4".lower(): 1.0, "nox": 0.0}, "category": "DIESEL"},
            "other": {"emissions": EMS},
        }

    def columns(t):
        """one component of every kind and category next to a fixed background, in every kind of installation"""
        icat = t.pick("installation", ["FIXED", "MOBILE", None])
        kind = t.pick("component", ["direct fuel", "compressor", "generator", "consumer", "emission", "oil"])
        cat = t.pick("category", CATS)
        f = t.pick("fuel", ["gas", "diesel", "other"]) if kind in ("direct fuel", "compressor", "generator") else "gas"
        inst = {"name": "one", "fuel": f, "gens": [], "fcs": [], "vents": [], "reg": [1.0, 0.5, 0.8]}
        if icat:
            inst["category"] = icat
        if kind == "direct fuel":
            inst["fcs"].append({"name": "x", "fuelrate": [10.0, 20.0, 0.0], "category": cat})
        elif kind == "compressor":
            inst["fcs"].append({"name": "x", "rate": [30.0, 60.0, 0.0], "category": cat})
        elif kind == "generator":
            inst["gens"].append({"name": "x", "category": cat, "cons": [{"name": "xl", "load": [5.0, 7.0, 0.0], "category": "PUMP"}]})
            if cat == "POWER-FROM-SHORE":
                inst["gens"][0].update(cable=0.1, max_shore=[3.0, 9.0, 5.0])
        elif kind == "consumer":
            sign = -1.0 if cat in ("OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR") else 1.0
            inst["gens"].append({
                "name": "xg", "category": t.pick("producer", ["TURBINE-GENERATOR", "POWER-FROM-SHORE", "BOILER"]),
                "cons": [{"name": "xl", "load": [9.0, 9.0, 8.0], "category": "PUMP"}, {"name": "x", "load": [sign * 5.0, sign * 7.0, 0.0], "category": cat}],
            })  # fmt: skip
        elif kind == "emission":
            inst["vents"].append({"name": "x", "category": cat, "emissions": {e: {"value": [100.0 * k, 50.0, 0.0]} for k, e in enumerate(EMS)}})
        else:
            inst["vents"].append({"name": "x", "category": cat, "oil": {"value": [1000.0, 0.0, 500.0]}, "factors": {"ch4": 0.5, "nmvoc": [1.0, 2.0, 3.0]}})
        bg = {
            "name": "two", "category": "FIXED", "fuel": "diesel",
            "gens": [{"name": "bg", "category": "POWER-FROM-SHORE", "max_shore": 4.0, "cons": [{"name": "bl", "load": 3.0}]}],
            "fcs": [{"name": "bf", "fuelrate": 5.0, "category": "FLARE"}],
            "vents": [{"name": "bo", "category": "LOADING", "oil": {"value": 10.0}, "factors": {"ch4": 0.5}}],
        }  # fmt: skip
        if t.pick("same installation", [True, False][: ck.q(1, 2)]):
            for k in ("gens", "fcs", "vents"):
                inst[k] += bg[k]
            insts = [inst]
        else:
            insts = [inst, bg] if icat == "FIXED" else [bg, inst]
        check(t, insts, fuels(), CAL, [Frequency.NONE, Frequency.YEAR])
        t.state(icat, kind, cat, f)

    ck.explore("one component of every category", columns)

    A, B = "POWER-FROM-SHORE", "TURBINE-GENERATOR"
    GC = [B, [B, A, A], [A, A, B], [A, B, A], [B, "BOILER", "BOILER"]]
    CC = ["BASE-LOAD", ["OFFSHORE-WIND", "BASE-LOAD", "BASE-LOAD"], ["BASE-LOAD", "STEAM-TURBINE-GENERATOR", "OFFSHORE-WIND"], "FLARE"]
    FC = ["FLARE", ["FLARE", "GAS-DRIVEN-COMPRESSOR", "GAS-DRIVEN-COMPRESSOR"], ["GAS-DRIVEN-COMPRESSOR", "HEATER", "BOILER"], ["BOILER", "BOILER", "HEATER"]]
    FF = ["gas", ["gas", "diesel", "diesel"], ["diesel", "diesel", "gas"], ["other", "gas", "diesel"]]

    def changing(t):
        """categories and fuels that change over time"""
        cal = t.pick("calendar", [CAL, ODD], cost=1)
        gc = t.pick("generator category", GC, cost=1)
        inst = {"name": "one", "category": t.pick("installation", ["FIXED", "MOBILE"], cost=1), "reg": [0.5, 1.0, 0.75]}
        inst["fuel"] = t.pick("installation fuel", FF, cost=1)
        g = {"name": "g", "category": gc, "cons": [{"name": "l1", "load": [5.0, 7.0, 9.0], "category": t.pick("consumer category", CC, cost=1)}, {"name": "l2", "load": 2.0}]}
        if "POWER-FROM-SHORE" in gc:
            g.update(cable=[0.1, 0.2, 0.0], max_shore=[4.0, 10.0, 6.0])
        ff = t.pick("generator fuel", [None, *FF[1:3]], cost=1)
        if ff:
            g["fuel"] = ff
        inst["gens"] = [g]
        inst["fcs"] = [
            {"name": "f", "fuelrate": [10.0, 0.0, 30.0], "category": t.pick("fuel user category", FC, cost=1)},
            {"name": "c", "rate": [50.0, 80.0, 20.0], "category": ["GAS-DRIVEN-COMPRESSOR", "COMPRESSOR", "GAS-DRIVEN-COMPRESSOR"], "fuel": FF[2]},
        ]
        check(t, [inst], fuels(), cal, ck.q([Frequency.NONE, Frequency.YEAR], [Frequency.NONE, Frequency.YEAR, Frequency.MONTH]))
        t.state(str(inst))

    ck.explore("categories and fuels change over time", changing, bound=ck.q(2, 5))

    def peaks(t):
        """two producers from shore, peaks that are not at the start of the reported period"""
        cal = t.pick("calendar", [CAL, ODD, [D(2020, 1, 1), D(2020, 1, 3), D(2020, 6, 1), D(2022, 3, 1)]])
        gens = []
        for k in (1, 2):
            p = t.pick(f"peak {k}", [[4.0, 10.0, 6.0], [9.0, 0.0, 3.0], 5.0, None])
            g = {"name": f"g{k}", "category": t.pick(f"category {k}", [A, [A, B, A], [B, A, B]]), "cons": [{"name": f"l{k}", "load": 5.0}]}
            if p is not None:
                g["max_shore"] = p
            gens.append(g)
        icat = t.pick("installation", ck.q([None], ["FIXED", "MOBILE", None]))
        inst = {"name": "one", "fuel": "gas", "gens": gens, "reg": 0.5}
        if icat:
            inst["category"] = icat
        check(t, [inst], fuels(), cal, [Frequency.NONE, Frequency.YEAR, Frequency.MONTH])
        t.state(str(inst))

    ck.explore("peak usage from shore", peaks)

    def invalid(t):
        """periods in which a tabulated compressor or a generator set cannot deliver"""
        cal = t.pick("calendar", [CAL, ODD])
        R = [[50.0, 250.0, 20.0], [250.0, 50.0, 50.0], [50.0, 60.0, 70.0], [250.0, 250.0, 250.0]][: ck.q(3, 4)]
        inst = {
            "name": "one", "category": t.pick("installation", ["FIXED", "MOBILE"]), "fuel": t.pick("fuel", ["gas", "diesel", FF[1]]), "reg": t.pick("reg", [1.0, [1.0, 0.0, 0.5]]),
            "fcs": [{"name": f"c{k}", "rate": t.pick(f"rate {k}", R), "category": "GAS-DRIVEN-COMPRESSOR"} for k in (1, 2)],
            "gens": [{"name": "g", "cons": [{"name": "l", "load": [15.0, 25.0, 0.0]}]}],
        }  # fmt: skip
        inst["fcs"].append({"name": "f", "fuelrate": 7.0, "category": "FLARE"})
        other = {"name": "two", "category": "FIXED", "fuel": "gas", "fcs": [{"name": "f2", "fuelrate": [1.0, 2.0, 3.0], "category": "FLARE"}]}
        check(t, t.pick("order", [[inst, other], [other, inst]][: ck.q(1, 2)]), fuels(), cal, ck.q(FREQ[:2], FREQ[:3]))
        t.state(str(inst))

    ck.explore("undefined contributions", invalid)

    def frequencies(t):
        """every placement of the calendar's dates around month and year boundaries, every frequency"""
        dates = [D(2019, 12, 31), D(2020, 1, 1), D(2020, 1, 31), D(2020, 2, 1), D(2020, 12, 31), D(2021, 1, 1), D(2021, 1, 2)]
        i = t.pick("start", range(len(dates) - 3))
        j = t.pick("second", range(i + 1, len(dates) - 2))
        k = t.pick("third", range(j + 1, len(dates) - 1))
        l = t.pick("end", range(k + 1, len(dates)))
        cal = [dates[x] for x in (i, j, k, l)]
        v = t.pick("values", [[10.0, 30.0, 20.0], [0.0, 0.0, 5.0], [3.0, 0.0, 0.0]])
        inst = {
            "name": "one", "category": "FIXED", "fuel": ["gas", "diesel", "diesel"], "reg": [1.0, 0.5, 0.9],
            "gens": [{"name": "g", "category": [B, B, A], "max_shore": v, "cons": [{"name": "l", "load": v}]}],
            "fcs": [{"name": "f", "fuelrate": v, "category": ["FLARE", "BOILER", "BOILER"]}],
            "vents": [{"name": "o", "category": "LOADING", "oil": {"value": v}, "factors": {"ch4": 0.5}}, {"name": "v", "emissions": {"co2": {"value": v}}}],
        }  # fmt: skip
        check(t, [inst], fuels(), cal, [t.pick("frequency", FREQ)])
        t.state(i, j, k, l)

    ck.explore("frequencies and calendars", frequencies)
