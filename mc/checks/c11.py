"""C11: model comparison.  Every pair of results over all period vectors from a small set of dates, presence/absence of components and
emissions, optional quantities, validity and units is compared through SimpleResultData.delta_profile and checked against an independent
definition (value of each model in force at each refined period, changed minus reference); pairs of really evaluated models likewise."""

from datetime import datetime, timedelta
from itertools import combinations

from libecalc.common.component_info.component_level import ComponentLevel
from libecalc.common.component_type import ComponentType
from libecalc.common.errors.exceptions import EcalcError
from libecalc.common.time_utils import Frequency, Periods
from libecalc.common.units import Unit
from libecalc.presentation.simple_result.simple import SimpleComponentResult, SimpleEmissionResult, SimpleResultData
from mc.core import close
from mc.e2e import D, direct_fuel, direct_load, fuel, result
from mc.refmodel import Asset

DATES = [D(2020), D(2020, 2, 1), D(2020, 2, 1) + timedelta(hours=6), D(2021), D(2021, 7, 15)]


def comp(name, ctype, cal, energy, power, emissions, valid, unit=Unit.STANDARD_CUBIC_METER_PER_DAY, parent="asset"):
    return SimpleComponentResult(
        componentType=ctype,
        component_level=ComponentLevel.CONSUMER,
        parent=parent,
        name=name,
        periods=Periods.create_periods(cal, include_before=False, include_after=False),
        is_valid=valid,
        emissions={k: SimpleEmissionResult(name=k, rate=v) for k, v in emissions.items()},
        energy_usage=energy,
        energy_usage_unit=unit,
        power=power,
    )


def at(cal, values, date):
    for a, b, v in zip(cal[:-1], cal[1:], values):
        if a <= date < b:
            return v
    raise KeyError(date)


def snap(model: SimpleResultData):
    """(calendar, {id: (energy, unit, power, emissions, valid)}) taken before the comparison"""
    return (
        list(model.periods.all_dates),
        {
            (str(c.componentType), c.name): (
                list(c.energy_usage),
                c.energy_usage_unit,
                None if c.power is None else list(c.power),
                {k: list(e.rate) for k, e in c.emissions.items()},
                list(c.is_valid),
                list(c.periods.all_dates),
            )
            for c in model.components
        },
    )


def zero_none(v):
    return 0.0 if v is None else v


def check_delta(t, changed, reference, tag="", snaps=None):
    ccal, cs = snap(changed) if snaps is None else snaps[0]
    rcal, rs = snap(reference) if snaps is None else snaps[1]
    first, last = max(ccal[0], rcal[0]), min(ccal[-1], rcal[-1])
    dates = sorted({d for d in ccal + rcal if first <= d <= last})
    if first >= last:
        t.raises(lambda: SimpleResultData.delta_profile(reference_model=reference, changed_model=changed), "models without common time", EcalcError)
        t.outcome("no overlap")
        return None
    fc, fr, delta, errors = SimpleResultData.delta_profile(reference_model=reference, changed_model=changed)
    t.step()
    for m in (fc, fr, delta):
        t.check(m.periods.all_dates == dates, f"{tag}periods {m.periods.all_dates}, expected {dates}")
    got = {(str(c.componentType), c.name): c for c in delta.components}
    t.check(len(got) == len(delta.components), "component reported twice")
    clash = {k for k in cs if k in rs and cs[k][1] != rs[k][1]}
    t.check(set(got) == (set(cs) | set(rs)) - clash, f"{tag}components {sorted(got)} expected {sorted((set(cs) | set(rs)) - clash)}")
    t.check(len(errors) == len(clash), f"{len(errors)} errors for {len(clash)} components with differing units")
    starts = dates[:-1]

    def series(entry, field, missing):
        if entry is None:
            return missing
        return [at(entry[5], field(entry), d) for d in starts]

    z = [0.0] * len(starts)
    for k, c in got.items():
        a, b = cs.get(k), rs.get(k)
        ea, eb = series(a, lambda e: e[0], z), series(b, lambda e: e[0], z)
        t.same(c.energy_usage, [x - y for x, y in zip(ea, eb)], f"{tag}{k} energy usage difference")
        t.check(c.energy_usage_unit == (a or b)[1], f"{k} unit {c.energy_usage_unit}")
        pa = None if a is None or a[2] is None else series(a, lambda e: e[2], z)
        pb = None if b is None or b[2] is None else series(b, lambda e: e[2], z)
        if pa is None and pb is None:
            t.check(not any(c.power or []), f"{tag}{k} power difference {c.power} although neither model has power")
        else:
            t.same(c.power, [x - y for x, y in zip(pa or z, pb or z)], f"{tag}{k} power difference")
        names = set(a[3] if a else {}) | set(b[3] if b else {})
        t.check(set(c.emissions) == names, f"{tag}{k} emissions {set(c.emissions)} expected {names}")
        for n in names:
            va = series(a, lambda e: e[3][n], z) if a and n in a[3] else z
            vb = series(b, lambda e: e[3][n], z) if b and n in b[3] else z
            t.check(c.emissions[n].name == n, f"{k} emission under {n} named {c.emissions[n].name}")
            t.same(c.emissions[n].rate, [x - y for x, y in zip(va, vb)], f"{tag}{k} {n} difference")
        one = [1] * len(starts)
        wa, wb = series(a, lambda e: e[4], one), series(b, lambda e: e[4], one)
        t.same([bool(v) for v in c.is_valid], [bool(x and y) for x, y in zip(wa, wb)], f"{tag}{k} validity")
        t.check(len(c.is_valid) == len(starts) and c.periods.all_dates == dates, f"{k} periods")
    # the refined models conserve each model's own volumes and hold every component of either model
    for m, own in ((fc, cs), (fr, rs)):
        ids = {(str(c.componentType), c.name): c for c in m.components}
        t.check(set(ids) == set(cs) | set(rs), f"{tag}normalised components {sorted(ids)}")
        for k, c in ids.items():
            e = own.get(k)
            days = [(y - x).total_seconds() for x, y in zip(dates[:-1], dates[1:])]
            if e is None:
                t.same(c.energy_usage, z, f"absent {k} is zero")
                continue
            vol = sum(v * max(0.0, (min(y, last) - max(x, first)).total_seconds()) for x, y, v in zip(e[5][:-1], e[5][1:], e[0]))
            t.same(sum(v * s for v, s in zip(c.energy_usage, days)), vol, f"{tag}{k} volume in the common span", rel=1e-12)
    t.state(dates, sorted(map(str, cs)), sorted(map(str, rs)))
    return delta


def key(delta):
    return {
        (str(c.componentType), c.name): ([*c.energy_usage], [*(c.power or [])], {n: [*e.rate] for n, e in c.emissions.items()}, [bool(v) for v in c.is_valid])
        for c in delta.components
    }


def neg(d):
    return {k: ([-v for v in e], [-v for v in p], {n: [-v for v in r] for n, r in em.items()}, w) for k, (e, p, em, w) in d.items()}


def run(ck):
    ck.bounds.update(dates=5, calendars=26, components=3, emissions=2, evaluated_models=ck.q(9, 12))
    ck.assumptions += ["a quantity absent on one side (power, an emission) counts as zero", "component validity of an absent component is true"]
    cals = [list(c) for k in range(2, 6) for c in combinations(DATES, k)]
    base = [cals[-1]] + cals[:-1]

    def synthetic(base):
        def scenario(t):
            models = []
            for mi, label in enumerate(("changed", "reference")):
                cal = t.pick(f"{label} dates", base)
                n = len(cal) - 1

                def vals(seed, n=n, mi=mi):
                    return [round(((seed * 31 + mi * 17 + k * 7) % 23) + 0.25 * k + mi, 3) for k in range(n)]

                comps = []
                present = t.pick(f"{label} components", [("a", "b"), ("a",), ("b",), ("b", "a"), ()], cost=1)
                for ci, name in enumerate(present):
                    ci = "ab".index(name)
                    ems = t.pick(f"{label} {name} emissions", [("co2",), ("co2", "ch4"), ("ch4",), (), ("ch4", "co2")], cost=1)
                    power = t.pick(f"{label} {name} power", ["values", None], cost=1) if name == "a" else "values"
                    valid = t.pick(f"{label} {name} validity", ["ok", "first", "last"], cost=1)
                    unit = t.pick(f"{label} {name} unit", [Unit.STANDARD_CUBIC_METER_PER_DAY, Unit.MEGA_WATT], cost=1) if name == "b" else Unit.MEGA_WATT
                    v = [True] * n
                    if valid != "ok":
                        v[0 if valid == "first" else -1] = False
                    ctype = ComponentType.COMPRESSOR if name == "a" else t.pick(f"{label} {name} type", [ComponentType.GENERIC, ComponentType.PUMP], cost=1)
                    comps.append(comp(name, ctype, cal, vals(ci), vals(ci + 5) if power else None, {e: vals(ci + 9 + len(e) + ord(e[1])) for e in ems}, v, unit, t.pick(f"{label} {name} parent", ["asset", "other"], cost=2)))
                models.append(SimpleResultData(periods=Periods.create_periods(cal, include_before=False, include_after=False), components=comps))
            changed, reference = models
            fresh = lambda m: SimpleResultData.model_validate(m.model_copy(deep=True))  # noqa: E731
            d1 = check_delta(t, fresh(changed), fresh(reference))
            if d1 is None:
                return
            # the same objects again, the other way round, and with itself: no history
            sc, sr = snap(changed), snap(reference)
            d2 = check_delta(t, changed, reference, "again: ", (sc, sr))
            back = check_delta(t, reference, changed, "swapped: ", (sr, sc))
            t.check(key(d1) == key(d2), "second comparison differs")
            t.same({str(k): v[0] for k, v in key(back).items()}, {str(k): v[0] for k, v in neg(key(d1)).items()}, "swapped comparison is the negative")
            t.same({str(k): v[2] for k, v in key(back).items()}, {str(k): v[2] for k, v in neg(key(d1)).items()}, "swapped emissions are the negative")
            t.same({str(k): v[1] for k, v in key(back).items()}, {str(k): v[1] for k, v in neg(key(d1)).items()}, "swapped power is the negative")
            zero = check_delta(t, fresh(changed), changed, "self: ")
            t.check(all(close(v, 0) for e in key(zero).values() for v in e[0] + e[1] + [x for r in e[2].values() for x in r]), "comparison with itself is not zero")
            t.outcome(len(d1.components))

        return scenario

    ck.explore("synthetic results", synthetic(base), bound=ck.q(1, 2))
    ck.explore("synthetic results, more options", synthetic([base[0], [DATES[0], DATES[3]], [DATES[1], DATES[2], DATES[4]], [DATES[2], DATES[3]], [DATES[3], DATES[4]]]), bound=ck.q(2, 3))

    def history(t):
        """comparisons with other models in between do not change a comparison"""
        cal = DATES

        def mk(name, ems, mi):
            n = len(cal) - 1
            return SimpleResultData(
                periods=Periods.create_periods(cal, include_before=False, include_after=False),
                components=[comp("a", ComponentType.GENERIC, cal, [1.0 * mi] * n, None, {e: [2.0 * mi + len(e)] * n for e in ems}, [True] * n)],
            )

        sets = [("co2",), ("co2", "ch4"), ("nmvoc",), ()]
        a = mk("a", t.pick("first", sets), 1)
        others = [mk("o", s, i + 2) for i, s in enumerate(t.pick("others", [(x, y) for x in sets for y in sets]))]
        sa, so = snap(a), [snap(o) for o in others]
        for k in range(2):
            order = t.pick(f"order{k}", ["changed", "reference"])
            o = others[k]
            tag = f"comparison {k}: "
            (check_delta(t, a, o, tag, (sa, so[k])) if order == "changed" else check_delta(t, o, a, tag, (so[k], sa)))

    ck.explore("sequences of comparisons", history)

    # ---------------------------------------------------------------- evaluated models
    cache = {}

    def model(kind, cal):
        k = (kind, tuple(cal))
        if k not in cache:
            n = len(cal) - 1
            v = [10.0 + 3 * j for j in range(n)]
            em = {"co2": 2.0} if "ch4" not in kind else {"co2": 1.5, "ch4": [0.5 * (j + 1) for j in range(n)]}
            inst = {"name": "i", "fuel": "gas", "reg": [1.0, 0.5, 0.8, 0.0][:n] if "reg" in kind else 1.0, "fcs": [{"name": "f", "fuelrate": v}]}
            if "gen" in kind:
                inst["gens"] = [{"name": "g", "cons": [{"name": "c", "load": [3.0 + j for j in range(n)]}, {"name": "d", "load": 25.0 if "invalid" in kind else 5.0}]}]
            if "tab" in kind:
                inst["fcs"].append({"name": "x", "rate": [50.0 + 10 * j for j in range(n)]})
            insts = [inst]
            if "two" in kind:
                insts.append({"name": "j", "fuel": "gas", "fcs": [{"name": "h", "fuelrate": 4.0}]})
            if "vent" in kind:
                inst["vents"] = [{"name": "v", "emissions": {"ch4": {"value": 5.0}}}]
            if "late" in kind:
                doc, ts, fac = Asset(cal, {"gas": em}, insts).build()
                m = doc["INSTALLATIONS"][0]["FUELCONSUMERS"][0]
                m["ENERGY_USAGE_MODEL"] = {cal[1]: m["ENERGY_USAGE_MODEL"]} if n > 1 else m["ENERGY_USAGE_MODEL"]
                r = result(doc, ts, fac)
            else:
                r = result(*Asset(cal, {"gas": em}, insts).build())
            cache[k] = r
        return cache[k]

    kinds = ["plain", "ch4", "gen reg", "gen invalid", "tab", "two vent", "ch4 two", "late", "reg"] + ([] if ck.quick else ["gen tab ch4", "late reg", "gen two reg vent"])
    cal_sets = [[D(2020), D(2021), D(2022), D(2023)], [D(2021), D(2021, 6, 1), D(2024)], [D(2019), D(2021, 3, 1)]] + ([] if ck.quick else [[D(2020, 5, 17), D(2020, 12, 31), D(2022, 2, 1), D(2022, 11, 3), D(2025)]])

    def evaluated(t):
        ca, cb = t.pick("changed dates", cal_sets), t.pick("reference dates", cal_sets)
        ka, kb = t.pick("changed model", kinds), t.pick("reference model", kinds)
        fr = t.pick("frequency", [Frequency.NONE, Frequency.YEAR], cost=1)
        ra, rb = model(ka, ca), model(kb, cb)
        if fr != Frequency.NONE:
            ra, rb = ra.resample(fr), rb.resample(fr)
        a, b = SimpleResultData.from_dto(ra), SimpleResultData.from_dto(rb)
        for r, s in ((ra, a), (rb, b)):
            t.check(len(s.components) == len(r.components), "components lost in the simple result")
            for c, d in zip(r.components, s.components):
                t.same(d.energy_usage, c.energy_usage.values, f"{c.name} energy")
                t.same(d.is_valid, [int(v) for v in c.is_valid.values], f"{c.name} validity")
                t.check(len(d.energy_usage) == len(s.periods), f"{c.name}: {len(d.energy_usage)} values for {len(s.periods)} periods")
                for n, e in c.emissions.items():
                    t.same(d.emissions[n].rate, e.rate.values, f"{c.name} {n}")
        d1 = check_delta(t, a, b)
        if d1 is not None:
            d2 = check_delta(t, b, a, "swapped: ")
            t.same({str(k): v[0] for k, v in key(d2).items()}, {str(k): v[0] for k, v in neg(key(d1)).items()}, "swapped comparison is the negative")
            t.outcome(len(d1.components))

    ck.explore("evaluated models", evaluated, bound=None)
