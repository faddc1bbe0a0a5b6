"""C05: reporting frequency.  All small calendars (boundaries on, just beside and inside months/years, leap day, times of day) x
values x regularity x basis x frequency x include flags are resampled by the real code and compared with an exact overlap integral;
whole evaluated models are resampled and every attribute of every result is compared the same way."""

import itertools
import math
from datetime import datetime as DT
from datetime import timedelta

from libecalc.common.time_utils import Frequency, Period, Periods, resample_periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import (
    RateType,
    TimeSeries,
    TimeSeriesBoolean,
    TimeSeriesFloat,
    TimeSeriesInt,
    TimeSeriesRate,
    TimeSeriesString,
    TimeSeriesVolumes,
    TimeSeriesVolumesCumulative,
)

from mc.core import Prune
from mc.e2e import D, GENSET_CSV, csv, direct_fuel, direct_load, fuel, result

FREQS = [Frequency.YEAR, Frequency.MONTH, Frequency.DAY]
DATES = [
    DT(2019, 11, 15),
    DT(2019, 12, 31),
    DT(2020, 1, 1),
    DT(2020, 1, 2),
    DT(2020, 1, 31, 12),
    DT(2020, 2, 1),
    DT(2020, 2, 29),
    DT(2020, 3, 1),
    DT(2020, 12, 31, 18),
    DT(2021, 1, 1),
    DT(2021, 2, 10),
]


def ticks(freq, start, end):
    """all period boundaries of the frequency strictly between start and end"""
    d = DT(start.year, start.month, start.day)
    out = []
    while d < end:
        if d > start and (freq == Frequency.DAY or (d.day == 1 and (freq == Frequency.MONTH or d.month == 1))):
            out.append(d)
        d += timedelta(days=1)
    return out


def new_cal(cal, freq, inc_start=True, inc_end=True):
    mid = ticks(freq, cal[0], cal[-1])
    return ([cal[0]] if inc_start else []) + mid + ([cal[-1]] if inc_end else [])


def days(a, b):
    return (b - a).total_seconds() / 86400


def volume(rows, a, b):
    """integral of the daily rate over [a, b)"""
    s = 0.0
    for x, y, v in rows:
        lo, hi = max(a, x), min(b, y)
        if hi > lo and not math.isnan(v):
            s += v * days(lo, hi)
    return s


def at(rows, d):
    for x, y, v in rows:
        if x <= d < y:
            return v
    raise AssertionError


def pers(cal):
    return Periods([Period(a, b) for a, b in zip(cal[:-1], cal[1:])])


def check_series(t, s, n, nc, what):
    """s: original series, n: resampled series, nc: expected new calendar"""
    t.step()
    exp = list(zip(nc[:-1], nc[1:]))
    t.check([(p.start, p.end) for p in n.periods] == exp, lambda: f"{what}: reported periods {[str(p) for p in n.periods]}, expected {exp}")
    t.check(n.unit == s.unit, f"{what}: unit changed to {n.unit}")
    old = [(p.start, p.end) for p in s.periods]
    if isinstance(s, TimeSeriesRate):
        t.check(n.rate_type == s.rate_type, f"{what}: rate basis changed")
        S = s.rate_type == RateType.STREAM_DAY
        cal = [v * r if S else v for v, r in zip(s.values, s.regularity)]
        st = [v if S else (v / r if r else 0.0) for v, r in zip(s.values, s.regularity)]
        rows = [(*p, c) for p, c in zip(old, cal)]
        srows = [(*p, c) for p, c in zip(old, st)]
        cvol = [volume(rows, a, b) for a, b in exp]
        svol = [volume(srows, a, b) for a, b in exp]
        t.same(n.to_volumes().values, cvol, f"{what}: volumes", rel=1e-8, abs_=1e-7)
        reg = [c / v if v else 0.0 for c, v in zip(cvol, svol)]
        t.same(n.regularity, reg, f"{what}: regularity", rel=1e-7, abs_=1e-7)
        if not S:
            t.same(n.values, [c / days(*p) for c, p in zip(cvol, exp)], f"{what}: average calendar day rate", rel=1e-8, abs_=1e-7)
        else:
            t.same(n.values, [v / days(*p) if c else 0.0 for c, v, p in zip(cvol, svol, exp)], f"{what}: average stream day rate", rel=1e-7, abs_=1e-7)
    elif isinstance(s, TimeSeriesVolumes):
        rows = [(*p, v / days(*p)) for p, v in zip(old, s.values)]
        t.same(n.values, [volume(rows, a, b) for a, b in exp], f"{what}: volumes", rel=1e-8, abs_=1e-7)
    elif isinstance(s, TimeSeriesVolumesCumulative):
        diffs = [v - u for u, v in zip([0.0, *s.values[:-1]], s.values)]
        rows = [(*p, v / days(*p)) for p, v in zip(old, diffs)]
        t.same(n.values, [volume(rows, nc[0], b) for a, b in exp], f"{what}: cumulative", rel=1e-8, abs_=1e-7)
    elif isinstance(s, TimeSeriesBoolean):
        want = [all(v for (x, y), v in zip(old, s.values) if x < b and y > a) for a, b in exp]
        t.same(n.values, want, f"{what}: flag")
    else:
        rows = [(*p, v) for p, v in zip(old, s.values)]
        t.same(n.values, [at(rows, a) for a, _ in exp], f"{what}: value in force")
    t.state(what, tuple(map(str, old)), tuple(map(str, n.values)))


def run(ck):
    ck.assumptions += ["rates are constant within a period (documented)", "float tolerance 1e-7"]
    max_p = ck.q(3, 4)
    ck.bounds.update(dates=len(DATES), max_periods=max_p)

    def calendar(t, kmax):
        k = t.pick("periods", range(1, kmax + 1))
        return t.pick("calendar", [list(c) for c in itertools.combinations(DATES, k + 1)])

    def rates(t):
        cal = calendar(t, 2 if ck.quick else 3)
        n = len(cal) - 1
        vals = t.pick("values", [[10.0, 4.0, 7.0], [0.0, 6.0, 0.0], [5.0, 0.0, 3.0]])[:n]
        regs = t.pick("regularity", [[1.0, 1.0, 1.0], [0.5, 0.8, 1.0], [1.0, 0.0, 0.25]])[:n]
        rt = t.pick("basis", [RateType.STREAM_DAY, RateType.CALENDAR_DAY])
        freq = t.pick("frequency", FREQS)
        s = TimeSeriesRate(periods=pers(cal), values=vals, regularity=regs, unit=Unit.TONS_PER_DAY, rate_type=rt)
        r = s.resample(freq)
        check_series(t, s, r, new_cal(cal, freq), "rate")
        t.same(sum(r.to_volumes().values), sum(s.to_volumes().values), "total volume", rel=1e-8, abs_=1e-7)
        t.same(s.values, vals, "operand changed")
        t.outcome((str(freq), len(r.values) > n))

    ck.explore("rates", rates)

    def longer(t):
        cal = t.pick("calendar", [list(c) for c in itertools.combinations(DATES, max_p + 1)])
        n = len(cal) - 1
        s = TimeSeriesRate(periods=pers(cal), values=[10.0, 4.0, 0.0, 7.0][:n], regularity=[1.0, 0.5, 0.8, 0.0][:n], unit=Unit.TONS_PER_DAY, rate_type=RateType.STREAM_DAY)
        freq = t.pick("frequency", FREQS[:2])
        check_series(t, s, s.resample(freq), new_cal(cal, freq), "rate")
        t.outcome(str(freq))

    ck.explore("rates over more periods", longer)

    def others(t):
        cal = calendar(t, 3)
        n = len(cal) - 1
        freq = t.pick("frequency", FREQS[: 2 if n > 2 else 3])
        kind = t.pick("kind", ["volumes", "cumulative", "float", "float with gap", "int", "string", "bool"])
        if kind == "volumes":
            s = TimeSeriesVolumes(periods=pers(cal), values=[10.0, 0.0, 7.0][:n], unit=Unit.TONS)
        elif kind == "cumulative":
            s = TimeSeriesVolumesCumulative(periods=pers(cal), values=[10.0, 10.0, 17.0][:n], unit=Unit.TONS)
        elif kind == "float":
            s = TimeSeriesFloat(periods=pers(cal), values=[10.0, 3.0, 17.0][:n], unit=Unit.BARA)
        elif kind == "float with gap":
            s = TimeSeriesFloat(periods=pers(cal), values=[10.0, math.nan, 17.0][:n], unit=Unit.BARA)
        elif kind == "int":
            s = TimeSeriesInt(periods=pers(cal), values=[1, 2, 3][:n], unit=Unit.NONE)
        elif kind == "string":
            s = TimeSeriesString(periods=pers(cal), values=["a", "b", "c"][:n], unit=Unit.NONE)
        else:
            s = TimeSeriesBoolean(periods=pers(cal), values=t.pick("flags", [list(f) for f in itertools.product([True, False], repeat=n)]), unit=Unit.NONE)
        check_series(t, s, s.resample(freq), new_cal(cal, freq), kind)
        t.outcome((kind, str(freq)))

    ck.explore("other series", others)

    def flags(t):
        """start/end inclusion: the reported span shrinks to whole periods of the frequency, never more"""
        cal = calendar(t, 2)
        freq = t.pick("frequency", FREQS)
        inc_s, inc_e = t.pick("include", [(True, True), (False, True), (True, False), (False, False)])
        nc = new_cal(cal, freq, inc_s, inc_e)
        got = resample_periods(pers(cal), freq, include_start_date=inc_s, include_end_date=inc_e)
        exp = list(zip(nc[:-1], nc[1:]))
        t.step()
        t.check([(p.start, p.end) for p in got] == exp, lambda: f"periods {got}, expected {exp}")
        if not exp:
            raise Prune()
        n = len(cal) - 1
        v = TimeSeriesVolumes(periods=pers(cal), values=[10.0, 4.0][:n], unit=Unit.TONS)
        check_series(t, v, v.resample(freq, inc_s, inc_e), nc, "volumes")
        s = TimeSeriesRate(periods=pers(cal), values=[10.0, 4.0][:n], regularity=[0.5, 1.0][:n], unit=Unit.TONS_PER_DAY, rate_type=RateType.STREAM_DAY)
        check_series(t, s, s.resample(freq, inc_s, inc_e), nc, "rate")
        b = TimeSeriesBoolean(periods=pers(cal), values=[True, False][:n], unit=Unit.NONE)
        check_series(t, b, b.resample(freq, inc_s, inc_e), nc, "flag")
        t.outcome((inc_s, inc_e))

    ck.explore("include flags", flags)

    def unchanged(t):
        cal = calendar(t, 2)
        n = len(cal) - 1
        s = TimeSeriesRate(periods=pers(cal), values=[10.0, 4.0][:n], regularity=[0.5, 1.0][:n], unit=Unit.TONS_PER_DAY, rate_type=RateType.STREAM_DAY)
        r = s.resample(Frequency.NONE)
        t.step()
        t.check(r == s, "no frequency changes nothing")
        t.outcome("none")

    ck.explore("no resampling", unchanged)

    def walk(t, a, b, cal, nc, what):
        """a: original result object, b: resampled"""
        exp = list(zip(nc[:-1], nc[1:]))
        t.check([(p.start, p.end) for p in b.periods] == exp, lambda: f"{what}: periods {b.periods}, expected {exp}")
        for name, v in a.__dict__.items():
            w = getattr(b, name)
            if isinstance(v, TimeSeries):
                if "intensity" in name:
                    continue
                check_series(t, v, w, nc, f"{what}.{name}")
            elif isinstance(v, dict) and v and all(hasattr(x, "periods") and hasattr(x, "name") for x in v.values()):
                t.check(set(v) == set(w), f"{what}.{name}: keys")
                for k in v:
                    walk(t, v[k], w[k], cal, nc, f"{what}.{name}[{k}]")

    def models(t):
        cal = t.pick("dates", [[D(2020, 1, 15), D(2020, 2, 10), D(2020, 2, 20), D(2021, 3, 1)], [D(2020, 1, 1), D(2020, 12, 31), D(2021, 1, 1), D(2021, 1, 16)], [D(2020, 2, 1), D(2020, 3, 1), D(2020, 3, 2), D(2020, 4, 1)]])
        reg = t.pick("regularity", [1, "S;R", 0.5])
        load = t.pick("load", [[5, 12, 8], [5, 25, 0], [0, 0, 15]])
        freq = t.pick("frequency", FREQS if (cal[-1] - cal[0]).days < 100 else FREQS[:2])
        rows = [[d.strftime("%Y-%m-%d"), x, y, r] for d, x, y, r in zip(cal[:-1], load, [3, 0, 9], [1, 0.5, 0.25])]
        doc = {
            "START": cal[0],
            "END": cal[-1],
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": "gs", "TYPE": "ELECTRICITY2FUEL", "FILE": "gs.csv"}],
            "FUEL_TYPES": [fuel()],
            "INSTALLATIONS": [
                {
                    "NAME": "i",
                    "FUEL": "gas",
                    "REGULARITY": reg,
                    "HCEXPORT": "S;Y",
                    "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "gs", "CONSUMERS": [direct_load("l", "S;X")]}],
                    "FUELCONSUMERS": [direct_fuel("f", "S;Y", rate_type=t.pick("basis", ["STREAM_DAY", "CALENDAR_DAY"]))],
                }
            ],
        }
        r = result(doc, {"s.csv": csv(["DATE", "X", "Y", "R"], rows)}, {"gs.csv": GENSET_CSV})
        n = r.resample(freq)
        nc = new_cal(cal, freq)
        comps = {c.name: c for c in [n.component_result, *n.sub_components]}
        orig = [r.component_result, *r.sub_components]
        t.check(set(comps) == {c.name for c in orig} and len(comps) == len(orig), "components lost or duplicated by resampling")
        for c in orig:
            walk(t, c, comps[c.name], cal, nc, c.name)
        t.check([m.name for m in n.models] == [m.name for m in r.models], "models")
        for a, b in zip(r.models, n.models):
            walk(t, a, b, cal, nc, f"model {a.name}")
        t.outcome((str(freq), tuple(comps["g"].is_valid.values[:2])))

    ck.explore("models", models)
