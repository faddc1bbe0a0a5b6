"""C04: rate / volume / unit algebra.  Every sequence of operations up to a depth bound is applied to small series of every shape
(unequal and sub-day periods, zero and partial regularity, both rate bases, all volume units); after every step the series is
compared with a reference list of (period, stream rate, calendar rate), and incompatible operands must be refused."""

import math
from datetime import datetime as DT

import numpy as np

from libecalc.common.time_utils import Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import (
    RateType,
    TimeSeriesBoolean,
    TimeSeriesCalendarDayRate,
    TimeSeriesFloat,
    TimeSeriesInt,
    TimeSeriesRate,
    TimeSeriesStreamDayRate,
    TimeSeriesString,
    TimeSeriesVolumes,
    TimeSeriesVolumesCumulative,
)

from mc.core import Prune

CALS = [
    [DT(2020, 1, 1), DT(2020, 1, 11), DT(2020, 3, 1), DT(2021, 1, 1)],
    [DT(2020, 2, 28), DT(2020, 2, 28, 12), DT(2020, 3, 1), DT(2020, 3, 2, 6)],
    [DT(2019, 12, 31), DT(2020, 1, 1)],
]
RATE_UNITS = {
    Unit.STANDARD_CUBIC_METER_PER_DAY: Unit.STANDARD_CUBIC_METER,
    Unit.MEGA_WATT: Unit.MEGA_WATT_DAYS,
    Unit.TONS_PER_DAY: Unit.TONS,
    Unit.KILO_PER_DAY: Unit.KILO,
    Unit.LITRES_PER_DAY: Unit.LITRES,
}
# dimension and size (in the dimension's base unit) of every convertible unit; temperatures have an offset
DIM = {
    Unit.KILO: ("mass", 1.0),
    Unit.TONS: ("mass", 1000.0),
    Unit.KILO_PER_DAY: ("massrate", 1.0),
    Unit.TONS_PER_DAY: ("massrate", 1000.0),
    Unit.KILO_PER_HOUR: ("massrate", 24.0),
    Unit.STANDARD_CUBIC_METER: ("volume", 1.0),
    Unit.LITRES: ("volume", 1e-3),
    Unit.BOE: ("volume", 1 / 6.29),
    Unit.STANDARD_CUBIC_METER_PER_DAY: ("volumerate", 1.0),
    Unit.LITRES_PER_DAY: ("volumerate", 1e-3),
    Unit.KG_BOE: ("kg/vol", 6.29),
    Unit.KG_SM3: ("kg/vol", 1.0),
    Unit.BARA: ("pressure", 1e5),
    Unit.KILO_PASCAL: ("pressure", 1e3),
    Unit.PASCAL: ("pressure", 1.0),
    Unit.CELSIUS: ("temp", None),
    Unit.KELVIN: ("temp", None),
    Unit.FRACTION: ("frac", 1.0),
    Unit.PERCENTAGE: ("frac", 0.01),
    Unit.POLYTROPIC_HEAD_JOULE_PER_KG: ("head", 1.0),
    Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG: ("head", 1000.0),
    Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN: ("head", 9.81),
    Unit.MEGA_WATT_DAYS: ("energy", 24e6),
    Unit.GIGA_WATT_HOURS: ("energy", 1e9),
    Unit.MEGA_WATT: ("power", 1.0),
    Unit.YEAR: ("time", 1.0),
    Unit.SPEED_RPM: ("speed", 1.0),
    Unit.ACTUAL_VOLUMETRIC_M3_PER_HOUR: ("actualrate", 1.0),
    Unit.KG_M3: ("density", 1.0),
    Unit.NONE: ("none", 1.0),
}
REQUIRED = [
    ("t/d", "kg/d"), ("kg/d", "t/d"), ("kg", "t"), ("t", "kg"), ("Sm3", "L"), ("L", "Sm3"), ("C", "K"), ("K", "C"), ("bara", "kPa"),
    ("kPa", "bara"), ("bara", "Pa"), ("Pa", "bara"), ("%", "frac"), ("frac", "%"), ("J/kg", "kJ/kg"), ("kJ/kg", "J/kg"),
    ("N.m/kg", "J/kg"), ("N.m/kg", "kJ/kg"), ("J/kg", "N.m/kg"), ("kJ/kg", "N.m/kg"), ("kg/BOE", "kg/Sm3"), ("kg/Sm3", "kg/BOE"),
    ("Sm3", "BOE"), ("BOE", "Sm3"), ("MWd", "GWh"),
]  # fmt: skip


def periods_of(cal):
    return Periods([Period(a, b) for a, b in zip(cal[:-1], cal[1:])])


def days(p):
    return (p[1] - p[0]).total_seconds() / 86400


class Ref:
    """reference series: rows (start, end, value, regularity)"""

    def __init__(self, rows, unit, rt):
        self.rows, self.unit, self.rt = rows, unit, rt

    def cal(self):
        return [v * r if self.rt == "S" else v for _, _, v, r in self.rows]

    def stream(self):
        return [v if self.rt == "S" else (v / r if r else 0.0) for _, _, v, r in self.rows]

    def volumes(self):
        return [c * days(row) for c, row in zip(self.cal(), self.rows)]

    def impl(self):
        return TimeSeriesRate(
            periods=Periods([Period(a, b) for a, b, _, _ in self.rows]),
            values=[v for *_, v, _ in self.rows],
            regularity=[r for *_, r in self.rows],
            unit=self.unit,
            rate_type=RateType.STREAM_DAY if self.rt == "S" else RateType.CALENDAR_DAY,
        )


def compare(t, s, ref, what):
    t.step()
    t.same([(p.start, p.end) for p in s.periods], [(a, b) for a, b, _, _ in ref.rows], f"{what}: periods")
    t.same(s.values, [v for *_, v, _ in ref.rows], f"{what}: values")
    t.same(s.regularity, [r for *_, r in ref.rows], f"{what}: regularity")
    t.check(s.unit == ref.unit, f"{what}: unit {s.unit} expected {ref.unit}")
    t.check((s.rate_type == RateType.STREAM_DAY) == (ref.rt == "S"), f"{what}: rate type")
    if ref.rows:
        t.same(s.to_calendar_day().values, ref.cal(), f"{what}: calendar day rate")
        t.same(s.to_stream_day().values, ref.stream(), f"{what}: stream day rate")
        vol = s.to_volumes()
        t.same(vol.values, ref.volumes(), f"{what}: volumes")
        t.check(vol.unit == RATE_UNITS[ref.unit], f"{what}: volume unit {vol.unit}")
        run, acc = [], 0.0
        for v in ref.volumes():
            acc += v
            run.append(acc)
        t.same(vol.cumulative().values, run, f"{what}: cumulative")
        t.same(vol.cumulative().to_volumes().values, ref.volumes(), f"{what}: cumulative to volumes")
    t.state(what, tuple(ref.rows), ref.unit, ref.rt)


OPS = ["cal", "stream", "unit", "slice", "int", "list", "period", "split-merge", "split-merge-rev", "split-extend", "split-extend-rev",
       "add", "add-other-reg", "via volumes", "via stream series", "copy"]  # fmt: skip
CONVERT = {Unit.TONS_PER_DAY: Unit.KILO_PER_DAY, Unit.KILO_PER_DAY: Unit.TONS_PER_DAY}
FACT = {Unit.TONS_PER_DAY: 1000.0, Unit.KILO_PER_DAY: 1 / 1000.0}


def apply(t, op, s, ref, tag):
    rows, n = ref.rows, len(ref.rows)
    if op == "cal":
        s2 = s.to_calendar_day()
        return s2, Ref([(a, b, c, r) for (a, b, _, r), c in zip(rows, ref.cal())], ref.unit, "C")
    if op == "stream":
        s2 = s.to_stream_day()
        return s2, Ref([(a, b, c, r) for (a, b, _, r), c in zip(rows, ref.stream())], ref.unit, "S")
    if op == "unit":
        if ref.unit not in CONVERT:
            raise Prune()
        return s.to_unit(CONVERT[ref.unit]), Ref([(a, b, v * FACT[ref.unit], r) for a, b, v, r in rows], CONVERT[ref.unit], ref.rt)
    if op == "slice":
        if n < 2:
            raise Prune()
        lo, hi = t.pick(f"{tag}.slice", [(0, n - 1), (1, n)])
        return s[lo:hi], Ref(rows[lo:hi], ref.unit, ref.rt)
    if op == "int":
        i = t.pick(f"{tag}.int", range(n))
        return s[i], Ref([rows[i]], ref.unit, ref.rt)
    if op == "list":
        if n < 2:
            raise Prune()
        return s[[0, 1]], Ref(rows[:2], ref.unit, ref.rt)
    if op == "period":
        spans = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        i, j = t.pick(f"{tag}.period", spans)
        return s.for_period(Period(rows[i][0], rows[j - 1][1])), Ref(rows[i:j], ref.unit, ref.rt)
    if op.startswith("split"):
        if n < 2:
            raise Prune()
        k = t.pick(f"{tag}.split", range(1, n))
        a, b = s[:k], s[k:]
        first, second = (b, a) if op.endswith("rev") else (a, b)
        return (first.merge(second) if "merge" in op else first.extend(second)), ref
    if op == "add":
        other = Ref([(a, b, v, r) for (a, b, _, r), v in zip(rows, [3.0, 0.0, 8.0])], ref.unit, ref.rt)
        s2 = s + other.impl()
        return s2, Ref([(a, b, v + w[2], r) for (a, b, v, r), w in zip(rows, other.rows)], ref.unit, ref.rt)
    if op == "add-other-reg":
        own = [r[3] for r in rows]
        regs = t.pick(f"{tag}.regularity", [[0.25, 1.0, 0.75][:n], own[1:] + own[:1], own[:-1] + [0.9]])
        other = Ref([(a, b, v, r) for (a, b, _, _), v, r in zip(rows, [3.0, 0.0, 8.0], regs)], ref.unit, ref.rt)
        if [r[3] for r in rows] == [r[3] for r in other.rows]:
            raise Prune()
        s2 = s + other.impl()
        t.same(s2.to_volumes().values, [x + y for x, y in zip(ref.volumes(), other.volumes())], f"{tag}: volumes of the sum")
        t.same(s2.to_calendar_day().values, [x + y for x, y in zip(ref.cal(), other.cal())], f"{tag}: calendar rates of the sum")
        lost = [r == 0 and v != 0 for *_, v, r in rows]
        if ref.rt == "S" or not any(lost):
            t.same(s2.to_stream_day().values, [x + y for x, y in zip(ref.stream(), other.stream())], f"{tag}: stream rates of the sum")
        new = []
        for (a, b, v, r), w, c, st in zip(rows, other.rows, [x + y for x, y in zip(ref.cal(), other.cal())], [x + y for x, y in zip(ref.stream(), other.stream())]):
            new.append((a, b, v + w[2], c / st if st else 0.0))
        out = Ref(new, ref.unit, ref.rt)
        # only observable when something is flowing: any regularity is consistent with a zero rate
        regs = [g if st == 0 else x[3] for g, x, st in zip(s2.regularity, new, out.stream())]
        return s2, Ref([(a, b, v, g) for (a, b, v, _), g in zip(new, regs)], ref.unit, ref.rt)
    if op == "via volumes":
        regs = [r for *_, r in rows]
        return s.to_volumes().to_rate(regularity=regs), Ref([(a, b, c, r) for (a, b, _, r), c in zip(rows, ref.cal())], ref.unit, "C")
    if op == "via stream series":
        st = s.to_stream_day_timeseries()
        regs = TimeSeriesFloat(periods=s.periods, values=[r for *_, r in rows], unit=Unit.NONE)
        back = TimeSeriesRate.from_timeseries_stream_day_rate(st, regs)
        return back, Ref([(a, b, c, r) for (a, b, _, r), c in zip(rows, ref.stream())], ref.unit, "S")
    if op == "copy":
        filled = s.fill_values_for_new_periods if False else s.to_unit(ref.unit)
        return filled, ref
    raise AssertionError(op)


def run(ck):
    depth = ck.q(2, 3)
    ck.bounds.update(operation_depth=depth, calendars=len(CALS), regularities=[1, 0.5, 0], rate_bases=2, operations=len(OPS))
    ck.assumptions += ["float comparison tolerance 1e-9 relative", "1 Sm3 = 6.29 BOE and g = 9.81 as documented"]

    def ops(t):
        cal = t.pick("calendar", CALS)
        unit = t.pick("unit", [Unit.TONS_PER_DAY, Unit.MEGA_WATT])
        rt = t.pick("basis", ["S", "C"])
        n = len(cal) - 1
        vals = t.pick("values", [[10.0, 7.0, 2.5], [0.0, 4.0, 0.0]])[:n]
        regs = t.pick("regularity", [[1.0, 1.0, 1.0], [0.5, 1.0, 0.8], [1.0, 0.0, 0.5]])[:n]
        ref = Ref(list(zip(cal[:-1], cal[1:], vals, regs)), unit, rt)
        s = ref.impl()
        compare(t, s, ref, "start")
        for i in range(depth):
            op = t.pick(f"op{i}", OPS)
            before = s.model_copy(deep=True)
            s2, ref2 = apply(t, op, s, ref, f"op{i}")
            t.same(s.values, before.values, f"{op} changed its operand")
            t.same(s.regularity, before.regularity, f"{op} changed its operand's regularity")
            compare(t, s2, ref2, op)
            s, ref = s2, ref2
        t.outcome((len(ref.rows), ref.rt, str(ref.unit)))

    ck.explore("operation sequences", ops)

    def refusals(t):
        """incompatible operands are refused, compatible ones accepted"""
        cal = CALS[0]
        regs = [0.5, 1.0, 0.8]
        kind = t.pick("operation", ["add", "merge", "extend"])
        u1, u2 = t.pick("units", [(Unit.TONS_PER_DAY, Unit.TONS_PER_DAY), (Unit.TONS_PER_DAY, Unit.KILO_PER_DAY), (Unit.MEGA_WATT, Unit.TONS_PER_DAY)])
        b1, b2 = t.pick("bases", [("S", "S"), ("S", "C"), ("C", "S"), ("C", "C")])
        if kind == "add":
            sp1 = sp2 = (0, 3)
        else:
            sp1 = t.pick("first", [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)])
            sp2 = t.pick("second", [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)])
        mk = lambda sp, u, b, vs: Ref([(cal[i], cal[i + 1], vs[i], regs[i]) for i in range(*sp)], u, b)  # noqa: E731
        r1, r2 = mk(sp1, u1, b1, [1.0, 2.0, 3.0]), mk(sp2, u2, b2, [4.0, 5.0, 6.0])
        a, b = r1.impl(), r2.impl()
        ok = u1 == u2 and b1 == b2 and (kind == "add" or sp1[1] == sp2[0] or sp2[1] == sp1[0])
        fn = {"add": lambda: a + b, "merge": lambda: a.merge(b), "extend": lambda: a.extend(b)}[kind]
        t.step()
        if not ok:
            t.raises(fn, f"{kind} of incompatible series")
            t.outcome("refused")
            return
        s = fn()
        if kind == "add":
            t.same(s.values, [5.0, 7.0, 9.0], "sum")
        else:
            rows = r1.rows + r2.rows if sp1[1] == sp2[0] else r2.rows + r1.rows
            compare(t, s, Ref(rows, u1, b1), kind)
        t.outcome("accepted")

    ck.explore("incompatible operands", refusals)

    def plain(t):
        """the other series classes: slicing, joining, filling and refusal"""
        cls, unit, vals, fill = t.pick(
            "class",
            [
                (TimeSeriesFloat, Unit.BARA, [1.0, 2.5, 0.0], 9.0),
                (TimeSeriesStreamDayRate, Unit.TONS_PER_DAY, [1.0, 2.5, 0.0], 9.0),
                (TimeSeriesCalendarDayRate, Unit.TONS_PER_DAY, [1.0, 2.5, 0.0], 9.0),
                (TimeSeriesVolumes, Unit.TONS, [1.0, 2.5, 0.0], 9.0),
                (TimeSeriesVolumesCumulative, Unit.TONS, [1.0, 2.5, 3.0], 9.0),
                (TimeSeriesInt, Unit.NONE, [1, 2, 3], 0),
                (TimeSeriesBoolean, Unit.NONE, [True, False, True], False),
                (TimeSeriesString, Unit.NONE, ["a", "b", "c"], "z"),
            ],
        )
        cal = CALS[t.pick("calendar", [0, 1])]
        s = cls(periods=periods_of(cal), values=vals, unit=unit)
        rows = list(zip(cal[:-1], cal[1:], vals))

        def cmp(x, rows, what):
            t.step()
            t.check(isinstance(x, cls), f"{what}: type {type(x)}")
            t.check([(p.start, p.end) for p in x.periods] == [r[:2] for r in rows], f"{what}: periods {x.periods}")
            t.same(x.values, [r[2] for r in rows], f"{what}: values")
            t.check(x.unit == unit, f"{what}: unit")

        op = t.pick("op", ["index", "period", "join", "fill", "dates"])
        if op == "index":
            i, j = t.pick("span", [(0, 1), (0, 2), (1, 3), (2, 3), (0, 3)])
            cmp(s[i:j], rows[i:j], "slice")
            cmp(s[i], [rows[i]], "index")
            cmp(s[list(range(i, j))], rows[i:j], "list")
        elif op == "period":
            i, j = t.pick("span", [(0, 1), (0, 2), (1, 3), (2, 3), (0, 3)])
            cmp(s.for_period(Period(cal[i], cal[j])), rows[i:j], "for_period")
            cmp(s.for_periods(periods_of(cal[i : j + 1])), rows[i:j], "for_periods")
            off = cal[i] + (cal[i + 1] - cal[i]) / 2
            t.raises(lambda: s.for_period(Period(off, cal[j])), "for_period off the time vector")
        elif op == "join":
            sp1 = t.pick("first", [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)])
            sp2 = t.pick("second", [(0, 1), (1, 2), (2, 3), (0, 2), (1, 3)])
            same_unit = t.pick("same unit", [True, False])
            other = s[sp2[0] : sp2[1]]
            if not same_unit:
                other = other.model_copy(update={"unit": Unit.KELVIN})
            ok = same_unit and (sp1[1] == sp2[0] or sp2[1] == sp1[0])
            for how in ("merge", "extend"):
                fn = lambda: getattr(s[sp1[0] : sp1[1]], how)(other)  # noqa: E731, B023
                if ok:
                    exp = rows[sp1[0] : sp1[1]] + rows[sp2[0] : sp2[1]] if sp1[1] == sp2[0] else rows[sp2[0] : sp2[1]] + rows[sp1[0] : sp1[1]]
                    cmp(fn(), exp, how)
                else:
                    t.raises(fn, how)
        elif op == "fill":
            i, j = t.pick("span", [(0, 1), (0, 2), (1, 3), (2, 3), (0, 3), (1, 2)])
            f = s[i:j].fill_values_for_new_periods(new_periods=periods_of(cal), fillna=fill)
            t.same(f.values, [v if i <= k < j else fill for k, v in enumerate(vals)], "fill")
            t.raises(lambda: s.fill_values_for_new_periods(new_periods=periods_of(cal)[:2], fillna=fill), "fill dropping periods")
        else:
            t.check(s.all_dates == cal and s.start_dates == cal[:-1] and s.end_dates == cal[1:], "dates")
            t.check(s.first_date == cal[0] and s.last_date == cal[-1] and len(s) == 3, "dates")
            t.raises(lambda: cls(periods=periods_of(cal), values=vals[:2], unit=unit), "too few values")
            t.raises(lambda: cls(periods=periods_of(cal[:3]), values=vals, unit=unit), "too many values")
        t.outcome((cls.__name__, op))

    ck.explore("other series classes", plain)

    def unit_pairs(t):
        u = t.pick("from", list(Unit))
        v = t.pick("to", list(Unit))
        t.step()
        if u not in DIM or v not in DIM:
            raise Prune()
        x = 7.5
        try:
            f = u.to(v)
        except NotImplementedError:
            t.check((u.value, v.value) not in REQUIRED and u != v, f"conversion {u} to {v} is not available")
            t.outcome("unavailable")
            return
        t.check(DIM[u][0] == DIM[v][0], f"conversion between different dimensions {u} {v} accepted")
        if DIM[u][0] == "temp":
            exp = lambda a: a if u == v else (a + 273.15 if u == Unit.CELSIUS else a - 273.15)  # noqa: E731
        else:
            exp = lambda a: a * DIM[u][1] / DIM[v][1]  # noqa: E731
        for val in (0.0, x, -3.25, 1e7):
            t.same(f(val), exp(val), f"{u} to {v} of {val}")
        t.same(f([x, 0.0]), [exp(x), exp(0.0)], f"{u} to {v} of a list")
        t.same(f(np.asarray([x, 0.0])).tolist(), [exp(x), exp(0.0)], f"{u} to {v} of an array")
        t.state(u, v)
        t.outcome("converted")

    ck.explore("unit pairs", unit_pairs)

    def unit_volumes(t):
        u = t.pick("unit", list(Unit))
        t.step()
        if u in RATE_UNITS:
            t.check(u.rate_to_volume() == RATE_UNITS[u], f"{u}.rate_to_volume {u.rate_to_volume()}")
            t.check(RATE_UNITS[u].volume_to_rate() == u, f"volume_to_rate of {RATE_UNITS[u]}")
        elif u not in RATE_UNITS.values():
            t.raises(u.rate_to_volume, f"{u}.rate_to_volume")
            t.raises(u.volume_to_rate, f"{u}.volume_to_rate")
        t.outcome(u in RATE_UNITS)

    ck.explore("rate and volume units", unit_volumes)

    def volumes(t):
        """volumes and cumulatives with missing values, and rates from volumes"""
        cal = t.pick("calendar", CALS[:2])
        nan = math.nan
        vals = [t.pick(f"v{i}", [4.0, 0.0, nan]) for i in range(3)]
        unit = t.pick("unit", list(RATE_UNITS.values()))
        v = TimeSeriesVolumes(periods=periods_of(cal), values=vals, unit=unit)
        acc, out = 0.0, []
        for x in vals:
            acc += 0.0 if math.isnan(x) else x
            out.append(acc)
        t.step()
        t.same(v.cumulative().values, out, "cumulative ignores missing volumes")
        r = v.to_rate(regularity=[0.5, 1.0, 0.8])
        t.same(r.values, [x / days(p) for x, p in zip(vals, zip(cal[:-1], cal[1:]))], "rate from volume")
        t.check(r.rate_type == RateType.CALENDAR_DAY and RATE_UNITS[r.unit] == unit, "rate from volume: basis and unit")
        t.same(r.to_volumes().values, vals, "volume from rate from volume")
        if unit == Unit.KILO:
            for den_unit, q in ((Unit.STANDARD_CUBIC_METER, Unit.KG_SM3), (Unit.BOE, Unit.KG_BOE)):
                den = [t.pick(f"d{den_unit}{i}", [2.0, 0.0]) for i in range(2)] + [5.0]
                d = TimeSeriesVolumes(periods=periods_of(cal), values=den, unit=den_unit)
                w = v / d
                t.same(w.values, [nan if b == 0 else a / b for a, b in zip(vals, den)], "volume ratio")
                t.check(w.unit == q, "ratio unit")
        t.outcome(tuple(vals))

    ck.explore("volumes", volumes)
