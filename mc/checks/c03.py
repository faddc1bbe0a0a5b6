"""C03: period partition and the definition in force.  Every kind of dated definition is placed on every subset of a small
calendar (before/at/inside/at end/after the run); the reported values are compared with a reference lookup."""

import itertools
from datetime import datetime

from libecalc.common.temporal_model import TemporalModel
from libecalc.common.time_utils import Period, Periods, define_time_model_for_period
from libecalc.common.variables import VariablesMap
from libecalc.expression.expression import Expression
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

from mc.core import Prune
from mc.e2e import D, csv, fuel, interp, result

S, E = D(2020, 1, 1), D(2023, 1, 1)
CAL = [D(2019, 1, 1), S, D(2020, 7, 1), D(2022, 1, 1), E, D(2024, 1, 1)]


def subsets(xs, lo, hi):
    return [list(c) for n in range(lo, hi + 1) for c in itertools.combinations(xs, n)]


def in_force(dates, defs, when):
    cur = None
    for d, v in zip(dates, defs):
        if d <= when:
            cur = v
    return cur


K = [(D(2018), 1.0), (D(2020, 3, 1), 0.5), (D(2020, 7, 1), 0.75), (D(2021, 6, 1), 0.25), (D(2022, 1, 1), 0.9)]
CURVES = {"gs1": ([0, 10, 20], [0, 100, 150]), "gs2": ([0, 10, 20], [0, 50, 400]), "gs3": ([0, 20], [0, 20])}
FUELS = {"gas": {"co2": 2.0}, "diesel": {"co2": 5.0, "nox": 1.0}, "oil": {"nox": 3.0}}
DEFS = {
    "fuel": ["gas", "diesel", "oil"],
    "genset fuel": ["diesel", "gas", "oil"],
    "consumer fuel": ["oil", "diesel", "gas"],
    "curve": ["gs1", "gs2", "gs3"],
    "regularity": [0.5, 0.8, 0.25],
    "export": [100, 7, 30],
    "load": [5.0, 12.0, 2.0],
    "flare": [10.0, 3.0, 8.0],
    "variable": [1.0, 6.0, 4.0],
    "vent": [1.0, 1.0, 1.0],
}
KINDS = ["fuel", "genset fuel", "consumer fuel", "curve", "regularity", "export", "load", "flare", "variable"]


def run(ck):
    FUELS[None] = {}

    def build(dated, start, series_dates, vary=False):
        """dated: kind -> list of dates; vary: every number is that number times a time series"""

        def num(v):
            return f"K;K {{*}} {v}" if vary else v

        def val(kind, conv=lambda v: v):
            conv0 = conv
            conv = (lambda v: conv0(num(v))) if not isinstance(DEFS[kind][0], str) else conv0
            if kind in dated:
                return {d: conv(v) for d, v in zip(dated[kind], DEFS[kind])}
            return conv(DEFS[kind][0])

        inst = {"NAME": "i", "FUEL": val("fuel"), "REGULARITY": val("regularity"), "HCEXPORT": val("export")}
        gen = {
            "NAME": "g",
            "CATEGORY": "TURBINE-GENERATOR",
            "ELECTRICITY2FUEL": val("curve"),
            "CONSUMERS": [{"NAME": "l", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": val("load", lambda v: {"TYPE": "DIRECT", "LOAD": v})}],
        }
        if "genset fuel" in dated:
            gen["FUEL"] = val("genset fuel")
        fl = {"NAME": "f", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": val("flare", lambda v: {"TYPE": "DIRECT", "FUELRATE": v})}
        if "consumer fuel" in dated:
            fl["FUEL"] = val("consumer fuel")
        fv = {"NAME": "v", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "$var.x"}}
        doc = {"END": E}
        if start:
            doc["START"] = start
        if series_dates:
            doc["TIME_SERIES"] = [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "s.csv"}]
        doc["VARIABLES"] = {"x": val("variable", lambda v: {"VALUE": v})}
        doc["FACILITY_INPUTS"] = [{"NAME": n, "TYPE": "ELECTRICITY2FUEL", "FILE": f"{n}.csv"} for n in CURVES]
        doc["FUEL_TYPES"] = [fuel(n, {e: num(x) for e, x in f.items()}) for n, f in FUELS.items() if n]
        inst["GENERATORSETS"] = [gen]
        inst["FUELCONSUMERS"] = [fl, fv]
        doc["INSTALLATIONS"] = [inst]
        ts = {"s.csv": csv(["DATE", "X"], [[d.strftime("%Y-%m-%d"), 1] for d in series_dates])} if series_dates else {}
        fac = {f"{n}.csv": csv(["POWER", "FUEL"], list(zip(*c))) for n, c in CURVES.items()}
        if vary:
            doc.setdefault("TIME_SERIES", []).append(
                {"NAME": "K", "TYPE": "MISCELLANEOUS", "FILE": "k.csv", "EXTRAPOLATION": True, "INTERPOLATION_TYPE": "RIGHT", "INFLUENCE_TIME_VECTOR": False}
            )
            ts["k.csv"] = csv(["DATE", "K"], [[d.strftime("%Y-%m-%d"), k] for d, k in K])
        return doc, ts, fac

    def expect(dated, start, series_dates, vary=False):
        first = start or min(series_dates)
        vec = sorted(d for d in {first, E, *series_dates, *itertools.chain(*dated.values())} if first <= d <= E)
        out = {"periods": list(zip(vec[:-1], vec[1:]))}

        def k(p):
            return [x for d, x in K if d <= p][-1] if vary else 1.0

        def at(kind, p):
            v = in_force(dated[kind], DEFS[kind], p) if kind in dated else DEFS[kind][0]
            return v * k(p) if isinstance(v, (int, float)) else v

        g, gp, f, v, hc, gem, fem, vem, valid = [], [], [], [], [], [], [], [], []
        for p in vec[:-1]:
            reg = at("regularity", p) or 0.0
            load = at("load", p) or 0.0
            curve = at("curve", p)
            gf = interp(load, *CURVES[curve]) if curve and load > 0 else 0.0
            gp.append(load)
            g.append(gf * reg)
            valid.append(curve is not None)
            fr = (at("flare", p) or 0.0) * reg
            f.append(fr)
            vr = (at("variable", p) or 0.0) * reg
            v.append(vr)
            hc.append(float(at("export", p) or 0.0))
            inst_fuel = at("fuel", p)
            gem.append({e: k(p) * c * gf * reg / 1000 for e, c in FUELS[at("genset fuel", p) if "genset fuel" in dated else inst_fuel].items()})
            fem.append({e: k(p) * c * fr / 1000 for e, c in FUELS[at("consumer fuel", p) if "consumer fuel" in dated else inst_fuel].items()})
            vem.append({e: k(p) * c * vr / 1000 for e, c in FUELS[inst_fuel].items()})
        out.update(g=g, gp=gp, f=f, v=v, hc=hc, gem=gem, fem=fem, vem=vem, valid=valid)
        return out

    def check(t, dated, start, series_dates, vary=False):
        first = start or min(series_dates)
        # without START the run is only known to begin at or after 1900; fuel has to be defined whenever its user is
        run_start = start or D(1900, 1, 1)

        def covered(fuel_kind, user_kind):
            fuel_from = dated[fuel_kind][0] if fuel_kind in dated else dated["fuel"][0] if "fuel" in dated else run_start
            user_from = max(run_start, dated[user_kind][0]) if user_kind in dated else run_start
            return fuel_from <= user_from or user_from >= E

        fuel_ok = covered("genset fuel", "curve") and covered("consumer fuel", "flare") and covered("fuel", "variable-none")
        # the load is the generator set's only consumer: it must exist for the set to have a meaning
        doc, ts, fac = build(dated, start, series_dates, vary)
        if not fuel_ok:
            t.raises(lambda: result(doc, ts, fac), "fuel not defined in the whole run", Exception)
            t.outcome("rejected")
            return
        if "load" in dated and dated["load"][0] >= E:
            raise Prune()
        if "curve" in dated and dated["curve"][0] >= E:
            raise Prune()
        r = result(doc, ts, fac)
        w = expect(dated, start, series_dates, vary)
        comps = {c.name: c for c in [r.component_result, *r.sub_components]}
        n = len(w["periods"])
        for c in comps.values():
            got = [(p.start, p.end) for p in c.energy_usage.periods]
            t.check(got == w["periods"], lambda: f"{c.name}: periods {got}, expected {w['periods']}")
        t.same(comps["g"].energy_usage.values, w["g"], "generator set fuel")
        t.same(comps["g"].power.values, w["gp"], "generator set power")
        t.same(comps["g"].is_valid.values, w["valid"], "generator set validity")
        if "flare" in dated and dated["flare"][0] >= E:
            t.check("f" not in comps or set(comps["f"].energy_usage.values) == {0.0}, "undefined consumer contributes")
        else:
            t.same(comps["f"].energy_usage.values, w["f"], "fuel consumer")
        t.same(comps["v"].energy_usage.values, w["v"], "consumer using dated variable")
        t.same(comps["i"].hydrocarbon_export_rate.values, w["hc"], "export")
        t.same(comps["i"].energy_usage.values, [a + b + c for a, b, c in zip(w["g"], w["f"], w["v"])], "installation fuel")
        for name, key in (("g", "gem"), ("f", "fem"), ("v", "vem")):
            if name not in comps:
                continue
            em = comps[name].emissions
            for e in ("co2", "nox"):
                want = [d.get(e, 0.0) for d in w[key]]
                got = em[e].rate.values if e in em else [0.0] * n
                t.same(got, want, f"{name} {e}")
        t.step(n)
        t.state(tuple(w["g"]), tuple(w["f"]), tuple(w["v"]), tuple(w["hc"]), n)
        t.outcome((n, len(set(w["g"])), len(set(w["f"]))))

    def single(t):
        kind = t.pick("dated definition", KINDS)
        dates = t.pick("dates", subsets(CAL, 1, 3))
        start, series = t.pick("run", [(S, []), (None, [D(2020, 3, 1), D(2021, 1, 1)]), (S, [D(2020, 7, 1), D(2022, 6, 1)])])
        check(t, {kind: dates}, start, series, t.flip("numbers vary in time"))

    ck.explore("one-dated-definition", single)

    pair_cal = CAL[1:5] if ck.quick else CAL

    def pairs(t):
        a, b = t.pick("kinds", list(itertools.combinations(KINDS, 2)))
        da = t.pick("dates a", subsets([D(2019, 1, 1), *pair_cal[1:]] if ck.quick else CAL, 2, 2))
        db = t.pick("dates b", subsets([S, *pair_cal[1:]], 2, 2))
        check(t, {a: da, b: db}, S, [], True)

    if ck.quick:
        pair_cal = CAL[1:4]
    ck.explore("two-dated-definitions", pairs)

    # definitions given in any order: same meaning or rejected, never a different meaning
    def unordered(t):
        kind = t.pick("kind", KINDS)
        dates = [D(2019, 1, 1), D(2020, 7, 1), D(2022, 1, 1)]
        perm = t.pick("order", list(itertools.permutations(range(3))))
        doc, ts, fac = build({kind: dates}, S, [])
        doc2 = _reorder(doc, dates, perm)
        a = result(doc, ts, fac)
        try:
            b = result(doc2, ts, fac)
        except Exception as e:
            t.check(perm != (0, 1, 2), f"rejected: {e}")
            t.outcome("rejected")
            return
        va = {c.name: (list(c.energy_usage.values), {k: list(v.rate.values) for k, v in (getattr(c, "emissions", None) or {}).items()}) for c in [a.component_result, *a.sub_components]}
        vb = {c.name: (list(c.energy_usage.values), {k: list(v.rate.values) for k, v in (getattr(c, "emissions", None) or {}).items()}) for c in [b.component_result, *b.sub_components]}
        t.check(a.component_result.energy_usage.periods == b.component_result.energy_usage.periods, "periods changed by order")
        t.same(list(b.component_result.hydrocarbon_export_rate.values), list(a.component_result.hydrocarbon_export_rate.values), "export changed by order of dated definitions")
        t.same(vb, va, "values changed by order of dated definitions")
        t.step()
        t.state(kind, perm)
        t.outcome("same")

    def _reorder(doc, dates, perm):
        def walk(o):
            if isinstance(o, dict):
                if o and all(isinstance(k, datetime) for k in o):
                    ks = list(o)
                    return {ks[i]: walk(o[ks[i]]) for i in perm}
                return {k: walk(v) for k, v in o.items()}
            if isinstance(o, list):
                return [walk(x) for x in o]
            return o

        return walk(doc)

    ck.explore("order-of-dated-definitions", unordered)

    # conditions: zero where false, untouched where true
    def conditions(t):
        n = 3
        flags = [[t.pick(f"flag{c}{i}", [1, 0]) for i in range(n)] for c in range(2)]
        form = t.pick("form", ["CONDITION", "CONDITIONS", "number", "numbers"])
        where = t.pick("consumer", ["fuel", "load"])
        dates = [D(2020, 1, 1), D(2020, 6, 1), D(2021, 1, 1)]
        m = {"TYPE": "DIRECT", ("FUELRATE" if where == "fuel" else "LOAD"): "SIM;X"}
        if form == "number":
            flags = [[flags[0][0]] * n, [1] * n]
            m["CONDITION"] = flags[0][0]
        elif form == "numbers":
            flags = [flags[0], [flags[1][0]] * n]
            m["CONDITIONS"] = ["SIM;A", flags[1][0]]
        else:
            m[form] = "SIM;A > 0" if form == "CONDITION" else ["SIM;A > 0", "SIM;B > 0"]
        xs = [3.0, 5.0, 7.0]
        ts = {"s.csv": csv(["DATE", "X", "A", "B"], [[d.strftime("%Y-%m-%d"), x, a, b] for d, x, a, b in zip(dates, xs, *flags)])}
        doc = {"START": S, "END": E, "TIME_SERIES": [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "s.csv"}], "FUEL_TYPES": [fuel()]}
        inst = {"NAME": "i", "FUEL": "gas"}
        if where == "fuel":
            inst["FUELCONSUMERS"] = [{"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": m}]
        else:
            doc["FACILITY_INPUTS"] = [{"NAME": "gs", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}]
            inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "gs", "CONSUMERS": [{"NAME": "c", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": m}]}]
        doc["INSTALLATIONS"] = [inst]
        r = result(doc, ts, {"g.csv": csv(["POWER", "FUEL"], [[0, 0], [10, 100]])})
        on = [a and (b or form == "CONDITION") for a, b in zip(*flags)]
        want = [x if o else 0.0 for x, o in zip(xs, on)]
        c = next(c for c in r.sub_components if c.name == "c")
        t.same(c.energy_usage.values, want, "consumption under condition")
        i = next(c for c in r.sub_components if c.name == "i")
        t.same(i.energy_usage.values, want if where == "fuel" else [10 * w for w in want], "installation fuel under condition")
        t.step(n)
        t.state(tuple(want), form, where)
        t.outcome(sum(map(bool, on)))

    ck.explore("conditions", conditions)

    # the period algebra itself
    cal = [D(2020, 1, d) for d in (1, 2, 3, 4, 5, 6)]

    def algebra(t):
        a = t.pick("a", list(itertools.combinations(cal, 2)))
        b = t.pick("b", list(itertools.combinations(cal, 2)))
        pa, pb = Period(*a), Period(*b)
        lo, hi = max(a[0], b[0]), min(a[1], b[1])
        t.check(Period.intersects(pa, pb) == (lo < hi), "intersects")
        t.check(Period.intersection(pa, pb) == (Period(lo, hi) if lo < hi else None), "intersection")
        t.check((pb in pa) == (a[0] <= b[0] and b[1] <= a[1]), "contains period")
        for d in cal:
            t.check((d in pa) == (a[0] <= d < a[1]), "contains date")
        dated = {Period(*a): "x"}
        got = define_time_model_for_period(dated, Period(*b))
        t.check(got == ({Period(lo, hi): "x"} if lo < hi else {}), "restriction of a dated model")
        got = define_time_model_for_period({a[0]: "x", a[1]: "y"}, Period(*b))
        want = {}
        for s, e, v in ((a[0], a[1], "x"), (a[1], datetime.max.replace(microsecond=0), "y")):
            l2, h2 = max(s, b[0]), min(e, b[1])
            if l2 < h2:
                want[Period(l2, h2)] = v
        t.check(got == want, lambda: f"restriction of dated definitions: {got} expected {want}")
        t.step(5)
        t.state(a, b)
        t.outcome(lo < hi)

    ck.explore("period-algebra", algebra)

    def partition(t):
        times = t.pick("times", subsets(cal, 1, 5))
        before, after = t.flip("before"), t.flip("after")
        ps = Periods.create_periods(times, include_before=before, include_after=after)
        want = list(zip(times[:-1], times[1:]))
        if before:
            want = [(datetime.min, times[0])] + want
        if after:
            want = want + [(times[-1], datetime.max.replace(microsecond=0))]
        t.check([(p.start, p.end) for p in ps] == want, "create_periods")
        if want:
            t.check(ps.all_dates == [w[0] for w in want] + [want[-1][1]], "all dates")
            t.check(ps.period == Period(want[0][0], want[-1][1]), "span")
            for x in itertools.combinations(cal, 2):
                p = Period(*x)
                inside = [w for w in want if x[0] <= w[0] and w[1] <= x[1]]
                hit = next((w for w in want if w[0] <= x[0] and x[1] <= w[1]), None)
                t.check(ps.get_period(p) == (Period(*hit) if hit else None), "get_period")
                if x[0] in [w[0] for w in want] and x[1] in [w[1] for w in want]:
                    t.check([(q.start, q.end) for q in p.get_periods(ps)] == inside, "get_periods")
                    i, j = p.get_period_indices(ps)
                    t.check(want[i:j] == inside, "get_period_indices")
        models = TemporalModel({d: i for i, d in enumerate(times)})
        for d in cal:
            idx = max((i for i, x in enumerate(times) if x <= d), default=None)
            if idx is None:
                t.raises(lambda: models.get_model(d), "no definition in force", ValueError)
            else:
                t.check(models.get_model(d) == idx, "definition in force")
        for perm in itertools.permutations(times):
            if list(perm) != sorted(perm):
                t.raises(lambda: TemporalModel({d: 0 for d in perm}), "unsorted dated model")
                break
        t.step(len(cal))
        t.state(tuple(times), before, after)
        t.outcome(len(want))

    ck.explore("period-partition", partition)

    def restriction(t):
        """variables restricted to a period: exactly the values of the covered periods, also when the period reaches outside the run"""
        inner = cal[1:5]
        vec = t.pick("run", subsets(inner, 2, 4))
        a, b = t.pick("period", list(itertools.combinations([datetime.min, *cal, datetime.max.replace(microsecond=0)], 2)))
        vals = [float(10 * k + 1) for k in range(len(vec) - 1)]
        vm = VariablesMap(periods=Periods.create_periods(vec, include_before=False, include_after=False), variables={"S;X": vals})
        rows = list(zip(vec[:-1], vec[1:], vals))
        lo, hi = max(a, vec[0]), min(b, vec[-1])
        if lo < hi and not (lo in vec and hi in vec):
            raise Prune()
        inside = [r for r in rows if a <= r[0] and r[1] <= b]
        t.step()
        e = Expression.setup_from_expression("S;X {*} 2")
        if lo < hi:
            sub = vm.get_subset_for_period(Period(a, b))
            t.check([(p.start, p.end) for p in sub.get_periods()] == [r[:2] for r in inside], "periods of the restriction")
            t.same(list(sub.evaluate(e)), [2 * r[2] for r in inside], "values of the restriction")
        # an expression valid in one period only contributes there
        if lo < hi:
            got = vm.evaluate({Period(a, b): e})
            t.same(list(got), [2 * r[2] if r in inside else 0.0 for r in rows], "dated expression")
        t.state(tuple(vec), a, b)
        t.outcome(len(inside))

    ck.explore("restriction to a period", restriction)
    ck.bounds = {"calendar": [str(d.date()) for d in CAL], "dated_definitions_per_kind": 3, "kinds": KINDS, "kinds_dated_together": 2}
    ck.assumptions += ["a regularity or export without a definition in force counts as 0", "a generator set without a curve in force is reported invalid and burns nothing"]
