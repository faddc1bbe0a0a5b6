"""C02: input time series -> one value per evaluated period.  Real YAML + CSV through validate_for_run()."""

import itertools

from mc.core import Prune
from mc.e2e import D, csv, direct_fuel, fuel, load

CAL = [D(2020, 1, 1), D(2020, 1, 2), D(2020, 3, 1), D(2020, 12, 31), D(2021, 1, 1), D(2022, 7, 15), D(2024, 2, 29)]
KINDS = [("DEFAULT", None, None)] + [
    ("MISCELLANEOUS", i, e) for i in ("RIGHT", "LEFT", "LINEAR") for e in (None, False, True)
]


def value_at(obs, when, interp, extrapolate):
    """obs: sorted [(date, value)]; documented value for a period starting at ``when``."""
    if when < obs[0][0]:
        return 0.0
    if when > obs[-1][0]:
        return obs[-1][1] if extrapolate else 0.0
    for i, (d, v) in enumerate(obs):
        if d == when:
            return v
        if d > when:
            pd, pv = obs[i - 1]
            if interp == "RIGHT":
                return pv
            if interp == "LEFT":
                return v
            return pv + (v - pv) * ((when - pd).total_seconds() / (d - pd).total_seconds())
    raise AssertionError


def subsets(xs, lo, hi):
    return [list(c) for n in range(lo, hi + 1) for c in itertools.combinations(xs, n)]


def fmt(d, style):
    return {
        "iso": d.strftime("%Y-%m-%d"),
        "eu": d.strftime("%d.%m.%Y"),
        "time": d.strftime("%Y-%m-%d %H:%M:%S"),
    }[style]


# every column is one value vector over the observations
def columns(n):
    base = [[1.0, 0.0, -2.0, 7.5, 3.0, 11.0][:n], [float(10**i) for i in range(n)], [0.0] * (n - 1) + [4.0], [5.0] * n]
    return {c: v for c, v in zip(["A", "B", "C", "D"], base)}


def run(ck):
    def scenario(t):
        cal = CAL[:5] if ck.quick else CAL
        dates = t.pick("observation dates", subsets(cal, 1, ck.q(4, 4)))
        n = len(dates)
        perms = list(itertools.permutations(range(n)))
        if n > 3:
            perms = perms if not ck.quick else [perms[0], perms[-1], perms[9], perms[14]]
        perm = t.pick("row order", perms)
        start = t.pick("START", [None, D(2019, 12, 1), D(2020, 1, 2), D(2020, 2, 10)])
        extra = t.pick("dated definitions", [[], [D(2020, 2, 1), D(2020, 6, 1), D(2021, 1, 1)], [D(2019, 12, 31), D(2020, 1, 2), D(2020, 12, 30), D(2021, 6, 1)]])
        influence = t.pick("influences time vector", [True, False])
        style = t.pick("date style", ["iso"] if ck.quick else ["iso", "eu"])
        cols = columns(n)
        end = D(2025, 1, 1)
        rows = [[fmt(dates[i], style), *[cols[c][i] for c in cols]] for i in perm]
        ts = {"a.csv": csv(["DATE", *cols], rows)}
        # a second, unrelated series must not change the values of the first
        other = [D(2020, 1, 20), D(2023, 1, 1)]
        ts["b.csv"] = csv(["DATE", "A"], [[fmt(d, "iso"), 99] for d in other])
        doc = {"END": end}
        if start:
            doc["START"] = start
        if extra:
            doc["VARIABLES"] = {"x": {d: {"VALUE": 1} for d in extra}}
        doc["TIME_SERIES"] = []
        for k, (typ, interp, extrap) in enumerate(KINDS):
            c = {"NAME": f"S{k}", "TYPE": typ, "FILE": "a.csv"}
            if interp:
                c["INTERPOLATION_TYPE"] = interp
            if extrap is not None:
                c["EXTRAPOLATION"] = extrap
            c["INFLUENCE_TIME_VECTOR"] = influence
            doc["TIME_SERIES"].append(c)
        doc["TIME_SERIES"].append({"NAME": "O", "TYPE": "DEFAULT", "FILE": "b.csv"})
        doc["FUEL_TYPES"] = [fuel()]
        doc["INSTALLATIONS"] = [{"NAME": "i", "FUEL": "gas", "FUELCONSUMERS": [direct_fuel("f", 1)]}]
        m = load(doc, ts).validate_for_run()
        got = m.variables.variables
        # boundaries asked for
        want_dates = set(other) | {end} | set(extra)
        if influence:
            want_dates |= set(dates)
        s = start or min(set(other) | (set(dates) if influence else set()))
        want_dates |= {s}
        vec = sorted(d for d in want_dates if s <= d <= end)
        t.check(m.variables.get_time_vector() == vec, lambda: f"time vector {m.variables.get_time_vector()} expected {vec}")
        obs_by_col = {c: sorted(zip(dates, v)) for c, v in cols.items()}
        for k, (typ, interp, extrap) in enumerate(KINDS):
            for c in cols:
                want = [value_at(obs_by_col[c], d, interp or "RIGHT", bool(extrap)) for d in vec[:-1]]
                t.same(got[f"S{k};{c}"], want, f"S{k};{c} ({typ} {interp} extrapolation={extrap}) on {[str(d.date()) for d in vec[:-1]]}")
                t.step(len(want))
                t.state(typ, interp, extrap, tuple(want), tuple(vec))
        t.same(got["O;A"], [value_at([(d, 99.0) for d in other], d, "RIGHT", False) for d in vec[:-1]], "other series")
        t.outcome((n, len(vec)))

    ck.explore("series-to-periods", scenario)

    # sub-day observation times
    def times(t):
        hours = [D(2020, 1, 1), D(2020, 1, 1).replace(hour=6), D(2020, 1, 1).replace(hour=12, minute=30), D(2020, 1, 2)]
        dates = t.pick("observations", subsets(hours, 1, 3))
        interp = t.pick("interpolation", ["RIGHT", "LEFT", "LINEAR"])
        extrap = t.pick("extrapolation", [False, True])
        evald = t.pick("evaluated", [[D(2020, 1, 1).replace(hour=9)], [D(2020, 1, 1).replace(hour=6), D(2020, 1, 1).replace(hour=12)]])
        vals = [3.0, 8.0, -1.0][: len(dates)]
        ts = {"a.csv": csv(["DATE", "A"], [[fmt(d, "time"), v] for d, v in zip(dates, vals)])}
        doc = {
            "START": D(2020, 1, 1),
            "END": D(2020, 1, 3),
            "VARIABLES": {"x": {d: {"VALUE": 1} for d in evald}},
            "TIME_SERIES": [{"NAME": "S", "TYPE": "MISCELLANEOUS", "FILE": "a.csv", "INTERPOLATION_TYPE": interp, "EXTRAPOLATION": extrap, "INFLUENCE_TIME_VECTOR": False}],
            "FUEL_TYPES": [fuel()],
            "INSTALLATIONS": [{"NAME": "i", "FUEL": "gas", "FUELCONSUMERS": [direct_fuel("f", 1)]}],
        }
        m = load(doc, ts).validate_for_run()
        vec = sorted({D(2020, 1, 1), D(2020, 1, 3), *evald})
        t.check(m.variables.get_time_vector() == vec, lambda: f"time vector {m.variables.get_time_vector()} expected {vec}")
        want = [value_at(list(zip(dates, vals)), d, interp, extrap) for d in vec[:-1]]
        t.same(m.variables.variables["S;A"], want, "sub-day series")
        t.step(len(want))
        t.state(tuple(want), interp)
        t.outcome(len(set(want)))

    ck.explore("sub-day", times)
    ck.bounds = {"observations": "1..4 on a calendar of %d dates" % (5 if ck.quick else 7), "interpolation_x_extrapolation": len(KINDS), "columns": 4}
    ck.assumptions += ["dates at or between listed calendar dates; at most 4 observations per series"]
