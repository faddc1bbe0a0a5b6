"""C15: tabulated consumers and sampled compressors.  For every table shape (1, 2 and 3 varying variables, constant columns, several hull
shapes), every energy column set, row order, column order and a full grid of requests below, at, between and beyond the table in every
variable, the real model runs end to end; energies are compared with an independent interpolation / projection, validity with a linear
program over the table's points (which decides whether recirculation and choking can bring the request into the table), and every request is
also answered alone and next to other requests."""

import functools
import itertools
import math

import numpy as np
from scipy.optimize import linprog

from datetime import timedelta
from libecalc.presentation.json_result.mapper import get_asset_result

from mc.core import close
from mc.e2e import D, csv, fuel, interp, run as run_model

SENSE = {"RATE": +1, "SUCTION_PRESSURE": -1, "DISCHARGE_PRESSURE": +1}
R, S, P = "RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE"
BIG = csv(["POWER", "FUEL"], [[0, 0], [1e7, 1e7]])

# name -> (variables, points)
SHAPES = {
    "rate": ((R,), [(100.0,), (250.0,), (400.0,), (1000.0,)]),
    "rate from zero": ((R,), [(0.0,), (1.0,), (300.0,)]),
    "pd": ((P,), [(30.0,), (60.0,), (100.0,)]),
    "ps": ((S,), [(5.0,), (11.0,), (20.0,)]),
    "rate pd box": ((R, P), [(100.0, 30.0), (400.0, 30.0), (100.0, 90.0), (400.0, 90.0)]),
    "rate pd slanted": ((R, P), [(100.0, 30.0), (500.0, 30.0), (200.0, 90.0), (350.0, 90.0)]),
    "rate pd hook": ((R, P), [(100.0, 30.0), (300.0, 35.0), (200.0, 90.0), (450.0, 70.0), (260.0, 55.0)]),
    "rate ps slanted": ((R, S), [(100.0, 5.0), (300.0, 5.0), (150.0, 20.0), (600.0, 20.0)]),
    "rate ps hook": ((R, S), [(100.0, 8.0), (400.0, 5.0), (300.0, 20.0), (550.0, 14.0)]),
    "ps pd slanted": ((S, P), [(5.0, 30.0), (20.0, 40.0), (5.0, 70.0), (20.0, 120.0)]),
    "ps pd triangle": ((S, P), [(5.0, 30.0), (20.0, 60.0), (12.0, 110.0)]),
    "box": ((R, S, P), [(r, s, p) for r in (100.0, 500.0) for s in (5.0, 20.0) for p in (30.0, 90.0)]),
    "box and centre": ((R, S, P), [(r, s, p) for r in (100.0, 500.0) for s in (5.0, 20.0) for p in (30.0, 90.0)] + [(290.0, 12.0, 61.0)]),
    "sheared": ((R, S, P), [(r - 3 * (p - 30) + 2 * s, s, p + 2 * s) for r in (300.0, 700.0) for s in (5.0, 20.0) for p in (30.0, 90.0)]),
    "constant ps": ((R, S, P), [(100.0, 10.0, 30.0), (500.0, 10.0, 30.0), (200.0, 10.0, 90.0), (350.0, 10.0, 90.0)]),
    "constant pd": ((R, S, P), [(100.0, 5.0, 80.0), (300.0, 5.0, 80.0), (150.0, 20.0, 80.0), (600.0, 20.0, 80.0)]),
    "constant rate": ((R, S, P), [(300.0, 5.0, 30.0), (300.0, 20.0, 40.0), (300.0, 5.0, 70.0), (300.0, 20.0, 120.0)]),
    "constant pressures": ((R, S, P), [(100.0, 10.0, 80.0), (250.0, 10.0, 80.0), (400.0, 10.0, 80.0)]),
}
AFFINE = {R: 0.05, S: -0.4, P: 0.3}


def affine(vs, pt, c=20.0):
    return c + sum(AFFINE.get(v, 0.7 * (i + 1)) * x for i, (v, x) in enumerate(zip(vs, pt)))


def bumpy(i):
    return [17.0, 5.0, 29.5, 11.25, 40.0, 8.5, 33.0, 21.0, 13.0][i % 9]


@functools.lru_cache(None)
def lp_slack(shape, q):
    """largest t such that some mixture of table points dominates the request with margin t (relative to each variable's size); q by variable"""
    vs, pts = SHAPES[shape]
    n = len(pts)
    a, b = [], []
    for i, v in enumerate(vs):
        scale = max(abs(p[i]) for p in pts)
        # sense*(mix - q)/scale >= t
        a.append([-SENSE[v] * p[i] / scale for p in pts] + [1.0])
        b.append(-SENSE[v] * q[i] / scale)
    res = linprog([0.0] * n + [-1.0], A_ub=a, b_ub=b, A_eq=[[1.0] * n + [0.0]], b_eq=[1.0], bounds=[(0, None)] * n + [(None, None)], method="highs")
    return res.x[-1]


@functools.lru_cache(None)
def lp_range(shape, q, kind):
    """smallest and largest (affine) table value over the mixtures that dominate the request"""
    vs, pts = SHAPES[shape]
    n = len(pts)
    a, b = [], []
    for i, v in enumerate(vs):
        a.append([-SENSE[v] * p[i] for p in pts])
        b.append(-SENSE[v] * q[i] + 1e-9 * abs(q[i]))
    f = [affine(vs, p) for p in pts]
    out = []
    for s in (1, -1):
        res = linprog([s * x for x in f], A_ub=a, b_ub=b, A_eq=[[1.0] * n], b_eq=[1.0], bounds=[(0, None)] * n, method="highs")
        out.append(s * res.fun if res.status == 0 else None)
    return out


def hull_value(pts, axis, other, x, low):
    """lowest (or highest) coordinate `axis` over the hull of 2d points at `other` = x, with x clamped to the hull"""
    lo, hi = min(p[other] for p in pts), max(p[other] for p in pts)
    x = min(max(x, lo), hi)
    best = None
    for p, q in itertools.product(pts, pts):
        if p[other] <= x <= q[other]:
            w = 0.0 if p[other] == q[other] else (x - p[other]) / (q[other] - p[other])
            if p[other] == q[other] and p is not q:
                continue
            v = p[axis] + w * (q[axis] - p[axis])
            best = v if best is None else (min(best, v) if low else max(best, v))
    return best


def projected(vs, pts, q):
    """documented projection for two varying variables: rate up, then discharge pressure up / suction pressure down"""
    a, b = q
    if vs == (R, P):
        a = max(a, hull_value(pts, 0, 1, b, True))
        b = max(b, hull_value(pts, 1, 0, a, True))
    elif vs == (R, S):
        a = max(a, hull_value(pts, 0, 1, b, True))
        b = min(b, hull_value(pts, 1, 0, a, False))
    else:
        b = max(b, hull_value(pts, 1, 0, a, True))
        a = min(a, hull_value(pts, 0, 1, b, False))
    return a, b


def axis_points(shape, i, dense):
    vs, pts = SHAPES[shape]
    xs = sorted({p[i] for p in pts})
    lo, hi = xs[0], xs[-1]
    if vs[i] == R:
        below, above = lo * 0.4, hi * 1.05
    elif vs[i] == S:
        below, above = lo * 0.8, hi * 1.2
    else:
        below, above = lo * 0.85, hi * 1.1
    out = [below, above, *xs] + [(x + y) / 2 for x, y in zip(xs[:-1], xs[1:])]
    if dense:
        out += [lo + 0.3 * (hi - lo), hi * 1.0001 if lo < hi else hi * 1.01, lo * 0.999]
    return sorted(set(out))


def requests(shape, dense):
    """full requests (rate, ps, pd), plus the part the table looks at; ps <= pd always"""
    vs, pts = SHAPES[shape]
    axes = [axis_points(shape, i, dense) for i in range(len(vs))]
    out = []
    for q in itertools.product(*axes):
        full = {R: 200.0, S: 4.0, P: 1000.0, **dict(zip(vs, q))}
        if full[S] <= full[P] and full[R] > 0:
            out.append((q, (full[R], full[S], full[P])))
    for p in pts:
        if (tuple(p),) and all(tuple(p) != q for q, _ in out):
            full = {R: 200.0, S: 4.0, P: 1000.0, **dict(zip(vs, p))}
            if full[R] > 0:
                out.append((tuple(p), (full[R], full[S], full[P])))
    return out


def model_of(table, kind, rows, cal, em_extra=None):
    fac = {"t.csv": table, "g.csv": BIG}
    em = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "t", "RATE": "S;Q", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"}
    con = {"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {**em, **(em_extra or {})}}
    inst = {"NAME": "i", "FUEL": "gas"}
    if kind == "POWER":
        inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [con]}]
    else:
        inst["FUELCONSUMERS"] = [con]
    doc = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "COMPRESSOR_TABULAR", "FILE": "t.csv"}, {"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [fuel()],
        "START": cal[0],
        "END": cal[-1],
        "INSTALLATIONS": [inst],
    }
    ts = {"s.csv": csv(["DATE", "Q", "PS", "PD"], [[d.strftime("%d.%m.%Y"), *r] for d, r in zip(cal, rows)])}
    r = get_asset_result(run_model(doc, ts, fac))
    return r, {x.name: x for x in r.sub_components}["c"]


def days(n):
    return [D(2020) + timedelta(days=i) for i in range(n + 1)]


def orders(n, quick):
    base = list(range(n))
    if n <= 4 and not quick:
        return [list(p) for p in itertools.permutations(base)]
    if quick and n > 4:
        return [base, base[1::2][::-1] + base[::2]]
    return [base, base[::-1], base[n // 2 :] + base[: n // 2], base[1::2] + base[::2]]


def run(ck):
    ck.bounds.update(shapes=len(SHAPES), variables=[1, 2, 3], requests="every combination of below / at / between / beyond in each variable")
    ck.assumptions += [
        "requests within 1e-7 of the table's boundary, other than the table's own points, may be classified either way",
        "between the points of two and three dimensional tables values are compared for tables whose values are a linear function of the variables, where every triangulation agrees",
    ]

    def sampled(t):
        shape = t.pick("shape", list(SHAPES))
        vs, pts = SHAPES[shape]
        kind = t.pick("energy column", ["POWER", "FUEL", "FUEL and POWER"])
        values = t.pick("values", ["linear", "bumpy"])
        order = t.pick("rows", orders(len(pts), ck.quick))
        swap = t.flip("columns reversed") if not ck.quick or len(pts) <= 4 else False
        f = [affine(vs, p) if values == "linear" else bumpy(i) for i, p in enumerate(pts)]
        headers = [*vs, "POWER" if kind == "POWER" else "FUEL"]
        rows = [[*p, e] for p, e in zip(pts, f)]
        if kind == "FUEL and POWER":
            headers.append("POWER")
            rows = [[*r, r[-1] / 4 + 1] for r in rows]
        rows = [rows[i] for i in order]
        if swap:
            headers, rows = headers[::-1], [r[::-1] for r in rows]
        reqs = requests(shape, not ck.quick)
        cal = days(len(reqs) + 1)
        ask = [full for _, full in reqs] + [(0.0, 4.0, 1000.0)]
        _, c = model_of(csv(headers, rows), kind, ask, cal)
        t.step(len(ask))
        energy, valid = c.energy_usage.values, c.is_valid.values
        power = c.power.values if c.power is not None else None
        t.check(valid[-1] and energy[-1] == 0.0, f"no rate must use no energy and be valid, got {energy[-1]}, {valid[-1]}")
        varying = [i for i in range(len(vs)) if len({p[i] for p in pts}) > 1]
        nodes = {tuple(p): e for p, e in zip(pts, f)}
        top = max(f)
        for j, (q, full) in enumerate(reqs):
            node = nodes.get(q)
            slack = lp_slack(shape, q)
            what = f"request {dict(zip(vs, q))} of table {list(zip(pts, f))}"
            if node is None and abs(slack) < 1e-7:
                continue
            ok = node is not None or slack > 0
            t.check(valid[j] == ok, f"{what}: valid is {valid[j]}, expected {ok} (margin {slack:.3g})")
            if not ok:
                t.check(math.isnan(energy[j]), f"{what}: energy {energy[j]} although the table cannot deliver it")
                t.outcome("invalid")
                continue
            if node is not None:
                exp = node
            elif len(varying) == 1:
                i = varying[0]
                xs = sorted(range(len(pts)), key=lambda k: pts[k][i])
                exp = interp(q[i], [pts[k][i] for k in xs], [f[k] for k in xs])
            elif values == "linear" and len(varying) == 2:
                a, b = projected(tuple(vs[i] for i in varying), [tuple(p[i] for i in varying) for p in pts], tuple(q[i] for i in varying))
                pt = list(pts[0])
                pt[varying[0]], pt[varying[1]] = a, b
                exp = affine(vs, pt)
            elif values == "linear" and shape.startswith("box"):
                exp = affine(vs, (max(q[0], 100.0), min(q[1], 20.0), max(q[2], 30.0)))
            elif values == "linear":
                lo, hi = lp_range(shape, q, values)
                t.check(lo is not None and lo - 1e-6 * top <= energy[j] <= hi + 1e-6 * top, f"{what}: energy {energy[j]} outside what the table allows [{lo}, {hi}]")
                continue
            else:
                t.check(0 < energy[j] <= top * (1 + 1e-9), f"{what}: energy {energy[j]} exceeds every table value")
                continue
            t.check(close(energy[j], exp, rel=1e-6), f"{what}: energy {energy[j]}, expected {exp}")
            if kind == "FUEL and POWER":
                t.check(power is not None and close(power[j], exp / 4 + 1, rel=1e-6), f"{what}: power {power and power[j]}, expected {exp / 4 + 1}")
            t.outcome("node" if node is not None else "between" if slack > 0 else "edge")
        t.state(shape, kind, values)

    ck.explore("sampled", sampled)

    def independent(t):
        """a request's answer is the same alone, first, last and between others"""
        shape = t.pick("shape", list(SHAPES))
        vs, pts = SHAPES[shape]
        reqs = requests(shape, False)
        step = max(1, len(reqs) // (4 if ck.quick else 12))
        pick = [reqs[i][1] for i in range(0, len(reqs), step)] + [(0.0, 4.0, 1000.0)]
        k = t.pick("request", list(range(len(pick))))
        other = t.pick("other", list(range(len(pick))))
        f = [affine(vs, p) for p in pts]
        table = csv([*vs, "POWER"], [[*p, e] for p, e in zip(pts, f)])
        seen = []
        for ask, at in (([pick[k]], 0), ([pick[k], pick[other]], 0), ([pick[other], pick[k]], 1), ([pick[other], pick[k], pick[other]], 1)):
            _, c = model_of(table, "POWER", ask, days(len(ask)))
            seen.append((c.energy_usage.values[at], c.is_valid.values[at]))
            t.step()
        for e, v in seen[1:]:
            t.check(v == seen[0][1] and (close(e, seen[0][0], rel=1e-12) or math.isnan(e) and math.isnan(seen[0][0])), f"request {pick[k]}: alone {seen[0]}, next to {pick[other]}: {(e, v)}")
        t.state(shape, pick[k])
        t.outcome(seen[0][1])

    ck.explore("independent", independent)

    TAB = {
        "1d": (("RATE",), [(0.0,), (100.0,), (250.0,), (1000.0,)]),
        "1d named": (("Oil volume",), [(10.0,), (100.0,), (250.0,)]),
        "2d": (("WELL", "WATER"), [(0.0, 0.0), (100.0, 0.0), (0.0, 10.0), (100.0, 20.0)]),
        "2d centre": (("WELL", "WATER"), [(0.0, 0.0), (100.0, 0.0), (0.0, 10.0), (100.0, 20.0), (40.0, 6.0)]),
        "3d": (("RATE", "A", "B"), [(r, a, b) for r in (10.0, 200.0) for a in (1.0, 2.0) for b in (5.0, 50.0)]),
    }

    @functools.lru_cache(None)
    def inside(pts, q):
        n = len(pts)
        res = linprog([0.0] * n, A_eq=[[p[i] for p in pts] for i in range(len(q))] + [[1.0] * n], b_eq=[*q, 1.0], bounds=[(0, None)] * n, method="highs")
        return res.status == 0

    def on_edge(pts, q):
        """is q within a hair of the hull's boundary"""
        n = len(q)
        c = [sum(p[i] for p in pts) / len(pts) for i in range(n)]
        out = [c[i] + (q[i] - c[i]) * (1 + 1e-6) for i in range(n)]
        inn = [c[i] + (q[i] - c[i]) * (1 - 1e-6) for i in range(n)]
        return inside(pts, tuple(inn)) and not inside(pts, tuple(out))

    def tabulated(t):
        name = t.pick("table", list(TAB))
        vs, pts = TAB[name]
        pts = tuple(pts)
        kind = t.pick("energy column", ["POWER", "FUEL"])
        values = t.pick("values", ["linear", "bumpy"])
        order = t.pick("rows", orders(len(pts), ck.quick))
        swap = t.flip("columns reversed")
        reverse = t.flip("variables listed in reverse")
        f = [affine(vs, p, 3.0) if values == "linear" else bumpy(i) for i, p in enumerate(pts)]
        headers, rows = [*vs, kind], [[*p, e] for p, e in zip(pts, f)]
        rows = [rows[i] for i in order]
        if swap:
            headers, rows = headers[::-1], [r[::-1] for r in rows]
        axes = []
        for i in range(len(vs)):
            xs = sorted({p[i] for p in pts})
            axes.append([*xs, xs[-1] * 1.01, *([xs[0] * 0.9] if xs[0] else [])] + [(a + 2 * b) / 3 for a, b in zip(xs[:-1], xs[1:])])
        ask = list(itertools.product(*axes))
        n = t.pick("periods", ["all", 1, 2])
        reg = t.pick("regularity", [None, 0.5]) if not reverse else None
        if n != "all":
            ask = ask[:: max(1, len(ask) // 5)]
            ask = [ask[i : i + n] for i in range(0, len(ask), n)]
        else:
            ask = [ask]
        nodes = {tuple(p): e for p, e in zip(pts, f)}
        for group in ask:
            cal = days(len(group))
            cols = [f"V{i}" for i in range(len(vs))]
            # rates are calendar day in the input and stream day in the table
            ts = {"s.csv": csv(["DATE", *cols], [[d.strftime("%d.%m.%Y"), *[x * (reg if reg and v.lower() == "rate" else 1.0) for v, x in zip(vs, q)]] for d, q in zip(cal, group)])}
            vl = [{"NAME": v, "EXPRESSION": f"S;V{i}"} for i, v in enumerate(vs)]
            con = {"NAME": "c", "CATEGORY": "MISCELLANEOUS", "ENERGY_USAGE_MODEL": {"TYPE": "TABULATED", "ENERGYFUNCTION": "t", "VARIABLES": vl[::-1] if reverse else vl}}
            inst = {"NAME": "i", "FUEL": "gas"}
            if reg:
                inst["REGULARITY"] = reg
            if kind == "POWER":
                inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [con]}]
            else:
                inst["FUELCONSUMERS"] = [con]
            doc = {
                "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
                "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "TABULAR", "FILE": "t.csv"}, {"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
                "FUEL_TYPES": [fuel()],
                "START": cal[0],
                "END": cal[-1],
                "INSTALLATIONS": [inst],
            }
            r = get_asset_result(run_model(doc, ts, {"t.csv": csv(headers, rows), "g.csv": BIG}))
            c = {x.name: x for x in r.sub_components}["c"]
            t.step()
            for j, q in enumerate(group):
                node = nodes.get(q)
                if node is None and on_edge(pts, q):
                    continue
                ok = node is not None or inside(pts, q)
                what = f"request {dict(zip(vs, q))}"
                t.check(c.is_valid.values[j] == ok, f"{what}: valid is {c.is_valid.values[j]}, expected {ok}")
                e = c.energy_usage.values[j] / (reg if reg and kind == "FUEL" else 1.0)
                if not ok:
                    t.check(math.isnan(e), f"{what}: energy {e} outside the table")
                elif node is not None:
                    t.check(close(e, node, rel=1e-9), f"{what}: energy {e}, table says {node}")
                elif values == "linear":
                    t.check(close(e, affine(vs, q, 3.0), rel=1e-9), f"{what}: energy {e}, expected {affine(vs, q, 3.0)}")
                elif len(vs) == 1:
                    xs = sorted(range(len(pts)), key=lambda k: pts[k])
                    exp = interp(q[0], [pts[k][0] for k in xs], [f[k] for k in xs])
                    t.check(close(e, exp, rel=1e-9), f"{what}: energy {e}, expected {exp}")
                else:
                    t.check(min(f) - 1e-9 <= e <= max(f) + 1e-9, f"{what}: energy {e} outside the tabulated values")
                t.outcome((name, ok))
        t.state(name, kind, values, n)

    ck.explore("tabulated", tabulated)
