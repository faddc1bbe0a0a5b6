"""C07: generator sets.  All load vectors over the interesting points of each curve (zero, below first, on, between, at and just above
capacity), all consumer sets with losses / conditions / rate bases, cable loss, row orders of the table and dated curves are run through
the real model and compared with an independent interpolation and summation."""

import itertools

from libecalc.presentation.json_result.mapper import get_asset_result

from mc.e2e import D, csv, fuel, interp, result, run as run_model
from mc.refmodel import Asset, compare

CAL2 = [D(2020), D(2020, 7, 1), D(2021)]
CAL3 = [D(2020), D(2020, 2, 1), D(2020, 7, 1), D(2021)]
CURVES = {
    "through zero": ([0.0, 10.0, 20.0], [0.0, 100.0, 150.0]),
    "idle fuel": ([0.0, 10.0, 20.0], [40.0, 100.0, 150.0]),
    "late start": ([5.0, 10.0, 20.0], [60.0, 100.0, 150.0]),
    "jump": ([0.0, 0.1, 10.0, 10.01, 30.0], [0.0, 80.0, 80.0, 200.0, 300.0]),
    "two points": ([0.0, 1.0], [0.0, 7.0]),
    "flat": ([1.0, 2.0, 3.0], [9.0, 9.0, 9.0]),
}


def points(c):
    xs = c[0]
    pts = [0.0, xs[-1], xs[-1] + 1e-3, xs[-1] * 2, xs[0], max(xs[0] / 2, 0.01)]
    pts += [(a + b) / 2 for a, b in zip(xs[:-1], xs[1:])] + xs[1:-1]
    return sorted(set(pts), key=lambda v: pts.index(v))


def run(ck):
    ck.bounds.update(curves=len(CURVES), consumers=3, periods=[2, 3])
    ck.assumptions += ["fuel curves are non-decreasing in power", "MAX over equal powers in a table is not considered"]

    def check(t, a):
        doc, ts, fac = a.build()
        m = run_model(doc, ts, fac)
        r = get_asset_result(m)
        t.step()
        compare(t, a, r)
        _, exp = a.expected()
        names = [g["name"] for i in a.installations for g in i["gens"]]
        prods = [p for i in m.get_installations() for p in i.get_electricity_producers()]
        for p, name in zip(prods, names):
            s = p.get_power_production()
            t.same(s.values, exp[name]["production"], f"{name}: power delivered")
        return r

    def curve_points(t):
        name = t.pick("curve", list(CURVES))
        c = CURVES[name]
        pts = points(c)
        load = [t.pick("load0", pts), t.pick("load1", pts if not ck.quick else pts[:4])]
        rev = t.pick("table order", ["as is", "reversed", "rotated"])
        xs, ys = c
        if rev == "reversed":
            xs, ys = xs[::-1], ys[::-1]
        elif rev == "rotated":
            xs, ys = xs[1:] + xs[:1], ys[1:] + ys[:1]
        a = Asset(CAL2, {"gas": {"co2": 1.0}}, [{"name": "i", "fuel": "gas", "reg": [1.0, 0.5], "gens": [{"name": "g", "curve": (xs, ys), "cons": [{"name": "l", "load": load}]}]}])
        r = check(t, a)
        g = {x.name: x for x in r.sub_components}["g"]
        for x, f, reg in zip(load, g.energy_usage.values, [1.0, 0.5]):
            t.check((f > 0 or min(ys) == 0) if x > 0 else f == 0.0, f"fuel {f} for load {x}")
            t.check(x <= 0 or f >= min(ys) * reg - 1e-9, f"fuel {f} for load {x} is below the first tabulated consumption")
        t.state(name, load)
        t.outcome((name, tuple(g.is_valid.values)))

    ck.explore("curve points", curve_points)

    def consumers(t):
        n = t.pick("consumers", [1, 2, 3])
        cons = []
        for k in range(n):
            c = {"name": f"l{k}", "load": t.pick(f"load{k}", [[4.0, 9.0, 0.0], [0.0, 12.0, 3.0]])}
            opt = t.pick(f"option{k}", ["plain", "loss", "loss vector", "condition", "calendar day", "loss and condition"])
            if opt.startswith("loss"):
                c["plf"] = [0.0, 0.2, 0.5] if opt == "loss vector" else 0.05
            if "condition" in opt:
                c["cond"] = [1, 0, 1]
            if opt == "calendar day":
                c["rt"] = "CALENDAR_DAY"
            cons.append(c)
        reg = t.pick("regularity", [1.0, [1.0, 0.5, 0.25], [0.5, 0.0, 1.0]] if n < 3 else [[1.0, 0.5, 0.25]])
        gen = {"name": "g", "cons": cons}
        if n == 1:
            loss = t.pick("cable loss", [None, 0.1, [0.0, 0.3, 0.1]])
            if loss is not None:
                gen["cable"] = loss
                gen["category"] = "POWER-FROM-SHORE"
                gen["max_shore"] = 30
        a = Asset(CAL3, {"gas": {"co2": 1.0}}, [{"name": "i", "fuel": "gas", "reg": reg, "gens": [gen]}])
        r = check(t, a)
        g = {x.name: x for x in r.sub_components}["g"]
        t.state(repr(cons), repr(reg))
        t.outcome((n, tuple(g.is_valid.values)))

    ck.explore("consumers and losses", consumers)

    def several(t):
        """several generator sets on one or two installations never share load"""
        ng = t.pick("sets", [2, 3])
        insts = t.pick("installations", [1, 2])
        loads = t.pick("loads", [p for p in itertools.permutations([[4.0, 25.0], [0.0, 12.0], [8.0, 0.0]], ng)])
        curves = t.pick("curves", [("through zero", "late start", "jump"), ("jump", "jump", "jump")])
        gens = [{"name": f"g{k}", "curve": CURVES[curves[k]], "cons": [{"name": f"l{k}", "load": loads[k]}]} for k in range(ng)]
        I = [{"name": f"i{j}", "fuel": "gas", "reg": [1.0, 0.5][j], "gens": gens[j::insts]} for j in range(insts)]
        a = Asset(CAL2, {"gas": {"co2": 1.0}}, I)
        doc, ts, fac = a.build()
        r = result(doc, ts, fac)
        t.step()
        compare(t, a, r)
        t.outcome((ng, insts))

    ck.explore("several generator sets", several)

    def dated(t):
        """a dated curve changes fuel, margin and validity at its date"""
        d = t.pick("change", [D(2020, 2, 1), D(2020, 7, 1), D(2020, 4, 1)])
        c1, c2 = t.pick("curves", [p for p in itertools.permutations(["through zero", "late start", "jump"], 2)])
        loads = t.pick("loads", [[15.0, 15.0, 15.0], [25.0, 25.0, 25.0], [0.0, 25.0, 2.0]])
        cal = sorted({*CAL3, d})
        L = [loads[[i for i, x in enumerate(CAL3[:-1]) if x <= s][-1]] for s in cal[:-1]]
        doc = {
            "START": CAL3[0],
            "END": CAL3[-1],
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": n, "TYPE": "ELECTRICITY2FUEL", "FILE": f"{n}.csv"} for n in ("a", "b")],
            "FUEL_TYPES": [fuel()],
            "INSTALLATIONS": [
                {
                    "NAME": "i",
                    "FUEL": "gas",
                    "GENERATORSETS": [
                        {"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": {CAL3[0]: "a", d: "b"}, "CONSUMERS": [{"NAME": "l", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": "S;X"}}]}
                    ],
                }
            ],
        }
        ts = {"s.csv": csv(["DATE", "X"], [[x.strftime("%Y-%m-%d"), y] for x, y in zip(CAL3[:-1], loads)])}
        fac = {"a.csv": csv(["POWER", "FUEL"], list(zip(*CURVES[c1]))), "b.csv": csv(["POWER", "FUEL"], list(zip(*CURVES[c2])))}
        r = result(doc, ts, fac)
        t.step()
        g = {x.name: x for x in r.sub_components}["g"]
        cs = [CURVES[c1] if s < d else CURVES[c2] for s in cal[:-1]]
        t.same(g.energy_usage.values, [interp(x, *c) if x > 0 else 0.0 for x, c in zip(L, cs)], "fuel")
        t.same(g.power_capacity_margin.values, [c[0][-1] - x for x, c in zip(L, cs)], "margin")
        t.same(g.is_valid.values, [x <= c[0][-1] for x, c in zip(L, cs)], "validity")
        t.outcome(tuple(g.is_valid.values))

    ck.explore("dated curves", dated)
