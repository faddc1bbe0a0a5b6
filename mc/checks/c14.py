"""C14: pumps.  For a catalogue of single- and variable-speed charts every point of a grid placed on, between and beyond the chart's
own corner rates and heads (zero rate, below minimum flow, on the curves, on the stonewall, above capacity, inside and above the head
margin) is evaluated by the real model and by the closed-form process pump, for every unit system, density, table order and request
order, and compared with an independent scalar reference pump."""

import itertools
from datetime import timedelta

from libecalc.domain.process.pump.pump import PumpModel
from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.presentation.yaml.yaml_entities import MemoryResource
from libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart import YamlUnits

from mc import refpump as rp
from mc.core import Prune, close
from mc.e2e import D, csv, direct_load, fuel, load as load_model, run as run_model

BIG = csv(["POWER", "FUEL"], [[0, 0], [1000, 1000]])
# rate, head J/kg, efficiency
CHARTS = {
    "single": [(3000, [(200, 4000, 0.5), (500, 3000, 0.8), (900, 1000, 0.6)])],
    "single 100 %": [(3000, [(200, 4000, 1.0), (500, 3000, 1.0), (900, 1000, 1.0)])],
    "single steep": [(3000, [(400, 5000, 0.4), (500, 1000, 0.9)])],
    "two speeds": [(1000, [(100, 1000, 0.5), (300, 900, 0.7), (500, 500, 0.6)]), (3000, [(300, 6000, 0.6), (900, 5000, 0.8), (1500, 2500, 0.7)])],
    "three speeds": [
        (1000, [(100, 1000, 0.5), (500, 500, 0.6)]),
        (2000, [(220, 3000, 0.6), (600, 2500, 0.9), (1000, 1500, 0.7)]),
        (3000, [(300, 6000, 0.6), (900, 5000, 0.8), (1500, 2500, 0.7)]),
    ],
    "two speeds 100 %": [(1000, [(100, 1000, 1.0), (500, 500, 1.0)]), (3000, [(300, 6000, 1.0), (1500, 2500, 1.0)])],
    "vertical stonewall": [(1000, [(100, 1000, 0.5), (500, 500, 0.6)]), (2000, [(200, 3000, 0.8), (500, 2000, 0.7)])],
}
UNIT = {"JOULE_PER_KG": 1.0, "KJ_PER_KG": 1000.0, "M": rp.G}


def grid(c, margin):
    qs = sorted({p[0] for _, pts in c for p in pts})
    hs = sorted({p[1] for _, pts in c for p in pts})
    rates = [0.0, qs[0] / 2, *qs, *[(a + b) / 2 for a, b in zip(qs, qs[1:])], qs[-1] * 1.05]
    heads = [-200.0, 0.0, hs[0] / 2, *hs, *[(a + b) / 2 for a, b in zip(hs, hs[1:])], hs[-1] + margin / 2 + 1, hs[-1] + margin + 50]
    pts = list(itertools.product(rates, heads))
    for q in rates:
        top = rp.max_head(c, q)
        pts += [(q, top + margin * 0.5 + 0.01), (q, top + margin * 1.01 + 0.02), (q, top - 0.01)]
    return pts


def file_of(chart, unit, eff_unit, order, with_speed=True, with_eff=True):
    rows = [
        {"SPEED": s, "RATE": q, "HEAD": h / UNIT[unit], "EFFICIENCY": e * (100 if eff_unit == "PERCENTAGE" else 1)}
        for s, pts in chart
        for q, h, e in pts
    ]
    head = ["RATE", "HEAD", "EFFICIENCY", "SPEED"]
    if order == "reversed":
        rows.reverse()
        head.reverse()
    elif order == "interleaved":
        rows = rows[1::2] + rows[0::2]
        head = ["SPEED", "EFFICIENCY", "RATE", "HEAD"]
    if not with_speed:
        head.remove("SPEED")
    if not with_eff:
        head.remove("EFFICIENCY")
    return csv(head, [[r[h] for h in head] for r in rows])


def run(ck):
    ck.bounds.update(charts=len(CHARTS), grid="corners, midpoints and beyond of every chart, up to ~250 points", densities=2, units="all")
    ck.assumptions += [
        "heads fall with rate on each curve and curves do not cross",
        "where the nearest point of a curve is exactly level with the operating point, counting that curve as above or below is accepted",
        "within 1e-9 of a limit (but not exactly on it) either classification is accepted",
    ]

    def doc(chart, unit, eff_unit, order, margin, n, model_extra=None, with_eff=True, with_speed=True, reg=None, units=True, extra=None):
        cal = [D(2020) + timedelta(days=3 * k) for k in range(n + 1)]
        single = len(chart) == 1
        fac = {
            "NAME": "p",
            "TYPE": "PUMP_CHART_SINGLE_SPEED" if single else "PUMP_CHART_VARIABLE_SPEED",
            "FILE": "p.csv",
        }
        if units:
            fac["UNITS"] = {"RATE": "AM3_PER_HOUR", "HEAD": unit, "EFFICIENCY": eff_unit}
        if margin:
            fac["HEAD_MARGIN"] = margin
        model = {"TYPE": "PUMP", "ENERGYFUNCTION": "p", "RATE": "S;R", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD", "FLUID_DENSITY": "S;RHO", **(model_extra or {})}
        inst = {
            "NAME": "i",
            "FUEL": "gas",
            "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [{"NAME": "pump", "CATEGORY": "PUMP", "ENERGY_USAGE_MODEL": model}]}],
        }
        if reg is not None:
            inst["REGULARITY"] = reg
        d = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}, fac],
            "FUEL_TYPES": [fuel()],
            "START": cal[0],
            "END": cal[-1],
            "INSTALLATIONS": [inst],
            **(extra or {}),
        }
        return d, cal, {"g.csv": BIG, "p.csv": file_of(chart, unit, eff_unit, order, with_speed, with_eff)}

    def series(cal, rows, extra=()):
        return {"s.csv": csv(["DATE", "R", "PS", "PD", "RHO", *extra], [[d.strftime("%d.%m.%Y"), *r] for d, r in zip(cal, rows)])}

    def requests(c, margin, rho, order, negative=False):
        rows = []
        for q, h in grid(c, margin * rp.G):
            ps = 20.0
            pd = ps + h * rho / 1e5
            if pd < (1 if negative else ps):
                continue
            rows.append((q * 24, ps, pd, rho))
        if order == "reversed":
            rows.reverse()
        elif order == "shuffled":
            rows = rows[::3] + rows[1::3][::-1] + rows[2::3]
        elif order == "zeros between":
            rows = [x for r in rows for x in (r, (0.0, 10.0, 12.0, r[3]))]
        return rows

    def compare(t, e, what, power, valid, head=None):
        if e["slack"] == 0 or e["slack"] > 1e-9:
            t.check(bool(valid) == (e["status"] == rp.OK), lambda: f"{what}: reported valid={valid}, expected {e['status']}")
            if not close(power, e["power2"], rel=1e-7):
                t.same(power, e["power"], f"{what}: power", rel=1e-7)
        if head is not None and e["rate"] > 0:
            t.same(head, e["need"], f"{what}: requested head", rel=1e-9, abs_=1e-6)
        t.outcome((e["status"], "recirculation" if e["rate"] > 0 else "off"))

    def model_grid(t):
        name = t.pick("chart", list(CHARTS))
        unit = t.pick("head unit", list(UNIT))
        margin = t.pick("head margin [m]", [0.0, 12.0])
        rho = t.pick("density", [1000.0, 640.0])
        order = t.pick("request order", ["as is", "reversed", "shuffled", "zeros between"])
        forder = t.pick("table order", ["as is", "reversed", "interleaved"])
        eff = t.pick("efficiency unit", ["PERCENTAGE", "FRACTION"])
        if ck.quick and (order != "as is") + (forder != "as is") + (eff == "FRACTION") + (rho != 1000.0) > 1:
            raise Prune
        c = rp.chart(CHARTS[name])
        rows = requests(c, margin, rho, order)
        d, cal, fac = doc(CHARTS[name], unit, eff, forder, margin, len(rows), with_speed=not (len(c) == 1 and forder == "reversed"))
        m = run_model(d, series(cal, rows), fac)
        r = get_asset_result(m)
        t.step(len(rows))
        p = {x.name: x for x in r.sub_components}["pump"]
        mod = r.models[0]
        power = p.power.values
        for k, row in enumerate(rows):
            e = rp.simulate(c, *row, margin_m=margin)
            t.state(name, round(row[0], 3), round(row[2], 3), rho, margin)
            compare(t, e, f"request {row}", power[k], p.is_valid.values[k], mod.operational_head.values[k] if hasattr(mod.operational_head, "values") else mod.operational_head[k])
            t.check(row[0] > 0 or (power[k] == 0 and p.is_valid.values[k]), f"zero rate costs {power[k]}")

    ck.explore("model grid", model_grid)

    def reasons(t):
        name = t.pick("chart", list(CHARTS))
        margin = t.pick("head margin [m]", [0.0, 12.0])
        unit = t.pick("head unit", list(UNIT))
        chart = CHARTS[name]
        c = rp.chart(chart)
        res = MemoryResource.from_string(file_of(chart, unit, "FRACTION", "as is"), allow_nans=False)
        data = UserDefinedChartData.from_resource(res, units=YamlUnits(head=unit, efficiency="FRACTION", rate="AM3_PER_HOUR"), is_single_speed=len(c) == 1)
        pump = PumpModel(pump_chart=data, head_margin=margin * rp.G)
        for row in requests(c, margin, 870.0, "as is"):
            power, head, status = pump.simulate(rate=row[0], suction_pressure=row[1], discharge_pressure=row[2], fluid_density=row[3])
            t.step()
            e = rp.simulate(c, *row, margin_m=margin)
            t.state(name, margin, row)
            if e["slack"] == 0 or e["slack"] > 1e-9:
                t.check(status.value == e["status"], lambda: f"request {row}: failure reason {status}, expected {e['status']}")
            # the reported maximum rate is deliverable and clearly more is not
            top = float(pump.get_max_standard_rate(row[1], row[2], row[3]))
            need = e["need"] if row[0] > 0 else rp.head_of(*row[1:])
            t.same(top, rp.max_rate_at_head(c, need) * 24, f"maximum rate for {row[1:]}", rel=1e-9)
            if 0 < need <= max(p[1] for p in c[-1][1]):
                _, _, ok = pump.simulate(rate=top * (1 - 1e-9), suction_pressure=row[1], discharge_pressure=row[2], fluid_density=row[3])
                _, _, over = pump.simulate(rate=top * 1.01 + 1, suction_pressure=row[1], discharge_pressure=row[2] + margin * rp.G * row[3] / 1e5 , fluid_density=row[3])
                t.check(ok.value == rp.OK or rp.simulate(c, top * (1 - 1e-9), *row[1:])["slack"] < 1e-8, lambda: f"reported maximum rate {top} for {row[1:]} fails: {ok}")
                t.check(over.value != rp.OK, lambda: f"more than the reported maximum rate {top} for {row[1:]} succeeds")
                t.step(2)
            t.outcome(status.value)

    ck.explore("failure reasons and capacity", reasons)

    def options(t):
        """defaults, losses, conditions and regularity around the pump"""
        name = t.pick("chart", ["single", "two speeds", "single 100 %"])
        chart = CHARTS[name]
        eff = t.pick("efficiency column", ["given", "missing"])
        units = t.pick("units", ["given", "default"])
        plf = t.pick("power loss", [None, 0.1, "S;L"])
        cond = t.pick("condition", [None, "S;C > 0"])
        reg = t.pick("regularity", [None, 0.5, "S;G"])
        n = 6
        base = [(400 * 24.0, 10.0, 30.0, 1000.0), (0.0, 10.0, 30.0, 1000.0), (100 * 24.0, 10.0, 12.0, 900.0), (450 * 24.0, 5.0, 5.0, 1000.0), (2000 * 24.0, 1.0, 30.0, 1000.0), (350 * 24.0, 10.0, 90.0, 1000.0)]
        regs = [1.0, 0.5, 0.9, 0.0, 0.25, 0.75]
        conds = [1, 1, 0, 1, 0, 1]
        losses = [0.0, 0.1, 0.2, 0.3, 0.05, 0.5]
        extra = {}
        if plf is not None:
            extra["POWERLOSSFACTOR"] = plf
        if cond:
            extra["CONDITION"] = cond
        d, cal, fac = doc(chart, "M", "PERCENTAGE", "as is", 0.0, n, extra, with_eff=eff == "given", reg=reg, units=units == "given")
        m = run_model(d, series(cal, [(*b, c, g, lo) for b, c, g, lo in zip(base, conds, regs, losses)], ("C", "G", "L")), fac)
        r = get_asset_result(m)
        t.step()
        p = {x.name: x for x in r.sub_components}["pump"]
        c = rp.chart(chart if eff == "given" else [(s, [(q, h, 1.0) for q, h, _ in pts]) for s, pts in chart])
        for k, b in enumerate(base):
            g = 1.0 if reg is None else 0.5 if reg == 0.5 else regs[k]
            rate = 0.0 if (cond and not conds[k]) or g == 0 else b[0] / g
            e = rp.simulate(c, rate, *b[1:])
            lo = 0.0 if plf is None else 0.1 if plf == 0.1 else losses[k]
            e["power"] /= 1 - lo
            e["power2"] /= 1 - lo
            compare(t, e, f"period {k} rate {rate}", p.power.values[k], p.is_valid.values[k])
        t.state(name, eff, units, plf, cond, reg)

    ck.explore("options", options)

    def process_pump(t):
        """the closed-form process pump and the streams on its connections"""
        name = t.pick("chart", list(CHARTS))
        chart = CHARTS[name]
        c = rp.chart(chart)
        mf = t.pick("minimum flow", [None, "chart", "above"])
        minflow = None if mf is None else min(p[0] for _, pts in c for p in pts) * (1.0 if mf == "chart" else 1.7)
        reg = t.pick("regularity", [None, 0.5])
        eff = t.pick("efficiency column", ["given", "missing"])
        rows = [r for r in requests(c, 0.0, 820.0, t.pick("order", ["as is", "zeros between"]), True)]
        pm = {"CHART": "p"}
        if minflow is not None:
            pm["MINIMUM_FLOW_RATE"] = minflow
        extra = {
            "PUMP_PROCESS_SIMULATIONS": [
                {
                    "TYPE": "PUMP",
                    "NAME": "sim",
                    "PUMP_MODEL": pm,
                    "INLET": {"RATE": "S;R", "PRESSURE": "S;PS", "DENSITY": "S;RHO"},
                    "REQUIRED_DISCHARGE_PRESSURE": "S;PD",
                }
            ]
        }
        d, cal, fac = doc(chart, "JOULE_PER_KG", "FRACTION", "as is", 0.0, len(rows), reg=None, extra=extra, with_eff=eff == "given")
        if eff == "missing":
            c = [(s, [(q, h, 1.0) for q, h, _ in pts]) for s, pts in c]
        d["INSTALLATIONS"][0]["GENERATORSETS"][0]["CONSUMERS"] = [direct_load("l", 1)]
        if reg:
            d["INSTALLATIONS"][0]["REGULARITY"] = reg
        m = load_model(d, series(cal, rows), fac)
        ((sim, inputs, periods),) = m.get_pump_process_simulations()
        t.check(len(periods) == len(rows) == len(inputs), "one input per period")
        out = sim.evaluate(inputs)
        cons = sim.get_process_unit_connections()
        units = {u.get_id(): u for u in sim.get_process_units()}
        loop = sim.get_recirculation_loop()
        for k, (row, o) in enumerate(zip(rows, out)):
            e = rp.simulate(c, *row, min_flow=minflow)
            p = o.pump_result
            t.step()
            t.state(name, mf, row)
            what = f"request {row}"
            if e["slack"] == 0 or e["slack"] > 1e-9:
                t.check(p.failure_status.value == e["status"] and p.is_valid == (e["status"] == rp.OK), lambda: f"{what}: {p.failure_status}, expected {e['status']}")
            if not close(p.shaft_power_mw, e["power2"], rel=1e-7):
                t.same(p.shaft_power_mw, e["power"], f"{what}: power", rel=1e-7)
            t.same(p.operational_volumetric_rate_m3_per_hour, e["rate"], f"{what}: operating rate")
            t.same(p.recirculation_rate_m3_per_hour, e["rate"] - row[0] / 24 if row[0] > 0 else 0.0, f"{what}: recirculation", abs_=1e-7)
            t.same(p.operational_head_joule_per_kg, e["head"], f"{what}: operating head", rel=1e-9, abs_=1e-6)
            delivered = row[1] + e["head"] * row[3] / 1e5
            t.same(p.operational_discharge_pressure_bara, delivered, f"{what}: delivered pressure")
            t.same(p.choke_pressure_drop_bara, max(0.0, delivered - row[2]) if True else 0, f"{what}: choke", abs_=1e-7)
            if row[0] > 0:
                t.check(p.is_valid <= (min(s for s, _ in c) <= p.speed_rpm <= max(s for s, _ in c)), f"{what}: speed {p.speed_rpm}")
                if p.is_valid and len(c) > 1:
                    # the interpolated curve at the reported speed passes through the operating point
                    below = max([x for x in c if x[0] <= p.speed_rpm], key=lambda x: x[0])
                    above = min([x for x in c if x[0] >= p.speed_rpm], key=lambda x: x[0])
                    hb, ha = (rp.interp(e["rate"], [a[0] for a in x[1]], [a[1] for a in x[1]]) for x in (below, above))
                    f = 0.0 if above[0] == below[0] else (p.speed_rpm - below[0]) / (above[0] - below[0])
                    h = hb + f * (ha - hb)
                    if p.speed_rpm > c[0][0]:
                        t.same(h, e["head"], f"{what}: head at reported speed {p.speed_rpm}", rel=1e-7)
            s = [o.connection_streams[x.get_id()] for x in cons]
            for x, st in zip(cons, s):
                t.same(st.density_kg_per_m3, row[3], f"{what}: density")
                to = units[x.get_to_process_unit_id()]
                frm = units[x.get_from_process_unit_id()]
                inside = frm.get_id() == loop.mixer_id or to.get_id() == loop.splitter_id
                t.same(st.mass_rate_kg_per_h, (e["rate"] if inside else row[0] / 24) * row[3], f"{what}: mass rate {frm.name if hasattr(frm, 'name') else ''}", rel=1e-9, abs_=1e-7)
            t.same(s[0].pressure_bara, row[1], f"{what}: inlet pressure")
            t.same(s[-1].pressure_bara, min(delivered, row[2]), f"{what}: outlet pressure", rel=1e-9)
            t.outcome(e["status"])

    ck.explore("process pump", process_pump)
