"""C26: turbines.  All load vectors over the interesting points of each turbine table (zero, tiny, on, between, at and just above the maximum)
combined with every power adjustment of the turbine and of the driven compressor, every regularity and condition, table order and way of
driving (single consumer, dated models, member of a system with cross-over) run through the real model; fuel, load, efficiency, validity and
the unchanged compressor result are compared with the documented formula computed independently."""

from libecalc.presentation.json_result.mapper import get_asset_result

from mc.core import close
from mc.e2e import D, csv, fuel, interp, run as run_model

CAL = [D(2020), D(2020, 7, 1), D(2021)]
TABLES = {
    "doc": ([0, 2.352, 4.589, 6.853, 9.125, 22.767], [0, 0.138, 0.21, 0.255, 0.286, 0.362]),
    "flat": ([0.0, 20.0], [0.25, 0.25]),
    "falling": ([0.0, 10.0, 20.0], [0.1, 0.4, 0.3]),
    "two": ([0, 1], [0, 1]),
}
ADJ = [(1.0, 0.0), (1.0, 2.0), (1.25, 0.0), (0.8, -0.5)]
IDENTITY = csv(["RATE", "POWER"], [[0, 0], [10, 10], [1000, 1000]])
SHIFTED = csv(["RATE", "DISCHARGE_PRESSURE", "POWER"], [[10, 10, 10], [1000, 10, 1000], [10, 100, 10], [1000, 100, 1000]])


def turbine(table, lhv, adj, name="tb", order="as is"):
    loads, eff = table
    if order == "reversed":
        loads, eff = loads[::-1], eff[::-1]
    d = {"NAME": name, "TYPE": "TURBINE", "LOWER_HEATING_VALUE": lhv, "TURBINE_LOADS": list(loads), "TURBINE_EFFICIENCIES": list(eff)}
    if adj != (1.0, 0.0):
        d.update(POWER_ADJUSTMENT_FACTOR=adj[0], POWER_ADJUSTMENT_CONSTANT=adj[1])
    return d


def driven(name, compressor, tb, adj):
    d = {"NAME": name, "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": compressor, "TURBINE_MODEL": tb}
    if adj != (1.0, 0.0):
        d.update(POWER_ADJUSTMENT_FACTOR=adj[0], POWER_ADJUSTMENT_CONSTANT=adj[1])
    return d


def load_of(p, cadj, tadj):
    x = p * cadj[0] + cadj[1] if p > 0 else p
    return (x + tadj[1]) / tadj[0] if x > 0 else x


def shaft_for(load, cadj, tadj):
    """the compressor power that gives this turbine load"""
    return ((load * tadj[0] - tadj[1]) - cadj[1]) / cadj[0]


def expected(p, table, lhv, cadj, tadj):
    """-> load, fuel (None when the load is outside the table), valid (None when too close to the limit to call)"""
    load = load_of(p, cadj, tadj)
    top = max(table[0])
    valid = load <= top if abs(load - top) > 1e-9 * top else None
    if load <= 0:
        return load, 0.0, True
    if valid is False:
        return load, None, False
    eff = interp(load, *table)
    return load, load * 86400 / lhv / eff if eff else 0.0, valid


def run(ck):
    ck.bounds.update(tables=len(TABLES), adjustments=len(ADJ), periods=[2, 3])
    ck.assumptions += ["turbine loads start with 0, as documented", "fuel in periods reported invalid is not compared", "within 1e-9 of the maximum either validity is accepted"]

    def points(table, cadj, tadj):
        xs = table[0]
        top = xs[-1]
        loads = [xs[1] / 2, top, top * 1.001, top * 2, top * 0.999] + [(a + b) / 2 for a, b in zip(xs[1:-1], xs[2:])] + list(xs[1:-1])
        ps = [0.0, 0.01] + [shaft_for(x, cadj, tadj) for x in loads]
        return sorted({round(p, 9) for p in ps if p >= 0}, key=lambda v: v)

    def document(cal, models, em, facility=None, reg=None, cond=None, cols=None):
        cols = cols or {}
        em = dict(em)
        if cond:
            em["CONDITION"] = "S;C > 0"
            cols["C"] = cond
        inst = {"NAME": "i", "FUEL": "gas", "FUELCONSUMERS": [{"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": em}]}
        if reg:
            inst["REGULARITY"] = "S;G"
            cols["G"] = reg
        doc = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": "id", "TYPE": "COMPRESSOR_TABULAR", "FILE": "id.csv"}, {"NAME": "pd", "TYPE": "COMPRESSOR_TABULAR", "FILE": "pd.csv"}],
            "MODELS": models,
            "FUEL_TYPES": [fuel()],
            "START": cal[0],
            "END": cal[-1],
            "INSTALLATIONS": [inst],
        }
        ts = {"s.csv": csv(["DATE", *cols], [[d.strftime("%d.%m.%Y"), *[cols[k][j] for k in cols]] for j, d in enumerate(cal[:-1])])}
        return doc, ts, {"id.csv": IDENTITY, "pd.csv": SHIFTED, **(facility or {})}

    def evaluate(args):
        r = get_asset_result(run_model(*args))
        return r, {x.name: x for x in r.sub_components}["c"]

    def single(t):
        name = t.pick("table", list(TABLES))
        table = TABLES[name]
        tadj = t.pick("turbine adjustment", ADJ)
        cadj = t.pick("driver adjustment", ADJ if not ck.quick else ADJ[:3])
        lhv = 38.0 if t.flip("lhv 38") else 40.5
        pts = points(table, cadj, tadj)
        which = t.pick("compressor", ["rate", "rate and pressure"])
        # every point next to its neighbour: all consecutive pairs and the extremes
        k = t.pick("pair", list(range(len(pts))))
        reg = t.pick("regularity", [None, [1.0, 0.5], [0.0, 0.8]]) if (not ck.quick or k % 3 == 0) else None
        cond = t.pick("condition", [None, [0, 1]]) if not ck.quick else None
        order = t.pick("table order", ["as is", "reversed"]) if k == 1 else "as is"
        q = [pts[k], pts[(k + 3) % len(pts)]]
        g = reg or [1.0, 1.0]
        models = [turbine(table, lhv, tadj, order=order), driven("ct", "id" if which == "rate" else "pd", "tb", cadj)]
        em = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "ct", "RATE": "S;Q", "CONSUMPTION_RATE_TYPE": "STREAM_DAY"}
        em.pop("CONSUMPTION_RATE_TYPE")
        if which != "rate":
            em.update(SUCTION_PRESSURE=5, DISCHARGE_PRESSURE=50)
        cal_q = [x * r for x, r in zip(q, g)]
        r, c = evaluate(document(CAL, models, em, reg=reg, cond=cond, cols={"Q": cal_q}))
        t.step()
        m = [x for x in r.models if x.name.lower() == "ct" or True][0] if r.models else None
        for j in range(2):
            on = (not cond or cond[j]) and g[j] > 0
            p = q[j] if on else 0.0
            if which != "rate" and 0 < p < 10:
                p = 10.0  # recirculation up to the first tabulated rate
            load, f, ok = expected(p, table, lhv, cadj, tadj)
            if ok is None:
                continue
            t.check(c.is_valid.values[j] == ok, f"valid {c.is_valid.values[j]}, expected {ok}: shaft power {p}, load {load}, maximum {max(table[0])}")
            t.same(c.power.values[j], load, f"reported turbine load for shaft power {p}")
            if ok:
                t.same(c.energy_usage.values[j], f * g[j], f"fuel for shaft power {p} (load {load})")
                t.check(p > 0 or c.energy_usage.values[j] == 0, "no load burns nothing")
            if m is not None:
                t.same(m.turbine_result.power.values[j], load, "load in the turbine result")
                if load > 0 and ok:
                    t.same(m.turbine_result.efficiency.values[j], interp(load, *table), "turbine efficiency")
                t.check(m.turbine_result.is_valid.values[j] == ok, "validity in the turbine result")
                st = m.stage_results[0]
                t.same(st.power.values[j], p, "the compressor's own power")
                t.check(st.is_valid.values[j], "the compressor itself is valid")
            t.outcome((name, ok, load > 0))
        t.state(name, tadj, cadj, q)

    ck.explore("single", single)

    def temporal(t):
        """two turbines, one after the other, at a date that is / is not a time series date; three periods"""
        cal = [D(2020), D(2020, 7, 1), D(2021), D(2021, 3, 1)]
        names = [t.pick("first", list(TABLES)), t.pick("second", list(TABLES))]
        adjs = [t.pick("adj first", ADJ[:2]), t.pick("adj second", ADJ[:2])]
        at = t.pick("switch", [1, 2])
        level = t.pick("loads", [[5.0, 12.0, 0.9], [0.9, 25.0, 12.0], [0.0, 0.9, 19.5]])
        models = []
        for i in range(2):
            models += [turbine(TABLES[names[i]], 38, adjs[i], name=f"tb{i}"), driven(f"ct{i}", "id", f"tb{i}", adjs[1 - i])]
        em = {cal[0]: {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "ct0", "RATE": "S;Q"}, cal[at]: {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "ct1", "RATE": "S;Q"}}
        r, c = evaluate(document(cal, models, em, cols={"Q": level}))
        t.step()
        oks = []
        for j in range(3):
            i = int(j >= at)
            load, f, ok = expected(level[j], TABLES[names[i]], 38, adjs[1 - i], adjs[i])
            oks.append(ok)
            t.check(c.is_valid.values[j] == ok, f"period {j}: valid {c.is_valid.values[j]}, expected {ok} (load {load})")
            if ok:
                t.same(c.energy_usage.values[j], f, f"fuel in period {j}")
        inst = [x for x in r.sub_components if x.name == "i"][0]
        t.check(inst.is_valid.values == oks, f"installation validity {inst.is_valid.values}, expected {oks}")
        t.state(names, adjs, at, level)
        t.outcome(tuple(oks))

    ck.explore("temporal", temporal)

    def system(t):
        """two turbine driven compressors with cross-over: the sender keeps exactly what its turbine (or its table) allows"""
        which = t.pick("compressor", ["rate", "rate and pressure"])
        name = t.pick("table", ["flat", "falling", "doc"])
        table = TABLES[name]
        tadj, cadj = t.pick("turbine adjustment", ADJ), t.pick("driver adjustment", ADJ)
        top = max(table[0])
        cap = shaft_for(top, cadj, tadj)
        rates = [cap * f for f in t.pick("rates", [(0.5, 0.99, 1.01), (1.3, 1.9, 0.0), (2.2, 0.6, 1.5)])]
        cal = [D(2020), D(2020, 7, 1), D(2021), D(2021, 3, 1)]
        models = [turbine(table, 38, tadj), driven("ct", "id" if which == "rate" else "pd", "tb", cadj)]
        press = {"SUCTION_PRESSURE": 5, "DISCHARGE_PRESSURE": 50}
        first = t.flip("no cross-over first")
        ops = [{"RATES": ["S;Q", "S;Q {*} 0"], **press}] if first else []
        ops.append({"RATES": ["S;Q", "S;Q {*} 0"], "CROSSOVER": [2, 0], **press})
        em = {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "a", "COMPRESSOR_MODEL": "ct"}, {"NAME": "b", "COMPRESSOR_MODEL": "ct"}], "OPERATIONAL_SETTINGS": ops}
        r, c = evaluate(document(cal, models, em, cols={"Q": rates}))
        t.step()
        for j, q in enumerate(rates):
            own = min(q, cap)
            over = q - own
            valid = over <= cap
            t.check(c.is_valid.values[j] == valid, f"rate {q}, capacity {cap} each: valid {c.is_valid.values[j]}")
            if first and valid:
                t.check(c.operational_settings_used.values[j] == (2 if over > 0 else 1), f"setting {c.operational_settings_used.values[j]} for rate {q}, capacity {cap}")
            if valid:
                if which != "rate":
                    own, over = max(own, 10.0) if own else 0.0, max(over, 10.0) if over else 0.0
                f = [expected(x, table, 38, cadj, tadj)[1] for x in (own * (1 - 1e-12), over)]
                if None in f:
                    continue
                t.check(close(c.energy_usage.values[j], sum(f), rel=1e-3), f"fuel {c.energy_usage.values[j]}, expected {sum(f)} for rate {q}, capacity {cap}")
        t.state(name, tadj, cadj, rates)
        t.outcome(tuple(c.is_valid.values))

    ck.explore("system", system)
