"""C08: consumer systems.  All ordered lists of operational settings up to the bound (own rates, rate fractions, cross-over in every legal
direction, common and individual pressures and densities) over all pairs/triples of member machines, each run over a grid of total rates and
pressures that crosses every capacity limit, are evaluated by the real model and compared with an independent choice of setting built on the
reference pump / reference table."""

import itertools
from datetime import timedelta

from libecalc.presentation.json_result.mapper import get_asset_result

from mc import refpump as rp
from mc.core import Prune, close
from mc.e2e import D, csv, fuel, interp, run as run_model

BIG = csv(["POWER", "FUEL"], [[0, 0], [1000, 1000]])
PUMPS = {
    "small": [(3000, [(100, 4000, 0.5), (300, 3000, 0.8), (500, 1500, 0.6)])],
    "large": [(3000, [(300, 4500, 0.5), (700, 3500, 0.9), (1000, 1500, 0.7)])],
    "vsd": [(1000, [(60, 900, 0.5), (300, 500, 0.6)]), (3000, [(150, 3800, 0.6), (500, 3000, 0.8), (800, 1200, 0.7)])],
}
TABLES = {"t100": ([0.0, 50.0, 100.0], [0.0, 30.0, 80.0]), "t200": ([20.0, 120.0, 200.0], [25.0, 70.0, 190.0]), "t60": ([10.0, 60.0], [5.0, 40.0])}


def is_legal(cross):
    """a consumer either gives or receives"""
    givers = {i for i, x in enumerate(cross) if x}
    takers = {x - 1 for x in cross if x}
    return not givers & takers


def run(ck):
    ck.bounds.update(members=[1, 2, 3], settings="1..3 (pairs), 1..2 (triples)", grid="rates across every capacity limit x 3 pressure pairs")
    ck.assumptions += ["within 1e-9 of a capacity limit either classification is accepted"]

    def model(cal, members, settings, rows, kind, opts):
        n = len(rows)
        cols = {"Q": [r["Q"] for r in rows], "PS": [r["PS"] for r in rows], "PD": [r["PD"] for r in rows], "LO": [r["PD"] - r["drop"] for r in rows]}
        for k in ("C", "G", "L"):
            cols[k] = [r[k] for r in rows]
        ops = []
        m = len(members)
        for s in settings:
            o = {}
            if s["how"] == "fractions":
                o["RATE_FRACTIONS"] = list(s["f"])
            else:
                o["RATES"] = [f"S;Q {{*}} {f}" for f in s["f"]]
            if s.get("ps") == "list":
                o["SUCTION_PRESSURES"] = ["S;PS"] * m
            else:
                o["SUCTION_PRESSURE"] = "S;PS"
            if s["pd"] == "common":
                o["DISCHARGE_PRESSURE"] = "S;PD"
            else:
                o["DISCHARGE_PRESSURES"] = ["S;LO" if i in s["pd"] else "S;PD" for i in range(m)]
            if any(s["cross"]) or s.get("explicit cross"):
                o["CROSSOVER"] = list(s["cross"])
            if s.get("rho"):
                o["FLUID_DENSITIES"] = list(s["rho"])
            ops.append(o)
        em = {"OPERATIONAL_SETTINGS": ops, "TOTAL_SYSTEM_RATE": "S;Q"}
        if opts.get("cond"):
            em["CONDITION"] = "S;C > 0"
        if opts.get("plf"):
            em["POWERLOSSFACTOR"] = "S;L"
        fac = {"g.csv": BIG}
        finputs = [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}]
        if kind == "pump":
            em.update(TYPE="PUMP_SYSTEM", FLUID_DENSITY=1000, PUMPS=[{"NAME": f"m{i}", "CHART": c} for i, c in enumerate(members)])
            for c in sorted(set(members)):
                fac[f"{c}.csv"] = csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], [[sp, q, h, e] for sp, pts in PUMPS[c] for q, h, e in pts])
                finputs.append({"NAME": c, "TYPE": "PUMP_CHART_SINGLE_SPEED" if len(PUMPS[c]) == 1 else "PUMP_CHART_VARIABLE_SPEED", "FILE": f"{c}.csv", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}})
        else:
            del em["TOTAL_SYSTEM_RATE"]
            em = {"TYPE": "COMPRESSOR_SYSTEM", "TOTAL_SYSTEM_RATE": "S;Q", **em, "COMPRESSORS": [{"NAME": f"m{i}", "COMPRESSOR_MODEL": c} for i, c in enumerate(members)]}
            for c in sorted(set(members)):
                fac[f"{c}.csv"] = csv(["RATE", "POWER" if kind == "power" else "FUEL"], list(zip(*TABLES[c])))
                finputs.append({"NAME": c, "TYPE": "COMPRESSOR_TABULAR", "FILE": f"{c}.csv"})
        sysm = {"NAME": "sys", "CATEGORY": "PUMP" if kind == "pump" else "COMPRESSOR", "ENERGY_USAGE_MODEL": opts["dated"](em) if "dated" in opts else em}
        inst = {"NAME": "i", "FUEL": "gas"}
        if opts.get("reg"):
            inst["REGULARITY"] = "S;G"
        if kind == "fuel":
            inst["FUELCONSUMERS"] = [sysm]
        else:
            inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [sysm]}]
        doc = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": finputs,
            "FUEL_TYPES": [fuel()],
            "START": cal[0],
            "END": cal[-1],
            "INSTALLATIONS": [inst],
        }
        ts = {"s.csv": csv(["DATE", *cols], [[d.strftime("%d.%m.%Y"), *[cols[k][j] for k in cols]] for j, d in enumerate(cal[:-1])])}
        return run_model(doc, ts, fac)

    def member(kind, name, rate, ps, pd, rho):
        """-> (energy, valid, slack)"""
        if kind == "pump":
            e = rp.simulate(rp.chart(PUMPS[name]), rate, ps, pd, rho)
            return e["power"], e["status"] == rp.OK, e["slack"]
        xs, ys = TABLES[name]
        if rate <= 0:
            return 0.0, True, 1.0
        slack = abs(rate - xs[-1]) / xs[-1]
        return interp(rate, xs, ys), rate <= xs[-1] * (1 + 1e-12), slack

    def capacity(kind, name, ps, pd, rho):
        if kind == "pump":
            return rp.max_rate_at_head(rp.chart(PUMPS[name]), rp.head_of(ps, pd, rho)) * 24
        return TABLES[name][0][-1]

    def expected(kind, members, settings, row, opts):
        reg = row["G"] if opts.get("reg") else 1.0
        q = row["Q"] / reg if reg > 0 else 0.0
        if opts.get("cond") and not row["C"] > 0:
            q = 0.0
        tried = []
        for s in settings:
            rates = [q * f for f in s["f"]]
            pds = [row["PD"] - row["drop"] if s["pd"] != "common" and i in s["pd"] else row["PD"] for i in range(len(members))]
            rhos = s.get("rho") or [1000.0] * len(members)
            own = list(rates)
            slack = 1.0
            for i, to in enumerate(s["cross"]):
                if to:
                    cap = capacity(kind, members[i], row["PS"], pds[i], rhos[i])
                    if pds[to - 1] >= pds[i] and own[i] > cap:
                        rates[to - 1] += own[i] - cap
                        rates[i] -= own[i] - cap
            res = [member(kind, m, r, row["PS"], d, h) for m, r, d, h in zip(members, rates, pds, rhos)]
            # a member set exactly to its capacity by the cross-over is at its limit, not in doubt
            tight = min([x[2] for x in res if 0 < x[2] < 1e-9] or [1.0])
            tried.append((rates, res, all(v for _, v, _ in res), min(slack, tight)))
            if tried[-1][2]:
                break
        doubt = any(t[3] < 1 for t in tried)
        rates, res, ok, _ = tried[-1]
        loss = row["L"] if opts.get("plf") else 0.0
        return dict(setting=len(tried), rates=rates, energy=sum(e for e, _, _ in res) / (1 - loss), valid=ok, doubt=doubt, members=res, q=q, tried=tried)

    def check(t, kind, members, settings, rows, opts):
        cal = [D(2020) + timedelta(days=7 * k) for k in range(len(rows) + 1)]
        m = model(cal, members, settings, rows, kind, opts)
        r = get_asset_result(m)
        t.step(len(rows))
        c = {x.name: x for x in r.sub_components}["sys"]
        energy = c.energy_usage.values
        power = c.power.values if c.power is not None else None
        mods = {x.name: x for x in r.models}
        t.check(set(mods) == {f"m{i}" for i in range(len(members))}, lambda: f"members reported {sorted(mods)}")
        for k, row in enumerate(rows):
            e = expected(kind, members, settings, row, opts)
            what = f"period {k} {row}"
            t.state(kind, tuple(members), repr(settings), e["setting"], e["valid"])
            if e["doubt"]:
                t.outcome("at limit")
                continue
            t.check(c.operational_settings_used.values[k] == e["setting"], lambda: f"{what}: setting {c.operational_settings_used.values[k]}, expected {e['setting']}")
            t.check(bool(c.is_valid.values[k]) == e["valid"], lambda: f"{what}: valid={c.is_valid.values[k]}, expected {e['valid']}")
            if kind == "pump" or e["valid"]:
                reg = (row["G"] if opts.get("reg") else 1.0) if kind == "fuel" else 1.0
                t.same(energy[k], e["energy"] * reg, f"{what}: energy", rel=1e-7)
                if kind != "fuel":
                    t.same(power[k], e["energy"], f"{what}: power", rel=1e-7)
            for i in range(len(members)):
                mod = mods[f"m{i}"]
                t.check(bool(_v(mod.is_valid)[k]) == e["members"][i][1], lambda: f"{what}: member {i} valid={_v(mod.is_valid)[k]}")
                if kind == "pump":
                    t.same(_v(mod.inlet_liquid_rate_m3_per_day)[k], e["rates"][i], f"{what}: member {i} rate", abs_=1e-6)
                    t.same(_v(mod.power)[k], e["members"][i][0], f"{what}: member {i} power", rel=1e-7)
            if kind == "pump":
                total = sum(_v(mods[f"m{i}"].inlet_liquid_rate_m3_per_day)[k] for i in range(len(members)))
                t.same(total, e["q"] * sum(settings[e["setting"] - 1]["f"]), f"{what}: total rate", abs_=1e-6)
            t.outcome((e["setting"], "valid" if e["valid"] else "invalid", "crossover" if any(s["cross"][i] for s in settings[: e["setting"]] for i in range(len(members))) else ""))

    def _v(x):
        return x.values if hasattr(x, "values") else x

    def rows_for(kind, few=False):
        # total rates around every capacity: per day
        if kind == "pump":
            qs = [0.0, 100.0, 6000.0, 11999.0, 15000.0, 21000.0, 27000.0, 36000.0, 60000.0]
            prs = [(10.0, 25.0, 2.0), (10.0, 45.0, 6.0), (10.0, 12.0, 1.5)]
        else:
            qs = [0.0, 5.0, 40.0, 99.0, 101.0, 150.0, 199.0, 230.0, 290.0, 400.0]
            prs = [(10.0, 20.0, 2.0)]
        if few:
            qs = qs[1::2]
        out = []
        for j, (q, (ps, pd, drop)) in enumerate(itertools.product(qs, prs)):
            out.append({"Q": q, "PS": ps, "PD": pd, "drop": drop, "C": j % 3, "G": [1.0, 0.5, 0.9, 0.0][j % 4], "L": [0.0, 0.1, 0.4][j % 3]})
        return out

    def setting(f, how="fractions", cross=None, pd="common", **kw):
        return {"f": f, "how": how, "cross": cross or [0] * len(f), "pd": pd, **kw}

    PAIR = [
        setting([1.0, 0.0]),
        setting([0.5, 0.5], how="rates", **{"explicit cross": True}),
        setting([1.0, 0.0], cross=[2, 0]),
        setting([0.3, 0.7], pd=(0,), how="rates"),
        setting([0.8, 0.2], cross=[2, 0], pd=(1,)),  # receiver delivers at lower pressure: no transfer
        setting([0.2, 0.8], cross=[0, 1], pd=(1,), rho=[1000.0, 900.0]),
        setting([0.0, 1.0], ps="list"),
    ]

    def pairs(kind, names):
        def scenario(t):
            a = t.pick("first", names)
            b = t.pick("second", names)
            n = t.pick("settings", [1, 2, 3])
            if n == 3 and (a, b) not in ((names[0], names[1]),) + (() if ck.quick else ((names[-1], names[0]),)):
                raise Prune
            chosen = [t.pick(f"setting{i}", PAIR) for i in range(n)]
            if kind != "pump":
                chosen = [{k: v for k, v in s.items() if k != "rho"} for s in chosen]
            if n == 3 and any(chosen[i] == chosen[i + 1] for i in range(n - 1)):
                raise Prune
            check(t, kind, [a, b], chosen, rows_for(kind, few=ck.quick and n > 1), {})

        return scenario

    ck.explore("pump pairs", pairs("pump", list(PUMPS)))
    ck.explore("compressor pairs (electric)", pairs("power", list(TABLES)))

    def options(t):
        kind = t.pick("kind", ["pump", "power", "fuel"])
        names = list(PUMPS if kind == "pump" else TABLES)
        opts = {"cond": t.flip("condition"), "reg": t.flip("regularity"), "plf": t.flip("power loss") if kind != "fuel" else False}
        s = t.pick("settings", [[0, 2], [2, 1], [3, 5], [4, 6, 2]])
        chosen = [{k: v for k, v in PAIR[i].items() if k != "rho" or kind == "pump"} for i in s]
        check(t, kind, [names[0], t.pick("second", names)], chosen, rows_for(kind), opts)

    ck.explore("condition, regularity, loss", options)

    TRIPLE = [
        setting([1.0, 0.0, 0.0]),
        setting([0.6, 0.4, 0.0], cross=[3, 3, 0]),
        setting([0.4, 0.3, 0.3], cross=[0, 1, 1]),
        setting([0.5, 0.5, 0.0], cross=[3, 0, 0], pd=(2,)),
        setting([0.2, 0.4, 0.4], cross=[2, 0, 2], pd=(0,), how="rates"),
        setting([1 / 3, 1 / 3, 1 / 3], how="rates"),
    ]

    def triples(t):
        kind = t.pick("kind", ["pump", "power"])
        names = list(PUMPS if kind == "pump" else TABLES)
        mem = t.pick("members", [[names[0], names[1], names[2]], [names[0], names[0], names[1]], [names[2], names[1], names[0]]])
        n = t.pick("settings", [1, 2] if ck.quick else [1, 2, 3])
        chosen = [t.pick(f"setting{i}", TRIPLE) for i in range(n)]
        check(t, kind, mem, chosen, rows_for(kind, few=n > 1), {})

    ck.explore("triples", triples)

    def dated(t):
        """a system redefined at a date: each definition's own settings apply in its own periods"""
        kind = t.pick("kind", ["pump", "power", "fuel"])
        names = list(PUMPS if kind == "pump" else TABLES)
        rows = rows_for(kind, few=True)
        cut = t.pick("redefined after period", [1, 3, len(rows) - 1])
        late = t.flip("nothing before the date")
        s1 = [PAIR[i] for i in t.pick("first settings", [[0], [0, 1], [2]])]
        s2 = [PAIR[i] for i in t.pick("second settings", [[1], [0, 2], [6, 1]])]
        cal = [D(2020) + timedelta(days=7 * k) for k in range(len(rows) + 1)]
        second = {}

        def redate(em):
            other = {**em, "OPERATIONAL_SETTINGS": second["ops"]}
            return {cal[cut]: other} if late else {cal[0]: em, cal[cut]: other}

        def ops_of(s):
            box = {}

            def grab(em):
                box["ops"] = em["OPERATIONAL_SETTINGS"]
                return em

            model(cal, names[:2], s, rows, kind, {"dated": grab})
            return box["ops"]

        second["ops"] = ops_of(s2)
        m = model(cal, names[:2], s1, rows, kind, {"dated": redate})
        r = get_asset_result(m)
        t.step(len(rows))
        c = {x.name: x for x in r.sub_components}["sys"]
        for k, row in enumerate(rows):
            if k < cut and late:
                t.check(c.is_valid.values[k] and c.energy_usage.values[k] == 0, f"period {k}: nothing is defined but {c.energy_usage.values[k]}")
                continue
            e = expected(kind, names[:2], s1 if k < cut else s2, row, {})
            if e["doubt"]:
                continue
            t.check(c.operational_settings_used.values[k] == e["setting"], lambda: f"period {k}: setting {c.operational_settings_used.values}, expected {e['setting']}")
            t.check(bool(c.is_valid.values[k]) == e["valid"], lambda: f"period {k}: valid={c.is_valid.values[k]}")
            if kind == "pump" or e["valid"]:
                t.same(c.energy_usage.values[k], e["energy"], f"period {k}: energy", rel=1e-7)
        t.state(kind, cut, late, repr(s1), repr(s2))

    ck.explore("redefined systems", dated)
