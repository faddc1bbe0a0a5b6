"""A tiny independent reference implementation of an eCalc asset: abstract description -> (YAML, CSV) and -> expected numbers.

Everything is per period; values are vectors over the periods of the calendar.  Only direct loads, tabulated
compressors, generator sets, direct fuel users and venting emitters are modelled; that is enough for the structural
properties (sums, losses, emissions, validity, exports), which do not depend on how a consumer finds its own energy.
"""

from __future__ import annotations

import copy
import math
from datetime import time

from mc.e2e import csv, interp

CURVE = ([0.0, 10.0, 20.0], [0.0, 100.0, 150.0])
COMP = ([0.0, 100.0, 200.0], [0.0, 40.0, 100.0], [0.0, 4.0, 9.0])  # rate, fuel, power


def vec(x, n):
    return [float(v) for v in x] if isinstance(x, (list, tuple)) else [float(x)] * n


class Asset:
    def __init__(self, cal, fuels, installations, start=True):
        self.cal = cal
        self.n = len(cal) - 1
        self.fuels = fuels
        self.installations = installations

    # ------------------------------------------------------------------ to YAML
    def build(self):
        n = self.n
        cols: dict[str, list] = {}
        curves: dict[str, tuple] = {}
        comps: dict[str, tuple] = {}

        def col(v):
            if not isinstance(v, (list, tuple)):
                return v
            name = f"C{len(cols)}"
            cols[name] = list(v)[:n]
            return f"S;{name}"

        def dated(v):
            """a list gives the value per period: written as a dated definition"""
            if not isinstance(v, (list, tuple)):
                return v
            return {self.cal[k]: v[k] for k in range(n) if k == 0 or v[k] != v[k - 1]}

        doc: dict = {"START": self.cal[0], "END": self.cal[-1]}
        fts = []
        for f, spec in self.fuels.items():
            ems = spec.get("emissions", spec) if isinstance(spec, dict) else spec
            d = {"NAME": f, "EMISSIONS": [{"NAME": e, "FACTOR": col(x)} for e, x in ems.items()]}
            if "emissions" in spec and spec.get("category"):
                d["CATEGORY"] = spec["category"]
            fts.append(d)
        insts = []
        for i in self.installations:
            d = {"NAME": i["name"]}
            for k, key in (("fuel", "FUEL"), ("category", "CATEGORY")):
                if k in i:
                    d[key] = dated(i[k])
            if "reg" in i:
                d["REGULARITY"] = col(i["reg"])
            if "hc" in i:
                d["HCEXPORT"] = col(i["hc"])
            gens = []
            for g in i.get("gens", []):
                cname = curves.setdefault(repr(g.get("curve", CURVE)), (f"gs{len(curves)}", g.get("curve", CURVE)))[0]
                gd = {"NAME": g["name"], "CATEGORY": dated(g.get("category", "TURBINE-GENERATOR")), "ELECTRICITY2FUEL": cname}
                if "fuel" in g:
                    gd["FUEL"] = dated(g["fuel"])
                if "cable" in g:
                    gd["CABLE_LOSS"] = col(g["cable"])
                if "max_shore" in g:
                    gd["MAX_USAGE_FROM_SHORE"] = col(g["max_shore"])
                cs = []
                for c in g["cons"]:
                    m = {"TYPE": "DIRECT", "LOAD": col(c["load"])}
                    if "plf" in c:
                        m["POWERLOSSFACTOR"] = col(c["plf"])
                    if "cond" in c:
                        m["CONDITION"] = f"{col(c['cond'])} > 0"
                    if "rt" in c:
                        m["CONSUMPTION_RATE_TYPE"] = c["rt"]
                    cs.append({"NAME": c["name"], "CATEGORY": dated(c.get("category", "BASE-LOAD")), "ENERGY_USAGE_MODEL": m})
                gd["CONSUMERS"] = cs
                gens.append(gd)
            if gens:
                d["GENERATORSETS"] = gens
            fcs = []
            for c in i.get("fcs", []):
                if "rate" in c:
                    cname = comps.setdefault(repr(c.get("table", COMP)), (f"ct{len(comps)}", c.get("table", COMP)))[0]
                    m = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": cname, "RATE": col(c["rate"]), "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 20}
                else:
                    m = {"TYPE": "DIRECT", "FUELRATE": col(c["fuelrate"])}
                    if "rt" in c:
                        m["CONSUMPTION_RATE_TYPE"] = c["rt"]
                if "cond" in c:
                    m["CONDITION"] = f"{col(c['cond'])} > 0"
                cd = {"NAME": c["name"], "CATEGORY": dated(c.get("category", "FLARE" if "fuelrate" in c else "COMPRESSOR")), "ENERGY_USAGE_MODEL": m}
                if "fuel" in c:
                    cd["FUEL"] = dated(c["fuel"])
                fcs.append(cd)
            if fcs:
                d["FUELCONSUMERS"] = fcs
            vents = []
            for v in i.get("vents", []):
                vd = {"NAME": v["name"], "CATEGORY": v.get("category", "COLD-VENTING-FUGITIVE")}

                def rate(x):
                    r = {"VALUE": col(x["value"])}
                    if "unit" in x:
                        r["UNIT"] = x["unit"]
                    if "rt" in x:
                        r["TYPE"] = x["rt"]
                    if "cond" in x:
                        r["CONDITION"] = f"{col(x['cond'])} > 0"
                    if "conds" in x:
                        r["CONDITIONS"] = [f"{col(q)} > 0" for q in x["conds"]]
                    return r

                if "emissions" in v:
                    vd["TYPE"] = "DIRECT_EMISSION"
                    vd["EMISSIONS"] = [{"NAME": e, "RATE": rate(x)} for e, x in v["emissions"].items()]
                else:
                    vd["TYPE"] = "OIL_VOLUME"
                    vd["VOLUME"] = {"RATE": rate(v["oil"]), "EMISSIONS": [{"NAME": e, "EMISSION_FACTOR": col(x)} for e, x in v["factors"].items()]}
                vents.append(vd)
            if vents:
                d["VENTING_EMITTERS"] = vents
            insts.append(d)
        fac = {}
        fi = []
        for name, (xs, ys) in curves.values():
            fi.append({"NAME": name, "TYPE": "ELECTRICITY2FUEL", "FILE": f"{name}.csv"})
            fac[f"{name}.csv"] = csv(["POWER", "FUEL"], list(zip(xs, ys)))
        for name, (r, f, p) in comps.values():
            fi.append({"NAME": name, "TYPE": "COMPRESSOR_TABULAR", "FILE": f"{name}.csv"})
            fac[f"{name}.csv"] = csv(["RATE", "FUEL", "POWER"], list(zip(r, f, p)))
        # a time series is always present: it also fixes the boundaries of the calendar
        cols["K"] = [0] * n
        rows = [[self.cal[k].strftime("%Y-%m-%d" if all(c.time() == time() for c in self.cal) else "%Y-%m-%d %H:%M:%S"), *[c[k] for c in cols.values()]] for k in range(n)]
        doc["TIME_SERIES"] = [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}]
        if fi:
            doc["FACILITY_INPUTS"] = fi
        doc["FUEL_TYPES"] = fts
        doc["INSTALLATIONS"] = insts
        return doc, {"s.csv": csv(["DATE", *cols], rows)}, fac

    # ------------------------------------------------------------------ expected numbers (all per period, lists)
    def expected(self):
        n = self.n
        out: dict[str, dict] = {}
        Z = [0.0] * n

        def add(a, b):
            return [(0.0 if math.isnan(x) else x) + (0.0 if math.isnan(y) else y) for x, y in zip(a, b)]

        def addem(tot, e):
            for k, v in e.items():
                tot[k] = add(tot.get(k, Z), v)

        asset = {"fuel": Z, "electrical": None, "mechanical": None, "emissions": {}, "valid": [True] * n, "hc": Z}

        def factors(f):
            if isinstance(f, (list, tuple)):
                per = {x: factors(x) for x in set(f)}
                return {e: [per[x].get(e, Z)[k] for k, x in enumerate(f)] for e in {e for q in per.values() for e in q}}
            spec = self.fuels[f]
            return {e: vec(x, n) for e, x in spec.get("emissions", spec).items()}

        for i in self.installations:
            reg = vec(i.get("reg", 1.0), n)
            # installation totals; powers are stream day
            I = {"fuel": Z, "electrical": None, "mechanical": None, "emissions": {}, "valid": [True] * n, "hc": vec(i.get("hc", 0.0), n), "reg": reg}
            for g in i.get("gens", []):
                xs, ys = g.get("curve", CURVE)
                xs, ys = list(xs), list(ys)
                order = sorted(range(len(xs)), key=lambda k: xs[k])
                xs, ys = [xs[k] for k in order], [ys[k] for k in order]
                need = Z
                for c in g["cons"]:
                    load = vec(c["load"], n)
                    if c.get("rt") == "CALENDAR_DAY":
                        load = [x / r if r else 0.0 for x, r in zip(load, reg)]
                    if "cond" in c:
                        load = [x if q > 0 else 0.0 for x, q in zip(load, vec(c["cond"], n))]
                    plf = vec(c.get("plf", 0.0), n)
                    p = [x / (1 - q) for x, q in zip(load, plf)]
                    out[c["name"]] = {"power": p, "valid": [True] * n, "reg": reg}
                    need = add(need, p)
                    I["electrical"] = add(I["electrical"] or Z, p)
                f = [interp(p, xs, ys) if p > 0 else 0.0 for p in need]
                cal = [x * r for x, r in zip(f, reg)]
                em = {e: [c * x / 1000 for c, x in zip(cal, fx)] for e, fx in factors(g.get("fuel", i.get("fuel"))).items()}
                margin = [xs[-1] - p for p in need]
                cable = vec(g.get("cable", 0.0), n)
                out[g["name"]] = {
                    "fuel": cal, "power": need, "emissions": em, "margin": margin, "valid": [m >= 0 for m in margin],
                    "production": [p * (1 + q) for p, q in zip(need, cable)], "reg": reg,
                }  # fmt: skip
                I["fuel"] = add(I["fuel"], cal)
                addem(I["emissions"], em)
                I["valid"] = [a and b for a, b in zip(I["valid"], out[g["name"]]["valid"])]
            for c in i.get("fcs", []):
                valid = [True] * n
                power = None
                if "rate" in c:
                    r_, f_, p_ = c.get("table", COMP)
                    rate = [x / r if r else 0.0 for x, r in zip(vec(c["rate"], n), reg)]  # given per calendar day
                    if "cond" in c:
                        rate = [x if q > 0 else 0.0 for x, q in zip(rate, vec(c["cond"], n))]
                    sd = [interp(x, r_, f_) if x > 0 else 0.0 for x in rate]
                    power = [interp(x, r_, p_) if x > 0 else 0.0 for x in rate]
                    valid = [x <= r_[-1] for x in rate]
                    if not all(valid):
                        sd = [x if v else math.nan for x, v in zip(sd, valid)]
                        power = [x if v else math.nan for x, v in zip(power, valid)]
                else:
                    sd = vec(c["fuelrate"], n)
                    if c.get("rt") == "CALENDAR_DAY":
                        sd = [x / r if r else 0.0 for x, r in zip(sd, reg)]
                    if "cond" in c:
                        sd = [x if q > 0 else 0.0 for x, q in zip(sd, vec(c["cond"], n))]
                cal = [x * r for x, r in zip(sd, reg)]
                em = {e: [q * x / 1000 for q, x in zip(cal, fx)] for e, fx in factors(c.get("fuel", i.get("fuel"))).items()}
                out[c["name"]] = {"fuel": cal, "emissions": em, "valid": valid, "mech": power, "reg": reg}
                if power is not None:
                    I["mechanical"] = add(I["mechanical"] or Z, power)
                I["fuel"] = add(I["fuel"], cal)
                addem(I["emissions"], em)
                I["valid"] = [a and b for a, b in zip(I["valid"], valid)]
            for v in i.get("vents", []):
                em = {}

                def calendar(x):
                    val = vec(x["value"], n)
                    conds = [x["cond"]] if "cond" in x else x.get("conds", [])
                    for q in conds:
                        val = [a if b > 0 else 0.0 for a, b in zip(val, vec(q, n))]
                    if x.get("rt", "STREAM_DAY") == "STREAM_DAY":
                        return [a * r for a, r in zip(val, reg)]
                    return [a if r else 0.0 for a, r in zip(val, reg)]

                if "emissions" in v:
                    for e, x in v["emissions"].items():
                        scale = 1e-3 if x.get("unit", "KG_PER_DAY") == "KG_PER_DAY" else 1.0
                        em[e.lower()] = [a * scale for a in calendar(x)]
                else:
                    oil = calendar(v["oil"])
                    for e, x in v["factors"].items():
                        em[e.lower()] = [a * f / 1000 for a, f in zip(oil, vec(x, n))]
                    out[v["name"]] = {"oil": oil}
                out.setdefault(v["name"], {}).update({"fuel": Z, "emissions": em, "valid": [True] * n, "reg": reg})
                addem(I["emissions"], em)
            out[i["name"]] = I
            asset["fuel"] = add(asset["fuel"], I["fuel"])
            for k in ("electrical", "mechanical"):
                if I[k] is not None:
                    asset[k] = add(asset[k] or Z, I[k])
                    asset[k + "_cal"] = add(asset.get(k + "_cal") or Z, [p * r for p, r in zip(I[k], reg)])
            addem(asset["emissions"], I["emissions"])
            asset["valid"] = [a and b for a, b in zip(asset["valid"], I["valid"])]
            asset["hc"] = add(asset["hc"], I["hc"])
        return asset, out

    def days(self):
        return [(b - a).total_seconds() / 86400 for a, b in zip(self.cal[:-1], self.cal[1:])]

    def cum(self, rate):
        acc, out = 0.0, []
        for r, d in zip(rate, self.days()):
            acc += 0.0 if math.isnan(r) else r * d
            out.append(acc)
        return out

    def copy(self):
        return copy.deepcopy(self)


# ---------------------------------------------------------------------- comparison with a real result
def compare(t, a: Asset, r, cumulatives=True):
    """r: EcalcModelResult of the real code for asset ``a``"""
    from libecalc.common.utils.rates import RateType

    exp_asset, exp = a.expected()
    comps = {c.name: c for c in r.sub_components}
    t.check(len(comps) == len(r.sub_components), "a component is reported twice")
    t.check(set(comps) == set(exp), lambda: f"components reported {sorted(comps)}, expected {sorted(exp)}")
    cal = list(zip(a.cal[:-1], a.cal[1:]))

    def rate(s, want, what, basis):
        t.check([(p.start, p.end) for p in s.periods] == cal, f"{what}: periods {s.periods}")
        t.check(s.rate_type == basis, f"{what}: reported on {s.rate_type}")
        # a sum in which the only contribution is undefined (invalid period) may be reported as missing or as zero
        t.same([0.0 if w == 0.0 and not ok and math.isnan(v) else v for v, w, ok in zip(s.values, want, valid)] if len(s.values) == len(want) else s.values, want, what)

    for name, c in [(None, r.component_result), *comps.items()]:
        e = exp_asset if name is None else exp[name]
        what = name or "asset"
        valid = e["valid"]
        t.same(c.is_valid.values, e["valid"], f"{what} validity")
        if "fuel" in e:
            rate(c.energy_usage, e["fuel"], f"{what} fuel", RateType.CALENDAR_DAY)
            t.check(str(c.energy_usage.unit) == "Sm3/d", f"{what} fuel unit {c.energy_usage.unit}")
            if cumulatives:
                t.same(c.energy_usage_cumulative.values, a.cum(e["fuel"]), f"{what} cumulative fuel")
                t.check(str(c.energy_usage_cumulative.unit) == "Sm3", f"{what} cumulative fuel unit")
        if "power" in e:
            rate(c.power, e["power"], f"{what} power", RateType.STREAM_DAY)
            if cumulatives:
                t.same(c.power_cumulative.values, [x * 24 / 1000 for x in a.cum([p * q for p, q in zip(e["power"], e["reg"])])], f"{what} cumulative power")
                t.check(str(c.power_cumulative.unit) == "GWh", f"{what} cumulative power unit")
            if "fuel" not in e:
                t.same(c.energy_usage.values, e["power"], f"{what} energy usage")
        if "margin" in e:
            t.same(c.power_capacity_margin.values, e["margin"], f"{what} capacity margin")
        if e.get("mech") is not None:
            rate(c.power, e["mech"], f"{what} shaft power", RateType.STREAM_DAY)
        if "hc" in e:
            rate(c.hydrocarbon_export_rate, e["hc"], f"{what} export", RateType.CALENDAR_DAY)
            tot = None
            for k in ("electrical", "mechanical"):
                s = getattr(c, f"power_{k}")
                if e[k] is None:
                    t.check(s is None or not any(s.values), f"{what} {k} power reported although there is no consumer")
                else:
                    rate(s, e[k], f"{what} {k} power", RateType.STREAM_DAY)
                    tot = [x + y for x, y in zip(tot or [0.0] * a.n, e[k])]
                    if cumulatives:
                        kc = e.get(k + "_cal") or [x * q for x, q in zip(e[k], e["reg"])]
                        t.same(getattr(c, f"power_{k}_cumulative").values, [x * 24 / 1000 for x in a.cum(kc)], f"{what} cumulative {k} power")
            if tot is not None:
                rate(c.power, tot, f"{what} total power", RateType.STREAM_DAY)
                if cumulatives:
                    tc = [0.0] * a.n
                    for k in ("electrical", "mechanical"):
                        if e[k] is not None:
                            kc = e.get(k + "_cal") or [x * q for x, q in zip(e[k], e["reg"])]
                            tc = [x + y for x, y in zip(tc, kc)]
                    t.same(c.power_cumulative.values, [x * 24 / 1000 for x in a.cum(tc)], f"{what} cumulative total power")
        want = e.get("emissions", {})
        t.check(set(c.emissions) == set(want), lambda: f"{what} emissions {sorted(c.emissions)}, expected {sorted(want)}")
        for k, v in want.items():
            rate(c.emissions[k].rate, v, f"{what} {k} emission", RateType.CALENDAR_DAY)
            t.check(str(c.emissions[k].rate.unit) == "t/d", f"{what} emission unit")
            if cumulatives:
                t.same(c.emissions[k].cumulative.values, a.cum(v), f"{what} cumulative {k} emission")
                t.check(str(c.emissions[k].cumulative.unit) == "t", f"{what} cumulative emission unit")
    # reported hierarchy
    for i in a.installations:
        t.check(comps[i["name"]].parent == r.component_result.name, f"parent of {i['name']}")
        for g in i.get("gens", []):
            t.check(comps[g["name"]].parent == i["name"], f"parent of {g['name']} is {comps[g['name']].parent}")
            for c in g["cons"]:
                t.check(comps[c["name"]].parent == g["name"], f"parent of {c['name']} is {comps[c['name']].parent}")
        for k in ("fcs", "vents"):
            for c in i.get(k, []):
                t.check(comps[c["name"]].parent == i["name"], f"parent of {c['name']} is {comps[c['name']].parent}")
    return comps
