"""C09: validity.  Every kind of consumer with every reason for being unable to deliver, in every subset of three periods, in every position
of the hierarchy, combined in pairs, changed at a date, started late, switched off by a condition and pushed over its capacity only by the
regularity, is run through the real model (also at yearly and monthly reporting): the component is invalid exactly in those periods and an
installation and the asset are valid exactly where everything below them is."""

import itertools

from libecalc.common.time_utils import Frequency
from libecalc.presentation.json_result.mapper import get_asset_result

from mc.e2e import D, csv, fuel, run as run_model

CAL = [D(2020), D(2020, 7, 1), D(2021, 1, 1), D(2022, 1, 1)]
CURVE = csv(["POWER", "FUEL"], [[0, 0], [100, 1000]])
SMALL = csv(["POWER", "FUEL"], [[0, 0], [20, 150]])
FAC = {
    "big.csv": CURVE,
    "small.csv": SMALL,
    "cp.csv": csv(["RATE", "POWER"], [[10, 1], [100, 4], [200, 9]]),
    "cf.csv": csv(["RATE", "FUEL"], [[10, 10], [100, 40], [200, 100]]),
    "cfp.csv": csv(["RATE", "FUEL", "POWER"], [[10, 10, 1], [100, 40, 4], [200, 100, 9]]),
    "c2.csv": csv(["RATE", "DISCHARGE_PRESSURE", "POWER"], [[10, 20, 1], [200, 20, 5], [10, 60, 4], [150, 60, 9]]),
    "tp.csv": csv(["RATE", "POWER"], [[0, 0], [200, 9]]),
    "tf.csv": csv(["RATE", "X", "FUEL"], [[0, 0, 0], [200, 0, 90], [0, 10, 50], [200, 10, 150]]),
    "pump.csv": csv(["RATE", "HEAD", "EFFICIENCY"], [[10, 4000, 0.5], [30, 3000, 0.8], [50, 1500, 0.6]]),
    "vsd.csv": csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], [[1000, 5, 900, 0.5], [1000, 15, 500, 0.6], [3000, 10, 4000, 0.6], [3000, 50, 1500, 0.8]]),
}
UNITS = {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}
FINPUTS = (
    [{"NAME": n, "TYPE": "ELECTRICITY2FUEL", "FILE": f"{n}.csv"} for n in ("big", "small")]
    + [{"NAME": n, "TYPE": "COMPRESSOR_TABULAR", "FILE": f"{n}.csv"} for n in ("cp", "cf", "cfp", "c2")]
    + [{"NAME": n, "TYPE": "TABULAR", "FILE": f"{n}.csv"} for n in ("tp", "tf")]
    + [{"NAME": "pump", "TYPE": "PUMP_CHART_SINGLE_SPEED", "FILE": "pump.csv", "UNITS": UNITS}, {"NAME": "vsd", "TYPE": "PUMP_CHART_VARIABLE_SPEED", "FILE": "vsd.csv", "UNITS": UNITS}]
)
MODELS = [
    {"NAME": "tb", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 5], "TURBINE_EFFICIENCIES": [0.2, 0.3]},
    {"NAME": "tba", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 5], "TURBINE_EFFICIENCIES": [0.2, 0.3], "POWER_ADJUSTMENT_CONSTANT": 2.0},
    {"NAME": "ct", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "cp", "TURBINE_MODEL": "tb"},
    {"NAME": "cta", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "cp", "TURBINE_MODEL": "tba"},
]


def comp(name, q, pd=20):
    return {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": name, "RATE": q, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": pd}


def pump(name, q, pd=200):
    return {"TYPE": "PUMP", "ENERGYFUNCTION": name, "RATE": q, "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": pd, "FLUID_DENSITY": 1000}


def csys(q, settings=1):
    s = {"RATES": [q, 50], "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 20}
    return {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "a", "COMPRESSOR_MODEL": "cp"}, {"NAME": "b", "COMPRESSOR_MODEL": "cp"}], "TOTAL_SYSTEM_RATE": f"{q} {{+}} 50", "OPERATIONAL_SETTINGS": [s] * settings}


def csys2(q):
    """the second member is the one that fails"""
    s = {"RATES": [50, q], "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 20}
    return {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "a", "COMPRESSOR_MODEL": "cf"}, {"NAME": "b", "COMPRESSOR_MODEL": "cf"}], "OPERATIONAL_SETTINGS": [s, s]}


def psys(q):
    s = {"RATES": [q, 500], "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 30}
    return {"TYPE": "PUMP_SYSTEM", "PUMPS": [{"NAME": "a", "CHART": "pump"}, {"NAME": "b", "CHART": "vsd"}], "FLUID_DENSITY": 1000, "OPERATIONAL_SETTINGS": [s]}


# kind -> (electric?, model of a rate expression, {request name: (calendar rate at full regularity, valid)}, extra column for pd requests)
KINDS = {
    "compressor": (True, lambda q, p: comp("cp", q), {"ok": (150, 20, True), "low": (1, 20, True), "at max": (200, 20, True), "zero": (0, 20, True), "above": (201, 20, False)}),
    "fuel compressor": (False, lambda q, p: comp("cf", q), {"ok": (150, 20, True), "at max": (200, 20, True), "above": (900, 20, False)}),
    "fuel and power compressor": (False, lambda q, p: comp("cfp", q), {"ok": (150, 20, True), "at max": (200, 20, True), "above": (900, 20, False)}),
    "compressor with pressure": (True, lambda q, p: comp("c2", q, p), {"ok": (100, 40, True), "pd too high": (100, 61, False), "rate at pd": (190, 59, False), "low pd": (100, 12, True), "zero at high pd": (0, 500, True)}),
    "turbine": (False, lambda q, p: comp("ct", q), {"ok": (100, 20, True), "turbine overload": (150, 20, False), "above table": (500, 20, False), "zero": (0, 20, True)}),
    "adjusted turbine": (False, lambda q, p: comp("cta", q), {"ok": (50, 20, True), "adjusted overload": (100, 20, False), "zero": (0, 20, True)}),
    "tabulated": (True, lambda q, p: {"TYPE": "TABULATED", "ENERGYFUNCTION": "tp", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": q}]}, {"ok": (150, 0, True), "zero": (0, 0, True), "above": (201, 0, False)}),
    "tabulated fuel": (False, lambda q, p: {"TYPE": "TABULATED", "ENERGYFUNCTION": "tf", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": q}, {"NAME": "X", "EXPRESSION": p}]}, {"ok": (150, 3, True), "x above": (150, 11, False), "rate above": (250, 3, False)}),
    "pump": (True, lambda q, p: pump("pump", q, p), {"ok": (600, 30, True), "recirculated": (50, 30, True), "head too high": (600, 90, False), "rate too high": (2400, 30, False), "zero at high head": (0, 90, True)}),
    "variable speed pump": (True, lambda q, p: pump("vsd", q, p), {"ok": (600, 30, True), "head too high": (600, 90, False), "rate too high": (2400, 30, False)}),
    "compressor system": (True, lambda q, p: csys(q), {"ok": (150, 0, True), "above": (201, 0, False)}),
    "compressor system second": (False, lambda q, p: csys2(q), {"ok": (150, 0, True), "above": (201, 0, False)}),
    "pump system": (True, lambda q, p: psys(q), {"ok": (600, 0, True), "above": (2400, 0, False)}),
    "direct load": (True, lambda q, p: {"TYPE": "DIRECT", "LOAD": q}, {"ok": (5, 0, True), "zero": (0, 0, True)}),
    "direct fuel": (False, lambda q, p: {"TYPE": "DIRECT", "FUELRATE": q}, {"ok": (5, 0, True), "zero": (0, 0, True)}),
}


class Build:
    def __init__(self, cal=CAL):
        self.cal = cal
        self.cols = {}

    def col(self, values):
        name = f"C{len(self.cols)}"
        self.cols[name] = values
        return f"S;{name}"

    def model(self, kind, requests, reg=None, cond=None):
        _, make, reqs = KINDS[kind]
        q = [reqs[r][0] * (g if kind not in ("direct load", "direct fuel") else 1) for r, g in zip(requests, reg or [1.0] * len(requests))]
        em = make(self.col(q), self.col([reqs[r][1] for r in requests]))
        if cond:
            em["CONDITION"] = f"{self.col(cond)} > 0"
        return em

    def run(self, installations):
        doc = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": FINPUTS,
            "MODELS": MODELS,
            "FUEL_TYPES": [fuel()],
            "START": self.cal[0],
            "END": self.cal[-1],
            "INSTALLATIONS": installations,
        }
        cols = self.cols or {"C0": [0] * (len(self.cal) - 1)}
        ts = {"s.csv": csv(["DATE", *cols], [[d.strftime("%d.%m.%Y"), *[c[j] for c in cols.values()]] for j, d in enumerate(self.cal[:-1])])}
        return get_asset_result(run_model(doc, ts, FAC))


def consumer(name, em, kind):
    cat = "PUMP" if "pump" in kind else "COMPRESSOR"
    return {"NAME": name, "CATEGORY": cat, "ENERGY_USAGE_MODEL": em}


def installation(b, name, leaves, reg=None):
    """leaves: (name, kind, em)"""
    d = {"NAME": name, "FUEL": "gas"}
    if reg:
        d["REGULARITY"] = b.col(reg)
    el = [consumer(n, em, k) for n, k, em in leaves if KINDS[k][0]]
    fu = [consumer(n, em, k) for n, k, em in leaves if not KINDS[k][0]]
    if el:
        d["GENERATORSETS"] = [{"NAME": f"{name}-g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "big", "CONSUMERS": el}]
    if fu:
        d["FUELCONSUMERS"] = fu
    return d


def find(r, name):
    if r.component_result.name == name:
        return r.component_result
    return next(x for x in r.sub_components if x.name == name)


def run(ck):
    ck.bounds.update(kinds=len(KINDS), periods=3, leaves=[1, 2, 4])
    ck.assumptions += ["a generator set whose own consumer is invalid may itself be reported either way; the installation is invalid in any case"]

    def expect(t, r, name, mask, what=""):
        c = find(r, name)
        t.check(list(c.is_valid.values) == list(mask), f"{name}{what}: valid {list(c.is_valid.values)}, expected {list(mask)}")

    def single(t):
        kind = t.pick("kind", list(KINDS))
        reqs = KINDS[kind][2]
        rs = [t.pick(f"request{j}", list(reqs)) for j in range(3)]
        g = t.pick("regularity", [None, [1.0, 0.5, 0.9]] if not ck.quick or rs[0] == rs[2] else [None])
        cond = t.pick("condition", [None, [1, 0, 1]] if not ck.quick or rs[1] != rs[0] else [None])
        b = Build()
        em = b.model(kind, rs, g, cond)
        r = b.run([installation(b, "i", [("c", kind, em)], g), installation(b, "other", [("d", "direct fuel", b.model("direct fuel", ["ok"] * 3))])])
        t.step()
        mask = [reqs[x][2] or bool(cond and not c) for x, c in zip(rs, cond or [1] * 3)]
        expect(t, r, "c", mask, f" ({kind}, {rs})")
        expect(t, r, "i", mask)
        expect(t, r, r.component_result.name, mask)
        expect(t, r, "other", [True] * 3)
        for m in r.models:
            if "system" not in kind and m.name != "d":
                t.check(list(m.is_valid.values) == mask, f"model {m.name}: valid {list(m.is_valid.values)}, expected {mask}")
        if KINDS[kind][0]:
            gs = find(r, "i-g")
            t.check(all(v or not w for v, w in zip(gs.is_valid.values, mask)), f"generator set valid {gs.is_valid.values} although it can deliver in {mask}")
        t.state(kind, rs)
        t.outcome((kind, tuple(mask)))

    ck.explore("single", single)

    def regularity_only(t):
        """a calendar day rate inside the capacity that is outside it as a stream day rate"""
        kind = t.pick("kind", ["compressor", "fuel compressor", "turbine", "tabulated", "pump", "compressor system", "pump system"])
        reg = [t.pick(f"regularity{j}", [1.0, 0.9, 0.4]) for j in range(3)]
        b = Build()
        q, _, _ = KINDS[kind][2]["ok"]
        capacity = {"turbine": 120, "pump": 1040, "pump system": 1040}.get(kind, 200)
        em = KINDS[kind][1](b.col([q] * 3), b.col([KINDS[kind][2]["ok"][1]] * 3))
        r = b.run([installation(b, "i", [("c", kind, em)], reg)])
        t.step()
        mask = [q / g <= capacity for g in reg]
        expect(t, r, "c", mask, f" ({kind}, regularity {reg})")
        expect(t, r, "i", mask)
        t.state(kind, reg)
        t.outcome((kind, tuple(mask)))

    ck.explore("regularity", regularity_only)

    def pairs(t):
        """two leaves in one installation or in two; each fails in every subset of the periods"""
        kinds = list(KINDS)[:13] if not ck.quick else ["compressor", "turbine", "tabulated", "pump", "compressor system second", "pump system", "fuel compressor"]
        k1 = t.pick("first", kinds)
        k2 = t.pick("second", [k for k in kinds if kinds.index(k) >= kinds.index(k1)])
        where = t.pick("place", ["same installation", "two installations"])
        masks = list(itertools.product([True, False], repeat=3))
        m1 = t.pick("mask1", masks)
        m2 = t.pick("mask2", masks if not ck.quick else [masks[0], masks[2], masks[5]])
        b = Build()

        def em(kind, mask):
            reqs = KINDS[kind][2]
            bad = [x for x, v in reqs.items() if not v[2]]
            return b.model(kind, ["ok" if ok else bad[j % len(bad)] for j, ok in enumerate(mask)])

        e1, e2 = em(k1, m1), em(k2, m2)
        if where == "same installation":
            insts = [installation(b, "i", [("c1", k1, e1), ("c2", k2, e2)])]
        else:
            insts = [installation(b, "i", [("c1", k1, e1)]), installation(b, "j", [("c2", k2, e2)])]
        r = b.run(insts)
        t.step()
        both = [x and y for x, y in zip(m1, m2)]
        expect(t, r, "c1", m1)
        expect(t, r, "c2", m2)
        if where == "same installation":
            expect(t, r, "i", both)
        else:
            expect(t, r, "i", m1)
            expect(t, r, "j", m2)
        expect(t, r, r.component_result.name, both)
        for f in (Frequency.YEAR, Frequency.MONTH) if (m2 == masks[2] and k1 == k2) or not ck.quick else ():
            y = r.resample(f)
            for name, mask in (("c1", m1), ("c2", m2), (r.component_result.name, both), ("i", both if where == "same installation" else m1)):
                c = find(y, name)
                exp = [all(ok for ok, s, e in zip(mask, CAL[:-1], CAL[1:]) if s < p.end and e > p.start) for p in c.is_valid.periods]
                t.check(list(c.is_valid.values) == exp, f"{name} per {f.name}: valid {list(c.is_valid.values)}, expected {exp}")
            t.step()
        t.state(k1, k2, where, m1, m2)
        t.outcome(tuple(both))

    ck.explore("pairs", pairs)

    def dated(t):
        """the energy model changes at a date, or only starts there"""
        kinds = list(KINDS)[:13] if not ck.quick else ["compressor", "turbine", "pump", "compressor system", "pump system", "fuel compressor", "tabulated"]
        k1 = t.pick("first", ["nothing", *kinds])
        k2 = t.pick("second", [k for k in kinds if k1 == "nothing" or KINDS[k][0] == KINDS[k1][0]])
        at = t.pick("switch", [1, 2])
        mask1 = t.pick("mask1", [(True,) * 3, (False,) * 3, (False, True, False)])
        mask2 = t.pick("mask2", [(True,) * 3, (False,) * 3, (True, True, False)])
        b = Build()

        def em(kind, mask):
            reqs = KINDS[kind][2]
            bad = [x for x, v in reqs.items() if not v[2]]
            return b.model(kind, ["ok" if ok else bad[0] for ok in mask])

        models = {CAL[at]: em(k2, mask2)}
        if k1 != "nothing":
            models = {CAL[0]: em(k1, mask1), **models}
        # a type change at a date is not allowed
        if k1 != "nothing" and models[CAL[0]]["TYPE"] != models[CAL[at]]["TYPE"]:
            return
        r = b.run([installation(b, "i", [("c", k2, models)])])
        t.step()
        mask = [(True if k1 == "nothing" else mask1[j]) if j < at else mask2[j] for j in range(3)]
        expect(t, r, "c", mask, f" ({k1} then {k2} from {CAL[at]:%Y-%m})")
        expect(t, r, "i", mask)
        expect(t, r, r.component_result.name, mask)
        t.state(k1, k2, at, mask1, mask2)
        t.outcome(tuple(mask))

    ck.explore("dated", dated)

    def overload(t):
        """generator sets over their capacity: two on one installation, one on another, with fuel users beside them"""
        loads = [t.pick(f"loads{k}", [(5.0, 20.0, 20.5), (20.5, 5.0, 5.0), (0.0, 0.0, 0.0), (20.5, 20.5, 20.5)]) for k in range(3)]
        split = t.flip("two consumers")
        loss = t.flip("power loss")
        leaf = t.pick("fuel user", ["direct fuel", "turbine"])
        fmask = t.pick("fuel user mask", [(True,) * 3, (True, False, True)]) if leaf == "turbine" else (True,) * 3
        b = Build()
        gens = []
        for k, ls in enumerate(loads):
            f = 0.8 if loss else 1.0
            parts = [[x * f / 2 for x in ls]] * 2 if split else [[x * f for x in ls]]
            cons = []
            for n, p in enumerate(parts):
                em = {"TYPE": "DIRECT", "LOAD": b.col(p)}
                if loss:
                    em["POWERLOSSFACTOR"] = 0.2
                cons.append({"NAME": f"l{k}{n}", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": em})
            gens.append({"NAME": f"g{k}", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "small", "CONSUMERS": cons})
        em = b.model(leaf, ["ok" if ok else "turbine overload" for ok in fmask])
        insts = [
            {"NAME": "i", "FUEL": "gas", "GENERATORSETS": gens[:2]},
            {"NAME": "j", "FUEL": "gas", "GENERATORSETS": gens[2:], "FUELCONSUMERS": [consumer("f", em, leaf)]},
        ]
        r = b.run(insts)
        t.step()
        gm = [[x <= 20.0 for x in ls] for ls in loads]
        for k in range(3):
            expect(t, r, f"g{k}", gm[k])
        i = [x and y for x, y in zip(gm[0], gm[1])]
        j = [x and y for x, y in zip(gm[2], fmask)]
        expect(t, r, "i", i)
        expect(t, r, "j", j)
        expect(t, r, "f", fmask)
        expect(t, r, r.component_result.name, [x and y for x, y in zip(i, j)])
        for k in range(3):
            expect(t, r, f"l{k}0", [True] * 3)
        t.state(loads, split, loss, fmask)
        t.outcome((tuple(i), tuple(j)))

    ck.explore("overload", overload)
