"""C12: venting emitters.  Every combination of rate basis, unit, regularity, condition form, factor and value vector (over a small
domain with zeros) for direct and oil-volume emitters, alone and combined with other emitters and fuel users, is run end to end and
compared with the reference asset model at emitter, installation and asset level."""

import itertools

from mc.core import Prune
from mc.e2e import D, fuel, load, result
from mc.refmodel import Asset, compare

CAL = [D(2020), D(2020, 3, 1), D(2021), D(2021, 1, 2)]
REGS = [1.0, [1.0, 0.25, 0.8], [0.5, 0.0, 1.0]]
CONDS = [None, ("cond", [1, 0, 1]), ("cond", [0, 0, 0]), ("conds", [[1, 1, 0], [1, 0, 1]]), ("conds", [[0, 1, 1]]), ("cond", 0), ("conds", [1, 1, [0, 1, 1]])]
VALUES = [[5.0, 12.0, 0.0], [0.0, 0.0, 7.0], 3.0]


def run(ck):
    ck.bounds.update(periods=3, conditions=len(CONDS), regularities=len(REGS), emitters=3)
    ck.assumptions += ["reference asset model mc/refmodel.py"]

    def rate(t, tag, values, units=False, conds=CONDS):
        x = {"value": t.pick(f"value {tag}", values), "rt": t.pick(f"basis {tag}", ["STREAM_DAY", "CALENDAR_DAY", None])}
        if x["rt"] is None:
            del x["rt"]
        if units:
            x["unit"] = t.pick(f"unit {tag}", ["KG_PER_DAY", "TONS_PER_DAY", None])
            if x["unit"] is None:
                del x["unit"]
        c = t.pick(f"condition {tag}", conds)
        if c:
            x[c[0]] = c[1]
        return x

    def check(t, vents, reg, extra=(), inst2=None):
        insts = [{"name": "i0", "fuel": "gas", "reg": reg, "fcs": list(extra), "vents": vents}]
        if inst2:
            insts.append(inst2)
        a = Asset(CAL, {"gas": {"co2": 2.0, "nox": 1.0}}, insts)
        r = result(*a.build())
        t.step()
        compare(t, a, r)
        t.state(repr(insts))
        t.outcome(tuple(x > 0 for x in (r.component_result.emissions["co2"].rate.values if "co2" in r.component_result.emissions else [])))
        return r

    def direct(t):
        x = rate(t, "co2", VALUES, units=True)
        check(t, [{"name": "v", "emissions": {"co2": x}}], t.pick("regularity", REGS))

    ck.explore("direct emission", direct)

    def oil(t):
        x = rate(t, "oil", [[100.0, 40.0, 0.0], 10.0])
        f = t.pick("factors", [{"co2": 0.5}, {"co2": [0.5, 0.0, 2.0], "ch4": 0.25}, {"ch4": [0.0, 1.0, 3.0]}])
        check(t, [{"name": "o", "oil": x, "factors": f}], t.pick("regularity", REGS))

    ck.explore("oil volume emission", oil)

    def several(t):
        """two emissions in one emitter with different bases, next to an oil emitter, a fuel user and another installation"""
        small = [None, ("cond", [1, 0, 1]), ("conds", [[1, 1, 0], [1, 0, 1]])]
        e = {"CO2": rate(t, "a", VALUES[:1], True, small), "ch4": rate(t, "b", VALUES[1:2], False, small)}
        v = [{"name": "v", "emissions": e}]
        more = t.pick("more", ["none", "oil", "oil+fuel", "other installation", "second direct"])
        extra, inst2 = [], None
        if "oil" in more:
            v.append({"name": "o", "oil": {"value": [100.0, 40.0, 0.0], "cond": [0, 1, 1]}, "factors": {"co2": 0.5, "nox": [1.0, 0.0, 2.0]}})
        if "fuel" in more:
            extra = [{"name": "f", "fuelrate": [10.0, 0.0, 30.0]}]
        if more == "other installation":
            inst2 = {"name": "i1", "reg": [0.5, 1.0, 0.9], "fuel": "gas", "vents": [{"name": "w", "emissions": {"co2": {"value": 9.0, "unit": "TONS_PER_DAY"}}}]}
        if more == "second direct":
            v.append({"name": "w", "emissions": {"co2": {"value": VALUES[1], "rt": "CALENDAR_DAY"}}})
        check(t, v, t.pick("regularity", REGS[1:]), extra, inst2)

    ck.explore("several emitters", several)

    def duplicates(t):
        """the same emission stated twice is rejected, never silently dropped"""
        kind = t.pick("kind", ["direct", "oil", "fuel"])
        n = t.pick("emissions", [2, 3])
        names = [t.pick(f"name{k}", ["co2", "CO2", "Co2", "ch4", "CH4"]) for k in range(n)]
        doc = {"START": D(2020), "END": D(2021), "FUEL_TYPES": [fuel()], "INSTALLATIONS": [{"NAME": "i", "FUEL": "gas", "FUELCONSUMERS": [{"NAME": "f", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 10}}]}]}
        if kind == "fuel":
            doc["FUEL_TYPES"] = [{"NAME": "gas", "EMISSIONS": [{"NAME": e, "FACTOR": 1 + k} for k, e in enumerate(names)]}]
        else:
            v = {"NAME": "v", "CATEGORY": "COLD-VENTING-FUGITIVE"}
            if kind == "direct":
                v |= {"TYPE": "DIRECT_EMISSION", "EMISSIONS": [{"NAME": e, "RATE": {"VALUE": 1 + k}} for k, e in enumerate(names)]}
            else:
                v |= {"TYPE": "OIL_VOLUME", "VOLUME": {"RATE": {"VALUE": 1}, "EMISSIONS": [{"NAME": e, "EMISSION_FACTOR": 1 + k} for k, e in enumerate(names)]}}
            doc["INSTALLATIONS"][0]["VENTING_EMITTERS"] = [v]
        want: dict = {}
        for k, e in enumerate(names):
            want[e.lower()] = want.get(e.lower(), 0) + (1 + k) * (10 if kind == "fuel" else 1) / 1000
        dup = len(want) < n
        t.step()
        try:
            load(doc).validate_for_run()
        except Exception as e:
            t.check(dup, f"distinct emissions {names} rejected: {e}")
            t.outcome((kind, "rejected"))
            return
        r = result(doc)
        c = {x.name: x for x in r.sub_components}["f" if kind == "fuel" else "v"]
        # accepted: then nothing may be lost
        t.same({k: v.rate.values[0] for k, v in c.emissions.items()}, want, "emissions")
        t.outcome((kind, "accepted"))

    ck.explore("repeated emission names", duplicates)
