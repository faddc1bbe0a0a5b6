"""C06: sums through the hierarchy.  Every asset structure up to the size bound (installations x component menus x fuels x
regularities x value patterns) is run end to end and every fuel, power, emission and cumulative of every node is compared with the
reference asset model, so a contribution lost, doubled or put at the wrong node is seen."""

from mc.core import Prune
from mc.e2e import D, result
from mc.refmodel import Asset, compare

CAL = [D(2020), D(2020, 3, 1), D(2021), D(2021, 1, 2)]
FUELS = {"gas": {"co2": 2.0, "ch4": [0.1, 0.2, 0.3]}, "diesel": {"co2": 5.0, "nox": 1.0}, "clean": {}}
P = [[5.0, 12.0, 0.0], [0.0, 3.0, 25.0], [0.0, 0.0, 0.0], [7.0, 7.0, 7.0]]


def gen(k, t, i):
    return {
        1: [{"name": f"g1{i}", "cons": [{"name": f"l1{i}", "load": P[0]}]}],
        2: [{"name": f"g1{i}", "fuel": "diesel", "cons": [{"name": f"l1{i}", "load": P[0]}, {"name": f"l2{i}", "load": P[3], "plf": 0.1}]}],
        3: [
            {"name": f"g1{i}", "cons": [{"name": f"l1{i}", "load": P[1], "rt": "CALENDAR_DAY"}]},
            {"name": f"g2{i}", "fuel": "diesel", "cons": [{"name": f"l2{i}", "load": P[3], "plf": [0.0, 0.1, 0.5]}]},
        ],
        4: [{"name": f"g1{i}", "fuel": "clean", "cons": [{"name": f"l1{i}", "load": P[2]}]}],
    }.get(k, [])


def fcs(k, i):
    return {
        1: [{"name": f"f1{i}", "fuelrate": P[0]}],
        2: [{"name": f"f1{i}", "fuelrate": P[1], "rt": "CALENDAR_DAY"}, {"name": f"f2{i}", "fuelrate": P[3], "fuel": "diesel"}],
        3: [{"name": f"c1{i}", "rate": [50.0, 0.0, 150.0]}],
        4: [{"name": f"c1{i}", "rate": [50.0, 0.0, 150.0], "fuel": "diesel"}, {"name": f"c2{i}", "rate": [200.0, 100.0, 20.0]}, {"name": f"f1{i}", "fuelrate": P[0], "cond": [1, 0, 1]}],
        5: [{"name": f"c1{i}", "rate": [0.0, 0.0, 0.0]}],
    }.get(k, [])


def vents(k, i):
    return {
        1: [{"name": f"v1{i}", "emissions": {"co2": {"value": P[0]}}}],
        2: [
            {"name": f"v1{i}", "emissions": {"co2": {"value": P[1]}, "nmvoc": {"value": P[3], "rt": "CALENDAR_DAY"}}},
            {"name": f"o1{i}", "oil": {"value": [100.0, 0.0, 50.0]}, "factors": {"ch4": 0.5, "co2": [1.0, 2.0, 0.0]}},
        ],
    }.get(k, [])


REGS = [1.0, 0.5, [1.0, 0.25, 0.8], [0.5, 0.0, 1.0]]


def run(ck):
    ck.bounds.update(installations=ck.q(2, 3), periods=3, generator_menu=5, fuel_user_menu=6, venting_menu=3, regularities=len(REGS), fuels=3)
    ck.assumptions += ["reference asset model mc/refmodel.py"]

    def inst(t, k, gm, fm, vm, rm):
        i = str(k)
        g, f, v = t.pick(f"gens{k}", gm), t.pick(f"fuel users{k}", fm), t.pick(f"vents{k}", vm)
        if not (g or f or v):
            raise Prune()
        return {
            "name": f"i{k}",
            "fuel": "gas" if k != 1 else "diesel",
            "reg": t.pick(f"reg{k}", rm),
            "hc": [100.0 * (k + 1), 0.0, 50.0],
            "gens": gen(g, t, i),
            "fcs": fcs(f, i),
            "vents": vents(v, i),
        }

    def check(t, insts):
        a = Asset(CAL, FUELS, insts)
        doc, ts, fac = a.build()
        r = result(doc, ts, fac)
        t.step()
        compare(t, a, r)
        t.state([(i.get("reg"), i.get("fuel"), [x["name"] for k in ("gens", "fcs", "vents") for x in i[k]]) for i in insts])
        t.outcome((len(insts), tuple(r.component_result.is_valid.values)))

    def single(t):
        check(t, [inst(t, 0, range(5), range(6), range(3), REGS)])

    ck.explore("one installation", single)

    def two(t):
        gm = [0, 1, 3] if ck.quick else [0, 1, 2, 3, 4]
        fm = [0, 2, 4] if ck.quick else [0, 2, 3, 4]
        check(t, [inst(t, 0, gm, fm, [0, 2], [1.0, [0.5, 0.0, 1.0]]), inst(t, 1, gm, [0, 1, 3], [0, 1], [[1.0, 0.25, 0.8]])])

    ck.explore("two installations", two)

    def three(t):
        check(t, [inst(t, k, [0, 2], [0, 4], [0, 2], [[1.0, 0.25, 0.8], 1.0, 0.5][k : k + 1]) for k in range(3)])

    ck.explore("three installations", three)

    def fuels(t):
        """fuels that change over time, on the installation and on its users, with factors that change over time"""
        opts = [["gas", "diesel", "diesel"], ["diesel", "diesel", "gas"], ["gas", "clean", "gas"], "gas"]
        a, g, f = t.pick("installation fuel", opts), t.pick("generator fuel", [None, *opts[:3]]), t.pick("fuel user fuel", [None, *opts[:3]])
        one = {"name": "i0", "fuel": a, "reg": t.pick("regularity", REGS[2:]), "gens": gen(1, t, "0"), "fcs": fcs(3, "0") + [{"name": "fx", "fuelrate": P[1], "rt": "CALENDAR_DAY"}]}
        if g:
            one["gens"][0]["fuel"] = g
        if f:
            one["fcs"][1]["fuel"] = f
        two = {"name": "i1", "fuel": t.pick("other installation", ["diesel", opts[0]]), "gens": gen(2, t, "1"), "fcs": fcs(1, "1"), "vents": vents(2, "1")}
        check(t, [{"vents": [], **one}, two])

    FUELS["diesel"]["co2"] = [5.0, 6.0, 4.0]
    ck.explore("dated fuels", fuels)
