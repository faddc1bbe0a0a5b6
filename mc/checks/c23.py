"""C23: results depend on the model's meaning.  Around a few models that use every kind of consumer, all meaning-preserving rewrites (every
permutation of every list and mapping, every renaming, splitting every definition at every date, unused inputs, YAML notations, files included
from elsewhere, inlined variables) are applied alone and in pairs, and every number of the full result must stay what it was; so must it when
models are evaluated again, interleaved with, or after other models."""

import contextlib
import copy
import io
import itertools
import re
import tempfile
from datetime import datetime
from pathlib import Path

import yaml
from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.model import YamlModel
from libecalc.presentation.yaml.yaml_entities import ResourceStream
from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel

from mc.core import Prune, close
from mc.e2e import D, MemResources, csv, to_yaml

UNITS = {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}
FAC = {
    "g1.csv": csv(["POWER", "FUEL"], [[0, 0], [10, 100], [40, 350]]),
    "g2.csv": csv(["POWER", "FUEL"], [[0, 5], [15, 120], [30, 290]]),
    "p1.csv": csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], [[1000, 60, 900, 0.5], [1000, 300, 500, 0.6], [3000, 150, 3800, 0.6], [3000, 500, 3000, 0.8], [3000, 800, 1200, 0.7]]),
    "p2.csv": csv(["RATE", "HEAD", "EFFICIENCY"], [[50, 4000, 0.5], [300, 3000, 0.8], [600, 1500, 0.6]]),
    "c1.csv": csv(["RATE", "POWER"], [[0, 1], [300, 5], [600, 20]]),
    "c2.csv": csv(["RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "FUEL"], [[100, 5, 30, 5], [900, 5, 30, 9], [100, 20, 90, 7], [900, 20, 90.5, 20], [100, 5, 90, 11]]),
    "t1.csv": csv(["RATE", "PRES", "POWER"], [[1, 1, 5], [900, 1, 9], [1, 90, 7], [900, 90, 20.5]]),
}
TS = {
    "s.csv": (["DATE", "Q", "P", "G"], [["01.01.2020", 130, 20, 0.9], ["01.05.2020", 260, 26, 1.0], ["01.01.2021", 390.5, 24, 0.8], ["01.01.2022", 1, 2, 0.5]]),
    "m.csv": (["DATE", "X", "Y"], [["01.01.2019", 1, 5], ["01.01.2020", 2, 6], ["01.01.2021", 4, 7], ["01.01.2023", 3, 8]]),
}


def facility():
    f = [{"NAME": n, "TYPE": "ELECTRICITY2FUEL", "FILE": f"{n}.csv"} for n in ("g1", "g2")]
    f += [{"NAME": "p1", "TYPE": "PUMP_CHART_VARIABLE_SPEED", "FILE": "p1.csv", "UNITS": dict(UNITS)}, {"NAME": "p2", "TYPE": "PUMP_CHART_SINGLE_SPEED", "FILE": "p2.csv", "UNITS": dict(UNITS), "HEAD_MARGIN": 3}]
    f += [{"NAME": "c1", "TYPE": "COMPRESSOR_TABULAR", "FILE": "c1.csv"}, {"NAME": "c2", "TYPE": "COMPRESSOR_TABULAR", "FILE": "c2.csv"}, {"NAME": "t1", "TYPE": "TABULAR", "FILE": "t1.csv"}]
    return f


def base(kind):
    pump = lambda e, f: {"TYPE": "PUMP", "ENERGYFUNCTION": e, "RATE": f"$var.rate {{*}} {f}", "SUCTION_PRESSURE": 1, "DISCHARGE_PRESSURE": "S;P", "FLUID_DENSITY": 1000}  # noqa: E731
    el = {
        "base": {"NAME": "base", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": "M;X {+} $var.half"}},
        "pump": {"NAME": "pump", "CATEGORY": "PUMP", "ENERGY_USAGE_MODEL": {D(2020): pump("p1", 24), D(2020, 9): pump("p2", 20)}},
        "tab": {"NAME": "tab", "CATEGORY": "MISCELLANEOUS", "ENERGY_USAGE_MODEL": {"TYPE": "TABULATED", "ENERGYFUNCTION": "t1", "CONDITION": "S;Q > 135", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": "S;Q"}, {"NAME": "PRES", "EXPRESSION": "M;Y"}]}},
        "sampled": {"NAME": "sampled", "CATEGORY": {D(2020): "COMPRESSOR", D(2021): "GAS-DRIVEN-COMPRESSOR"}, "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "c1", "RATE": "S;Q", "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": 60, "POWERLOSSFACTOR": 0.05}},
        "system": {"NAME": "system", "CATEGORY": "PUMP", "ENERGY_USAGE_MODEL": {"TYPE": "PUMP_SYSTEM", "FLUID_DENSITY": 1000, "PUMPS": [{"NAME": "m1", "CHART": "p1"}, {"NAME": "m2", "CHART": "p2"}], "TOTAL_SYSTEM_RATE": "S;Q {*} 40", "OPERATIONAL_SETTINGS": [{"RATE_FRACTIONS": [0.2, 0.8], "SUCTION_PRESSURE": 1, "DISCHARGE_PRESSURE": "S;P"}, {"RATE_FRACTIONS": [0.6, 0.4], "SUCTION_PRESSURE": 1, "DISCHARGE_PRESSURES": ["S;P", 22]}]}},
    }  # fmt: skip
    fu = {
        "flare": {"NAME": "flare", "CATEGORY": "FLARE", "FUEL": {D(2020): "gas", D(2020, 7): "lean"}, "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "S;Q {*} 3"}},
        "fuelled": {"NAME": "fuelled", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "c2", "RATE": "$var.rate", "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": "S;P {+} 25"}},
        "csys": {"NAME": "csys", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "k1", "COMPRESSOR_MODEL": "c2"}, {"NAME": "k2", "COMPRESSOR_MODEL": "c2"}], "TOTAL_SYSTEM_RATE": "S;Q", "OPERATIONAL_SETTINGS": [{"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": 40}]}},
    }  # fmt: skip
    vent = [
        {"NAME": "vent", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [{"NAME": "ch4", "RATE": {"VALUE": "S;Q", "UNIT": "KG_PER_DAY"}}, {"NAME": "co2", "RATE": {"VALUE": 4, "TYPE": "CALENDAR_DAY"}}]},
        {"NAME": "oil", "CATEGORY": "LOADING", "TYPE": "OIL_VOLUME", "VOLUME": {"RATE": {"VALUE": "S;Q {*} 10", "TYPE": "CALENDAR_DAY"}, "EMISSIONS": [{"NAME": "nmvoc", "EMISSION_FACTOR": 0.3}, {"NAME": "ch4", "EMISSION_FACTOR": "M;X {/} 10"}]}},
    ]  # fmt: skip
    doc = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}, {"NAME": "M", "TYPE": "MISCELLANEOUS", "FILE": "m.csv", "INTERPOLATION_TYPE": "RIGHT", "EXTRAPOLATION": True, "INFLUENCE_TIME_VECTOR": False}],
        "VARIABLES": {"rate": {"VALUE": "$var.half {+} S;Q {-} $var.half"}, "half": {D(2020): {"VALUE": "M;X {/} 2"}, D(2020, 6): {"VALUE": "M;Y {/} 2"}}},
        "FACILITY_INPUTS": facility(),
        "FUEL_TYPES": [{"NAME": "gas", "CATEGORY": "FUEL-GAS", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.2}, {"NAME": "nox", "FACTOR": "M;Y {/} 100"}]}, {"NAME": "lean", "EMISSIONS": [{"NAME": "co2", "FACTOR": {D(2020): 1.9, D(2021): 2.0}} if kind == "never" else {"NAME": "co2", "FACTOR": 1.9}]}],
        "START": D(2020),
        "END": D(2022),
        "INSTALLATIONS": [],
    }  # fmt: skip
    if kind == "electric":
        doc["INSTALLATIONS"] = [
            {
                "NAME": "A",
                "FUEL": "gas",
                "HCEXPORT": "S;Q {*} 100",
                "REGULARITY": {D(2020): "S;G", D(2021): 0.95},
                "GENERATORSETS": [
                    {"NAME": "gen1", "CATEGORY": "TURBINE-GENERATOR", "FUEL": {D(2020): "gas", D(2020, 9): "lean"}, "ELECTRICITY2FUEL": {D(2020): "g1", D(2021): "g2"}, "CONSUMERS": [el["base"], el["pump"]]},
                    {"NAME": "gen2", "CATEGORY": "STEAM-TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g2", "CONSUMERS": [el["tab"], el["sampled"], el["system"]]},
                ],
            }
        ]
    elif kind == "fuel":
        doc["INSTALLATIONS"] = [
            {"NAME": "A", "FUEL": "gas", "HCEXPORT": "S;Q {*} 100", "REGULARITY": "S;G", "CATEGORY": "FIXED", "FUELCONSUMERS": [fu["flare"], fu["fuelled"]], "VENTING_EMITTERS": vent},
            {"NAME": "B", "FUEL": {D(2020): "gas", D(2021): "lean"}, "HCEXPORT": {D(2020): 10, D(2020, 6): "S;Q"}, "FUELCONSUMERS": [fu["csys"]]},
        ]
    else:
        doc["MODELS"] = [
            {"NAME": "tur", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 5, 20, 40], "TURBINE_EFFICIENCIES": [0, 0.2, 0.3, 0.35]},
            {"NAME": "driven", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "c1", "TURBINE_MODEL": "tur", "POWER_ADJUSTMENT_FACTOR": 1.1},
        ]
        doc["INSTALLATIONS"] = [
            {"NAME": "A", "FUEL": "gas", "FUELCONSUMERS": [{"NAME": "train", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "driven", "RATE": "S;Q", "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": 60}}], "VENTING_EMITTERS": vent[:1]},
            {"NAME": "B", "FUEL": "lean", "HCEXPORT": "S;Q", "GENERATORSETS": [{"NAME": "shore", "CATEGORY": {D(2020): "TURBINE-GENERATOR", D(2021): "POWER-FROM-SHORE"}, "ELECTRICITY2FUEL": "g2", "CABLE_LOSS": 0.1, "MAX_USAGE_FROM_SHORE": 30, "CONSUMERS": [el["base"], el["pump"]]}]},
            {"NAME": "C", "FUEL": "gas", "GENERATORSETS": [{"NAME": "gen", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g1", "CONSUMERS": [{**el["base"], "NAME": "other"}]}], "FUELCONSUMERS": [fu["flare"]]},
        ]  # fmt: skip
    return copy.deepcopy(doc)


KINDS = ["electric", "fuel", "mixed"]


def walk(x, path=()):
    yield path, x
    if isinstance(x, dict):
        for k, v in x.items():
            yield from walk(v, (*path, k))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from walk(v, (*path, i))


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


def put(doc, path, value):
    at(doc, path[:-1])[path[-1]] = value


UNORDERED = {"TIME_SERIES", "FACILITY_INPUTS", "FUEL_TYPES", "MODELS", "INSTALLATIONS", "GENERATORSETS", "CONSUMERS", "FUELCONSUMERS", "VENTING_EMITTERS", "EMISSIONS", "VARIABLES"}


def lists_of(doc):
    return [p for p, x in walk(doc) if isinstance(x, list) and p[-1] in UNORDERED and len(x) > 1]


def dicts_of(doc):
    return [p for p, x in walk(doc) if isinstance(x, dict) and len(x) > 1]


TEMPORAL = {"FUEL", "ELECTRICITY2FUEL", "REGULARITY", "HCEXPORT", "ENERGY_USAGE_MODEL", "CATEGORY"}


def temporal_of(doc):
    out = []
    for p, x in walk(doc):
        if not p or p[0] not in ("INSTALLATIONS", "VARIABLES"):
            continue
        key = p[-1]
        if p[0] == "VARIABLES" and len(p) == 2:
            out.append(p)
        elif p[0] == "INSTALLATIONS" and key in TEMPORAL:
            if key == "CATEGORY" and (len(p) < 4 or "VENTING_EMITTERS" in p):
                continue
            if key == "FUEL" and isinstance(at(doc, p[:-1]), dict) and "TYPE" in at(doc, p[:-1]):
                continue
            out.append(p)
    return out


def is_dated(x):
    return isinstance(x, dict) and x and all(isinstance(k, datetime) for k in x)


def split(x, when):
    if not is_dated(x):
        return {D(2020): x, when: copy.deepcopy(x)} if when > D(2020) else {when: x}
    keys = [k for k in x if k <= when]
    if not keys or when in x:
        return None
    return dict(sorted([*x.items(), (when, copy.deepcopy(x[keys[-1]]))]))


def resources(ts, fac):
    return MemResources({k: csv(*v) for k, v in ts.items()}, fac)


def load_text(text, res, **kw):
    conf = PyYamlYamlModel.read(ResourceStream(name="model", stream=io.StringIO(text)), **kw)
    return YamlModel(configuration=conf, resource_service=res)


def flatten(result, back=None, ends=None):
    """every number of the result by component, quantity and period start"""
    back = back or {}
    nm = lambda n: back.get(n, n)  # noqa: E731
    out = {}

    def rec(prefix, x):
        if x is None or isinstance(x, str):
            return
        cls = type(x).__name__
        if hasattr(x, "periods") and hasattr(x, "values") and not isinstance(x, dict):
            if "Cumulative" in cls and prefix[0].endswith("ModelResult"):
                return  # one result per energy usage model: they start again with every dated model
            for p, v in zip(x.periods, x.values):
                key = (*prefix, "@", p.end if "Cumulative" in cls else p.start)
                if key in out:
                    raise AssertionError(f"two values for {key}")
                out[(*prefix, "@", p.end if "Cumulative" in cls else p.start)] = v
            out[(*prefix, "unit")] = str(getattr(x, "unit", None))
            out[(*prefix, "kind")] = (cls, str(getattr(x, "rate_type", None)))
        elif isinstance(x, dict):
            for k, v in x.items():
                rec((*prefix, nm(k)), v)
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                if hasattr(v, "start"):
                    continue
                rec((*prefix, i), v)
        elif hasattr(type(x), "model_fields"):
            for f in type(x).model_fields:
                if f in ("id", "timesteps", "periods", "componentType", "component_level", "parent", "name", "failure_status"):
                    continue
                rec((*prefix, f), getattr(x, f))
        elif isinstance(x, (int, float)):
            out[prefix] = x

    for c in [result.component_result, *result.sub_components, *result.models]:
        where = (type(c).__name__, nm(c.name), nm(c.parent) if isinstance(c.parent, str) else None)
        out[(*where, "component")] = (str(c.componentType), str(c.component_level))
        rec(where, c)
    return out


def evaluate(doc, ts=None, fac=None, text=None, **kw):
    m = load_text(text if text is not None else to_yaml(doc), resources(ts or TS, fac or FAC), **kw).validate_for_run()
    m.evaluate_energy_usage()
    return m


_base = {}


def expected(kind):
    if kind not in _base:
        _base[kind] = flatten(get_asset_result(evaluate(base(kind))))
    return _base[kind]


def compare(t, got, want, what, new_dates=False):
    """same keys and numbers; with a new date inside a period, rates are looked up in the period it splits"""
    if not new_dates:
        miss = set(want) ^ set(got)
        if miss:
            t.fail(f"{what}: only on one side: {sorted(map(str, miss))[:3]}")
    for k, v in want.items():
        if k not in got:
            t.fail(f"{what}: {k} is gone")
        g = got[k]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            if not close(g, v, rel=1e-9, abs_=1e-9):
                t.fail(f"{what}: {k} was {v}, now {g}")
        elif g != v:
            t.fail(f"{what}: {k} was {v}, now {g}")
    if new_dates:
        for k, v in got.items():
            if k in want or "@" not in k:
                continue
            same = [(x[-1], w) for x, w in want.items() if x[:-1] == k[:-1] and "@" in x]
            if not same:
                t.fail(f"{what}: {k} appeared")
            before = [w for s, w in sorted(same, key=lambda z: z[0]) if s <= k[-1]]
            if got.get((*k[:-2], "kind"), ("",))[0].startswith("TimeSeriesVolumesCumulative"):
                vals = [w for _, w in sorted(same, key=lambda z: z[0])]
                t.check(min([0.0, *vals]) - 1e-9 <= v <= max(vals) + 1e-9, f"{what}: cumulative {k} {v}")
            else:
                t.check(before and close(v, before[-1], rel=1e-9), f"{what}: {k} is {v}, the definition there says {before and before[-1]}")
    t.step(len(want))


NAMES = {
    "INSTALLATIONS": ["A", "B", "C"],
}
NEW = ["zz {}", "0 {}", "{}_x"]


def rename_everywhere(doc, ts, old, new, how):
    """how: facility, fuel, series, variable, component, emission"""

    def expr(s):
        if how == "series" and isinstance(s, str):
            return re.sub(rf"(?<![\w.]){re.escape(old)};", f"{new};", s)
        if how == "variable" and isinstance(s, str):
            return re.sub(rf"\$var\.{re.escape(old)}(?!\w)", f"$var.{new}", s)
        return s

    def rec(x, path):
        if isinstance(x, dict):
            out = {}
            for k, v in x.items():
                kk = new if how == "variable" and path == ("VARIABLES",) and k == old else k
                out[kk] = rec(v, (*path, k))
            return out
        if isinstance(x, list):
            return [rec(v, (*path, i)) for i, v in enumerate(x)]
        if not isinstance(x, str):
            return x
        key = next((k for k in reversed(path) if isinstance(k, str)), "")
        top = path[0]
        if how == "facility" and x == old and ((top in ("FACILITY_INPUTS", "MODELS") and key == "NAME") or key in ("ENERGYFUNCTION", "ELECTRICITY2FUEL", "CHART", "COMPRESSOR_MODEL", "TURBINE_MODEL")):
            return new
        if how == "fuel" and x == old and ((top == "FUEL_TYPES" and key == "NAME" and len(path) == 3) or key == "FUEL"):
            return new
        if how == "series" and top == "TIME_SERIES" and key == "NAME" and x == old:
            return new
        if how == "component" and top == "INSTALLATIONS" and key == "NAME" and x == old and "EMISSIONS" not in path and "ENERGY_USAGE_MODEL" not in path:
            return new
        if how == "emission" and key == "NAME" and "EMISSIONS" in path and x == old:
            return new
        return expr(x)

    return rec(doc, ())


def rewrites(kind):
    """-> {name: parameters}"""
    doc = base(kind)
    out = {}
    for p in lists_of(doc):
        perms = list(itertools.permutations(range(len(at(doc, p)))))[1:]
        if len(perms) > 30:
            n = len(at(doc, p))
            perms = [tuple(reversed(range(n))), *[tuple([*range(i, n), *range(i)]) for i in range(1, n)], *[tuple(j if j not in (i, i + 1) else 2 * i + 1 - j for j in range(n)) for i in range(n - 1)]]
        out["permute", p] = perms
    for p in dicts_of(doc):
        d = at(doc, p)
        if is_dated(d):
            continue
        out["key order", p] = ["reversed", "sorted"] if len(d) > 2 else ["reversed"]
    for p in temporal_of(doc):
        # at the calendar's own dates, at new ones and before the model starts
        out["split", p] = [D(2021), D(2020, 5), D(2020, 11), D(2021, 7), D(2019)]
    for how, olds in {
        "facility": [x["NAME"] for x in [*doc["FACILITY_INPUTS"], *doc.get("MODELS", [])]],
        "fuel": [x["NAME"] for x in doc["FUEL_TYPES"]],
        "series": ["S", "M"],
        "variable": list(doc["VARIABLES"]),
        "component": sorted({x for p, x in walk(doc["INSTALLATIONS"]) if p and p[-1] == "NAME" and "EMISSIONS" not in p and "ENERGY_USAGE_MODEL" not in p}),
        "emission": sorted({x for p, x in walk(doc) if p and p[-1] == "NAME" and "EMISSIONS" in p}),
    }.items():
        for o in olds:
            out["rename", (how, o)] = ["zz", "a0", "swap"] if how != "variable" else ["zz", "aa"]
    out["unused", ()] = ["facility", "fuel", "series", "series column", "variable", "model", "facility file column order"]
    out["series rows", ()] = [("s.csv", p) for p in list(itertools.permutations(range(4)))[1:]] + [("m.csv", (3, 1, 0, 2))]
    out["series columns", ()] = [("s.csv", p) for p in itertools.permutations(range(4))][1:] + [("m.csv", (2, 0, 1))]
    out["notation", ()] = ["flow style", "sorted keys", "dates as text", "variable dates as text", "times", "numbers as text", "numbers as floats", "anchors", "comments", "wide indent", "spaces in expressions"]
    out["inline", ()] = ["rate", "half"]
    if kind == "electric":
        out["system members", ()] = ["swapped"]
    return out


def apply(kind, doc, ts, fac, name, arg, back):
    """-> (doc, ts, fac, text maker or None, brings new dates)"""
    what, p = name
    text = None
    new_dates = False
    if what == "permute":
        x = at(doc, p)
        put(doc, p, [x[i] for i in arg] + x[len(arg) :])
    elif what == "key order":
        x = at(doc, p)
        items = list(x.items())
        items = items[::-1] if arg == "reversed" else sorted(items, key=lambda z: str(z[0]))
        if p:
            put(doc, p, dict(items))
        else:
            doc = dict(items)
    elif what == "split":
        new = split(at(doc, p), arg)
        if new is None:
            raise Prune
        if arg == D(2019) and (p[0] == "VARIABLES" or is_dated(at(doc, p))):
            raise Prune
        put(doc, p, new)
        new_dates = arg not in (D(2021), D(2020, 5), D(2019))
    elif what == "rename":
        how, old = p
        others = [n for (w, q) in rewrites(kind) if w == "rename" and q[0] == how for n in [q[1]] if n != old]
        if arg == "swap":
            if not others:
                raise Prune
            o = others[0]
            doc = rename_everywhere(doc, ts, old, "tmp_name", how)
            doc = rename_everywhere(doc, ts, o, old, how)
            doc = rename_everywhere(doc, ts, "tmp_name", o, how)
            if how in ("component", "emission"):
                back.update({old: o, o: old})
        else:
            new = f"{arg}{old}"
            doc = rename_everywhere(doc, ts, old, new, how)
            if how in ("component", "emission"):
                back[new] = old
    elif what == "unused":
        if arg == "facility":
            doc["FACILITY_INPUTS"].insert(0, {"NAME": "unused", "TYPE": "ELECTRICITY2FUEL", "FILE": "g1.csv"})
        elif arg == "fuel":
            doc["FUEL_TYPES"].insert(0, {"NAME": "unused", "EMISSIONS": [{"NAME": "unheard", "FACTOR": 7}]})
        elif arg == "series":
            ts["u.csv"] = (["DATE", "Q"], [["01.03.2020", 5], ["01.08.2021", 6]])
            doc["TIME_SERIES"].insert(0, {"NAME": "U", "TYPE": "DEFAULT", "FILE": "u.csv", "INFLUENCE_TIME_VECTOR": False})
        elif arg == "series column":
            ts["s.csv"] = ([*ts["s.csv"][0], "NEW"], [[*r, 1] for r in ts["s.csv"][1]])
        elif arg == "variable":
            doc["VARIABLES"]["unused"] = {"VALUE": "S;Q {/} 0"}
        elif arg == "model":
            doc.setdefault("MODELS", []).append({"NAME": "unused", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 30, "TURBINE_LOADS": [0, 1], "TURBINE_EFFICIENCIES": [0, 0.1]})
        else:
            fac["p1.csv"] = csv(["EFFICIENCY", "HEAD", "RATE", "SPEED"], [r.split(",")[::-1] for r in fac["p1.csv"].split("\n")[1:] if r])
    elif what == "series rows":
        f, perm = arg
        ts[f] = (ts[f][0], [ts[f][1][i] for i in perm])
    elif what == "series columns":
        f, perm = arg
        if len(ts[f][0]) != len(perm):
            raise Prune
        ts[f] = ([ts[f][0][i] for i in perm], [[r[i] for i in perm] for r in ts[f][1]])
    elif what == "inline":
        if arg not in doc["VARIABLES"]:
            raise Prune  # renamed
        if arg == "rate":
            doc = {k: (v if k != "INSTALLATIONS" else yaml.safe_load(to_yaml(v).replace("$var.rate", "(S;Q {+} 0)"))) for k, v in doc.items()}
            if "zzS" in to_yaml(doc["TIME_SERIES"]) or "a0S" in to_yaml(doc["TIME_SERIES"]) or doc["TIME_SERIES"][0]["NAME"] != "S":
                raise Prune
        else:
            if not is_dated(doc["VARIABLES"]["half"]) or len(doc["VARIABLES"]["half"]) != 2 or "$var.rate" not in to_yaml(doc["INSTALLATIONS"]) and "$var" in to_yaml(doc["INSTALLATIONS"]).replace("$var.half", ""):
                raise Prune
            # another variable in between
            doc["VARIABLES"]["between"] = doc["VARIABLES"].pop("half")
            doc["VARIABLES"]["half"] = {"VALUE": "$var.between"}
    elif what == "system members":
        for inst in doc["INSTALLATIONS"]:
            for g in inst["GENERATORSETS"]:
                for c in g["CONSUMERS"]:
                    models = c["ENERGY_USAGE_MODEL"]
                    for em in models.values() if is_dated(models) else [models]:
                        if em.get("TYPE") == "PUMP_SYSTEM":
                            em["PUMPS"] = em["PUMPS"][::-1]
                            for s in em["OPERATIONAL_SETTINGS"]:
                                for k in ("RATE_FRACTIONS", "DISCHARGE_PRESSURES"):
                                    if k in s:
                                        s[k] = s[k][::-1]
        back["__swapped__"] = True
    elif what == "notation":
        def dump(**kw):
            class Dumper(yaml.SafeDumper):
                def ignore_aliases(self, data):
                    return kw.get("plain", True)

            return lambda d: yaml.dump(d, Dumper=Dumper, sort_keys=kw.get("sort", False), default_flow_style=kw.get("flow", False), width=kw.get("width", 80), indent=kw.get("indent", 2))

        if arg == "flow style":
            text = dump(flow=True)
        elif arg == "sorted keys":
            text = dump(sort=True) if False else (lambda d: dump()(d))
            doc = dict(sorted(doc.items()))
        elif arg == "dates as text":
            text = lambda d: re.sub(r"(\d{4}-\d{2}-\d{2}) 00:00:00", r"'\1T00:00:00'", dump()(d))  # noqa: E731
        elif arg == "variable dates as text":
            doc = {**doc, "VARIABLES": {k: {f"{d:%Y-%m-%d}": x for d, x in v.items()} if is_dated(v) else v for k, v in doc["VARIABLES"].items()}}
        elif arg == "times":
            text = lambda d: re.sub(r"(\d{4}-\d{2}-\d{2}) 00:00:00", r"\1", dump()(d))  # noqa: E731
        elif arg == "numbers as text":
            def conv(x, key=None, top=None):
                if isinstance(x, dict):
                    return {k: conv(v, k if not isinstance(k, datetime) else key, top) for k, v in x.items()}
                if isinstance(x, list):
                    return [conv(v, key, top) for v in x]
                if isinstance(x, (int, float)) and not isinstance(x, bool) and key in ("LOAD", "FUELRATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "DISCHARGE_PRESSURES", "RATE_FRACTIONS", "FACTOR", "VALUE", "EMISSION_FACTOR", "REGULARITY", "HCEXPORT", "POWERLOSSFACTOR", "FLUID_DENSITY", "CABLE_LOSS", "MAX_USAGE_FROM_SHORE"):
                    return str(x)
                return x
            doc = conv(doc)
        elif arg == "numbers as floats":
            def conv(x):
                if isinstance(x, dict):
                    return {k: conv(v) for k, v in x.items()}
                if isinstance(x, list):
                    return [conv(v) for v in x]
                return float(x) if isinstance(x, int) and not isinstance(x, bool) else x
            doc = conv(doc)
        elif arg == "anchors":
            text = dump(plain=False)
            shared = {}
            def conv(x):
                if isinstance(x, dict):
                    y = {k: conv(v) for k, v in x.items()}
                elif isinstance(x, list):
                    y = [conv(v) for v in x]
                else:
                    return x
                return shared.setdefault(repr(y), y)
            doc = {k: conv(v) for k, v in doc.items()}
        elif arg == "comments":
            text = lambda d: "# first: comment\n---\n" + "\n".join(line + "  # NAME: x" if not line.rstrip().endswith(("|", ">")) else line for line in dump(width=10000)(d).split("\n"))  # noqa: E731
        elif arg == "wide indent":
            text = dump(indent=7, width=10000)
        else:
            def conv(x, key=None):
                if isinstance(x, dict):
                    return {k: conv(v, k) for k, v in x.items()}
                if isinstance(x, list):
                    return [conv(v, key) for v in x]
                if isinstance(x, str) and "{" in x:
                    return re.sub(r"\s*(\{[^}]*\})\s*", r"  \1   ", x)
                return x
            doc = conv(doc)
    return doc, ts, fac, text, new_dates


def run(ck):
    ck.bounds.update(models=len(KINDS), rewrites_per_model={k: sum(len(v) for v in rewrites(k).values()) for k in KINDS}, combined="single and pairs", reruns="all sequences of load / evaluate / report over 2 models up to a length")
    ck.assumptions += ["numbers are compared to a relative 1e-9 (sums may be formed in another order)", "dated definitions are written earliest first, as documented"]

    def transformed(t, steps):
        kind = t.pick("model", KINDS)
        all_ = rewrites(kind)
        names = list(all_)
        doc, ts, fac, back, text, new = base(kind), copy.deepcopy(TS), dict(FAC), {}, None, False
        done, chosen = [], []
        for i in range(steps):
            # structural paths first, so that they still exist
            order = [n for n in names if not done or names.index(n) >= names.index(done[-1])]
            if steps > 1:
                # in pairs: a few representatives per class of rewrite, spread over the model
                cls = {}
                for n in names:
                    cls.setdefault((n[0], n[1][0] if n[0] == "rename" else None), []).append(n)
                few = {v[(len(v) - 1) * j // (k - 1)] for k in [ck.q(2, 8)] for v in cls.values() for j in range(k)}
                order = [n for n in order if n in few]
                name = t.pick(f"rewrite {i}", order)
                args = all_[name][:1] if name[0] != "notation" or ck.quick else all_[name]
            else:
                name = t.pick(f"rewrite {i}", order)
                args = all_[name]
            arg = t.pick(f"how {i}", args)
            if done and (done[-1] == name or (done[-1][0] == "rename" and name[0] == "rename" and done[-1][1][0] == name[1][0]) or {done[-1][0], name[0]} == {"key order"} and name[1][: len(done[-1][1])] == done[-1][1]):
                raise Prune
            done.append(name)
            chosen.append((name, arg))
        # lists are reordered last and from the inside out: the other rewrites are given by position
        for name, arg in sorted(chosen, key=lambda c: -len(c[0][1]) if c[0][0] == "permute" else -99):
            try:
                doc, ts, fac, tx, nd = apply(kind, doc, ts, fac, name, arg, back)
            except (KeyError, IndexError, TypeError) as e:
                if len(chosen) > 1 and chosen[0][0][0] in ("split", "permute", "key order", "rename", "inline", "system members"):
                    raise Prune from e  # the first rewrite moved it
                raise
            text = tx or text
            new = new or nd
        swapped = back.pop("__swapped__", False)
        want = expected(kind)
        m = evaluate(doc, ts, fac, text=text(doc) if text else None)
        got = flatten(get_asset_result(m), back)
        if swapped:
            # the members are reported by name; only positions inside lists move
            got = {k: v for k, v in got.items() if not any(isinstance(x, int) for x in k)}
            want = {k: v for k, v in want.items() if not any(isinstance(x, int) for x in k)}
        t.state(kind, *[d[0] for d in done])
        t.outcome(kind)
        compare(t, got, want, f"{kind}: {[(d[0], d[1]) for d in done]}", new)

    def single(t):
        transformed(t, 1)

    def pairs(t):
        transformed(t, 2)

    def reruns(t):
        """two models over any sequence of loading, evaluating and reporting"""
        k1, k2 = t.pick("models", [("electric", "fuel"), ("fuel", "mixed"), ("electric", "electric"), ("mixed", "electric")])
        kinds = {"1": k1, "2": k2}
        live = {}
        n = t.pick("length", ck.q([3, 4], [3, 4, 5]))
        shared = t.pick("shared resources", [False, True])
        res = resources(TS, FAC)
        for i in range(n):
            ops = []
            for who in "12":
                st = live.get(who)
                ops.append(("load", who))
                if st is not None:
                    ops += [("evaluate", who)]
                    if st[1] > 0:
                        ops += [("report", who)]
            if i == n - 1:
                ops = [o for o in ops if o[0] == "report"]
                if not ops:
                    raise Prune
            op, who = t.pick(f"step {i}", ops)
            t.step()
            if op == "load":
                live[who] = [load_text(to_yaml(base(kinds[who])), res if shared else resources(TS, FAC)).validate_for_run(), 0]
            elif op == "evaluate":
                if live[who][1] >= 2:
                    raise Prune
                live[who][0].evaluate_energy_usage()
                live[who][1] += 1
            else:
                compare(t, flatten(get_asset_result(live[who][0])), expected(kinds[who]), f"step {i} {kinds[who]}")
            t.state(*sorted((w, s[1]) for w, s in live.items()))

    def included(t):
        """parts of the model in files of their own, and models with and without included files after each other"""
        with contextlib.ExitStack() as stack:
            included_(t, stack)

    def included_(t, stack):
        n = t.pick("models", ck.q([1, 2], [1, 2, 3]))
        for i in range(n):
            kind = t.pick(f"model {i}", (["mixed"] if n == 2 else ["fuel"]) if i else KINDS)
            how = t.pick(f"by {i}", ["plain", "resources", "directory", "missing", "disabled"])
            part = t.pick(f"part {i}", ["INSTALLATIONS", "FUEL_TYPES", "VARIABLES", "installation", "nested"]) if how not in ("plain",) else None
            if (n > 1 and part not in (None, "INSTALLATIONS", "nested")) or (n > 2 and part == "nested"):
                raise Prune
            doc = base(kind)
            files = {}

            def tag(d, path, name, files=files):
                files[name] = to_yaml(at(d, path))
                put(d, path, f"INCLUDE {name}")

            if part == "nested":
                tag(doc, ("INSTALLATIONS", 0), "inst.yml")
                tag(doc, ("INSTALLATIONS",), "all.yml")
            elif part == "installation":
                tag(doc, ("INSTALLATIONS", 0), "inst.yml")
            elif part:
                tag(doc, (part,), "part.yml")
            fix = lambda s: re.sub(r"INCLUDE (\S+)", r"!include \1", s)  # noqa: E731
            text = fix(to_yaml(doc))
            files = {k: fix(v) for k, v in files.items()}
            want = expected(kind)
            if how in ("missing", "disabled"):
                kw = {"enable_include": False, "resources": {k: io.StringIO(v) for k, v in files.items()}} if how == "disabled" else {}
                try:
                    m = evaluate(None, text=text, **kw)
                except Exception:  # noqa: BLE001
                    t.outcome("refused")
                    continue
                t.fail(f"model {i}: included files were found although none were given ({how})")
            elif how == "directory":
                d = stack.enter_context(tempfile.TemporaryDirectory())
                for k, v in files.items():
                    Path(d, k).write_text(v)
                m = evaluate(None, text=text, base_dir=Path(d))
            elif how == "resources":
                m = evaluate(None, text=text, resources={k: io.StringIO(v) for k, v in files.items()})
            else:
                m = evaluate(None, text=text)
            t.step()
            t.outcome("read")
            compare(t, flatten(get_asset_result(m)), want, f"model {i} {kind} {how} {part}")
            t.state(i, kind, how, part)

    ck.explore("single rewrites", single)
    ck.explore("pairs of rewrites", pairs)
    ck.explore("evaluated again and after others", reruns)
    ck.explore("included files", included)
