"""C22: invalid models are rejected, accepted models evaluate."""

import contextlib
import copy
import functools
import io
import itertools
from datetime import datetime

from ecalc_neqsim_wrapper.fluid_service import NeqSimFluidService
from libecalc.common.errors.exceptions import EcalcError, IllegalStateException
from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

from mc.checks.c23 import FAC as FAC0
from mc.checks.c23 import TS as TS0
from mc.checks.c23 import at, is_dated, load_text, put, resources, walk
from mc.checks.c23 import base as base0
from mc.core import Prune
from mc.e2e import D, csv, to_yaml
from mc.gas import IdealGas
from mc.reftrain import CHARTS

SERVICE = IdealGas()
FAC = {
    **FAC0,
    "chart.csv": csv(["SPEED", "RATE", "HEAD", "EFFICIENCY"], [[s, q, h / 1000, e * 100] for s, pts in CHARTS["B"].items() for q, h, e in pts]),
}
TS = {
    **TS0,
    "k.csv": (["DATE", "R", "PD", "SIDE"], [["01.01.2020", 2.0e6, 60, 3e5], ["01.05.2020", 2.4e6, 66, 4e5], ["01.01.2021", 0, 60, 0], ["01.01.2022", 2.2e6, 64, 2e5]]),
}
CUNITS = {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "PERCENTAGE"}


def chart(name, kind):
    curves = [{"SPEED": s, "RATE": [p[0] for p in pts], "HEAD": [p[1] / 1000 for p in pts], "EFFICIENCY": [p[2] * 100 for p in pts]} for s, pts in CHARTS[name].items()]
    d = {"NAME": f"chart{name}", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": kind, "UNITS": dict(CUNITS)}
    return {**d, "CURVES": curves} if kind == "VARIABLE_SPEED" else {**d, "CURVE": curves[0]}


def stage(c, **kw):
    return {"INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": c, **kw}


MARGIN = {"CONTROL_MARGIN": 5, "CONTROL_MARGIN_UNIT": "PERCENTAGE", "PRESSURE_DROP_AHEAD_OF_STAGE": 0.5}


def train_models():
    return [
        {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": "SRK", "COMPOSITION": {"methane": 8.0, "ethane": 1.5, "CO2": 0.5}},
        {"NAME": "medium", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "MEDIUM"},
        chart("A", "VARIABLE_SPEED"),
        chart("A1", "SINGLE_SPEED"),
        {"NAME": "chartB", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED", "UNITS": dict(CUNITS), "CURVES": {"FILE": "chart.csv"}},
        {"NAME": "generic", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_INPUT", "POLYTROPIC_EFFICIENCY": 0.75, "UNITS": {"EFFICIENCY": "FRACTION"}},
        {"NAME": "design", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_DESIGN_POINT", "POLYTROPIC_EFFICIENCY": 0.8, "DESIGN_RATE": 6000, "DESIGN_HEAD": 90, "UNITS": {"HEAD": "KJ_PER_KG", "RATE": "AM3_PER_HOUR", "EFFICIENCY": "FRACTION"}},
        {"NAME": "variable", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid", "PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "MAXIMUM_POWER": 30, "COMPRESSOR_TRAIN": {"STAGES": [stage("chartA", **MARGIN), stage("chartB", **MARGIN)]}},
        {"NAME": "single", "TYPE": "SINGLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "medium", "PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "MAXIMUM_DISCHARGE_PRESSURE": 300, "POWER_ADJUSTMENT_CONSTANT": 0.5, "POWER_ADJUSTMENT_FACTOR": 1.1, "COMPRESSOR_TRAIN": {"STAGES": [stage("chartA1", **MARGIN)]}},
        {"NAME": "simple", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid", "COMPRESSOR_TRAIN": {"STAGES": [stage("generic"), stage("design")]}},
        {"NAME": "unknown", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid", "CALCULATE_MAX_RATE": True, "COMPRESSOR_TRAIN": {"MAXIMUM_PRESSURE_RATIO_PER_STAGE": 2.5, "INLET_TEMPERATURE": 25, "COMPRESSOR_CHART": "generic"}},
        {"NAME": "tur", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 38, "TURBINE_LOADS": [0, 5, 20, 40], "TURBINE_EFFICIENCIES": [0, 0.2, 0.3, 0.35]},
        {"NAME": "driven", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "variable", "TURBINE_MODEL": "tur", "POWER_ADJUSTMENT_FACTOR": 1.1, "POWER_ADJUSTMENT_CONSTANT": 0.1},
        {"NAME": "streams", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "STREAMS": [{"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "fluid"}, {"NAME": "off", "TYPE": "OUTGOING"}, {"NAME": "extra", "TYPE": "INGOING", "FLUID_MODEL": "medium"}],
         "STAGES": [{**stage("chartA", **MARGIN), "STREAM": ["main"]}, {**stage("chartB", **MARGIN), "STREAM": ["off"], "INTERSTAGE_CONTROL_PRESSURE": {"UPSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "DOWNSTREAM_PRESSURE_CONTROL": "UPSTREAM_CHOKE"}}, {**stage("chartB", **MARGIN), "STREAM": ["extra"]}]},
    ]  # fmt: skip


def base(kind):
    if kind in ("electric", "fuel", "mixed"):
        return base0(kind)
    doc = base0("electric")
    doc["TIME_SERIES"].append({"NAME": "K", "TYPE": "DEFAULT", "FILE": "k.csv"})
    doc["MODELS"] = train_models()
    comp = lambda name, model, **kw: {"NAME": name, "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": model, "RATE": "K;R", "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": "K;PD", **kw}}  # noqa: E731
    used = []
    if kind == "trains":
        used = [comp("ctrain", "variable"), comp("stone", "single", DISCHARGE_PRESSURE=40), comp("simplified", "simple"), comp("auto", "unknown")]
        fuel = [comp("gasdriven", "driven")]
    else:
        used = [
            {"NAME": "cross", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "k1", "COMPRESSOR_MODEL": "variable"}, {"NAME": "k2", "COMPRESSOR_MODEL": "single"}], "TOTAL_SYSTEM_RATE": "K;R", "OPERATIONAL_SETTINGS": [{"RATE_FRACTIONS": [0.5, 0.5], "CROSSOVER": [2, 0], "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 40}, {"RATES": ["K;R {/} 2", "K;R {/} 3"], "SUCTION_PRESSURES": [20, 19], "DISCHARGE_PRESSURES": [50, 40]}]}},
            {"NAME": "many", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_TRAIN_MODEL": "streams", "RATE_PER_STREAM": ["K;R", "K;SIDE", "K;SIDE {/} 2"], "SUCTION_PRESSURE": 20, "INTERSTAGE_CONTROL_PRESSURE": 45, "DISCHARGE_PRESSURE": "K;PD {+} 40"}},
        ]
        fuel = [
            {"NAME": "fcross", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "k1", "COMPRESSOR_MODEL": "driven"}, {"NAME": "k2", "COMPRESSOR_MODEL": "driven"}], "TOTAL_SYSTEM_RATE": "K;R", "OPERATIONAL_SETTINGS": [{"RATE_FRACTIONS": [0.5, 0.5], "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 40}]}},
        ]  # fmt: skip
    used_models = {"trains": lambda m: m["NAME"] != "streams", "systems": lambda m: m["NAME"] not in ("simple", "unknown", "generic", "design")}[kind]
    doc["MODELS"] = [m for m in doc["MODELS"] if used_models(m)]
    inst = doc["INSTALLATIONS"][0]
    inst["GENERATORSETS"] = [{"NAME": "gen1", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g1", "CONSUMERS": used}]
    inst["FUELCONSUMERS"] = fuel
    return doc


KINDS = ["electric", "fuel", "mixed", "trains", "systems"]


@contextlib.contextmanager
def perfect_gas():
    before = NeqSimFluidService._instance
    NeqSimFluidService._instance = SERVICE
    try:
        yield
    finally:
        NeqSimFluidService._instance = before


def outcome(doc, ts=None, fac=None, text=None):
    """-> (stage reached, exception or None, result or None)"""
    where = "load"
    try:
        with perfect_gas():
            m = load_text(text if text is not None else to_yaml(doc), resources(ts or TS, fac or FAC))
            where = "validate"
            m.validate_for_run()
            where = "evaluate"
            m.evaluate_energy_usage()
            where = "report"
            r = get_asset_result(m)
            return "done", None, r
    except Exception as e:  # noqa: BLE001
        return where, e, None


# --- judging one model -------------------------------------------------------------------------------------------------


def rejected(e, where):
    """a domain error that explains itself, not an internal one (a model error and not a crash)"""
    return isinstance(e, ModelValidationException) or (isinstance(e, EcalcError) and not isinstance(e, IllegalStateException) and where in ("load", "validate", "evaluate"))


def text_of(e):
    out = [str(e)]
    if isinstance(e, ModelValidationException):
        for x in e.errors():
            out += [x.message, ".".join(map(str, x.location.keys)), str(x.name or "")]
    else:
        out += [str(getattr(e, "title", "")), str(getattr(e, "message", ""))]
    return " ".join(out).lower()


def judge(t, doc, what, ts=None, fac=None, text=None):
    """every model is either rejected with an explanation, or evaluates and is reported in full. -> 'rejected' or 'done'"""
    where, e, res = outcome(doc, ts, fac, text)
    if e is not None:
        t.check(rejected(e, where), f"{what}: internal error while trying to {where}: {type(e).__name__}: {str(e)[:200]}", key=f"crash {where} {what}")
        if isinstance(e, ModelValidationException):
            t.check(len(e.errors()) > 0 and all(x.message for x in e.errors()), f"{what}: rejected without any explanation", key=f"mute {what}")
        return ("rejected" if where in ("load", "validate") else "late"), e
    n = len(res.component_result.periods.periods)
    t.check(n > 0, f"{what}: no periods in the result", key="periods")
    for c in [res.component_result, *res.sub_components]:
        t.check(len(c.is_valid.values) == n, f"{what}: {c.name} has {len(c.is_valid.values)} validity values in {n} periods", key="validity per period")
        for field in ("energy_usage", "power", "electricity_energy_usage_cumulative", "energy_usage_cumulative", "power_cumulative"):
            x = getattr(c, field, None)
            if x is not None:
                t.check(len(x.values) == n and len(x.periods.periods) == n, f"{what}: {c.name} has {len(x.values)} values of {field} in {n} periods", key="one value per period")
        for name, em in (c.emissions or {}).items() if hasattr(c, "emissions") else ():
            t.check(len(em.rate.values) == n, f"{what}: {c.name} has {len(em.rate.values)} rates of {name} in {n} periods", key="one value per period")
    return "done", None


# --- injecting something at one place ----------------------------------------------------------------------------------

MISSING = object()
ALIENS = [None, "", "nonsense", "S;NOPE", "$var.nope", "S;Q {/} 0", "1 {+}", -1, 0, 1e9, 1.5, [], {}, True, ["x"], {"x": 1}, -0.5, "S;Q", "0", [1], [[1]]]
FEW = ["nonsense", -1, 0, {"x": 1}]


def edits(x, p, few):
    yield "delete", MISSING
    for v in FEW if few else ALIENS:
        yield repr(v), v
    if isinstance(x, list) and x:
        yield "first entry twice", x + [copy.deepcopy(x[0])]
        yield "last entry missing", x[:-1]
        if not few:
            yield "reversed", x[::-1]
            yield "first entry only", x[:1]
    if isinstance(x, int | float) and not isinstance(x, bool) and not few:
        yield "as text", str(x)
        yield "negated", -x
        yield "in a list", [x]
    if p[0] in ("INSTALLATIONS", "VARIABLES", "FUEL_TYPES") and not is_dated(x):
        yield "from after the end", {D(2030): x}
        yield "unordered dates", {D(2021): x, D(2020): x}
        if not few:
            yield "from before the start", {D(2010): x}
            yield "from the middle", {D(2020, 6): x}
            yield "from a number", {2020: x}
    if is_dated(x):
        its = list(x.items())
        yield "dates reversed", dict(its[::-1])
        yield "first date missing", dict(its[1:])
        yield "no dates", its[0][1]


def apply(doc, p, v):
    if v is MISSING:
        del at(doc, p[:-1])[p[-1]]
    else:
        put(doc, p, copy.deepcopy(v))


def name_of(p):
    return ".".join(map(str, p))


def places(kind):
    return [(p, x) for p, x in walk(base(kind)) if p]


# --- rules that are documented: a model that breaks one is rejected ------------------------------------------------------

OPTIONAL = {
    "ENERGY_USAGE_MODEL.CONDITION", "ENERGY_USAGE_MODEL.POWERLOSSFACTOR", "FACILITY_INPUTS.HEAD_MARGIN", "GENERATORSETS.CABLE_LOSS",
    "GENERATORSETS.MAX_USAGE_FROM_SHORE", "INSTALLATIONS.CATEGORY", "INSTALLATIONS.HCEXPORT", "INSTALLATIONS.REGULARITY", "INSTALLATIONS.VENTING_EMITTERS",
    "MODELS.POWER_ADJUSTMENT_FACTOR", "MODELS.POWER_ADJUSTMENT_CONSTANT", "RATE.TYPE", "TIME_SERIES.EXTRAPOLATION", "TIME_SERIES.INFLUENCE_TIME_VECTOR", "MODELS.MAXIMUM_POWER",
    "OPERATIONAL_SETTINGS.CROSSOVER", "MODELS.CALCULATE_MAX_RATE", "FUEL_TYPES.CATEGORY",
}  # fmt: skip
REQUIRED = {
    "COMPRESSORS.COMPRESSOR_MODEL", "COMPRESSORS.NAME", "CONSUMERS.CATEGORY", "CONSUMERS.ENERGY_USAGE_MODEL", "CONSUMERS.NAME", "EMISSIONS.EMISSION_FACTOR", "EMISSIONS.FACTOR",
    "EMISSIONS.NAME", "EMISSIONS.RATE", "END", "ENERGY_USAGE_MODEL.COMPRESSORS", "ENERGY_USAGE_MODEL.ENERGYFUNCTION", "ENERGY_USAGE_MODEL.FLUID_DENSITY",
    "ENERGY_USAGE_MODEL.FUELRATE", "ENERGY_USAGE_MODEL.LOAD", "ENERGY_USAGE_MODEL.OPERATIONAL_SETTINGS", "ENERGY_USAGE_MODEL.PUMPS", "ENERGY_USAGE_MODEL.RATE",
    "ENERGY_USAGE_MODEL.TOTAL_SYSTEM_RATE", "ENERGY_USAGE_MODEL.TYPE", "ENERGY_USAGE_MODEL.VARIABLES", "FACILITY_INPUTS", "FACILITY_INPUTS.FILE", "FACILITY_INPUTS.NAME",
    "FACILITY_INPUTS.TYPE", "FUELCONSUMERS.CATEGORY", "FUELCONSUMERS.ENERGY_USAGE_MODEL", "FUELCONSUMERS.NAME", "FUEL_TYPES", "FUEL_TYPES.NAME", "GENERATORSETS.CATEGORY",
    "GENERATORSETS.CONSUMERS", "GENERATORSETS.ELECTRICITY2FUEL", "GENERATORSETS.NAME", "INSTALLATIONS", "INSTALLATIONS.NAME", "MODELS", "MODELS.COMPRESSOR_MODEL",
    "MODELS.LOWER_HEATING_VALUE", "MODELS.NAME", "MODELS.TURBINE_EFFICIENCIES", "MODELS.TURBINE_LOADS", "MODELS.TURBINE_MODEL", "MODELS.TYPE", "OPERATIONAL_SETTINGS.DISCHARGE_PRESSURE",
    "OPERATIONAL_SETTINGS.DISCHARGE_PRESSURES", "OPERATIONAL_SETTINGS.RATE_FRACTIONS", "OPERATIONAL_SETTINGS.RATES", "OPERATIONAL_SETTINGS.SUCTION_PRESSURE", "OPERATIONAL_SETTINGS.SUCTION_PRESSURES",
    "PUMPS.CHART", "PUMPS.NAME", "RATE.VALUE", "TIME_SERIES", "TIME_SERIES.FILE", "TIME_SERIES.NAME", "TIME_SERIES.TYPE", "VARIABLES.EXPRESSION", "VARIABLES.NAME",
    "VENTING_EMITTERS.CATEGORY", "VENTING_EMITTERS.EMISSIONS", "VENTING_EMITTERS.NAME", "VENTING_EMITTERS.TYPE", "VENTING_EMITTERS.VOLUME", "VOLUME.EMISSIONS", "VOLUME.RATE",
    "MODELS.FLUID_MODEL", "MODELS.FLUID_MODEL_TYPE", "MODELS.COMPRESSOR_TRAIN", "COMPRESSOR_TRAIN.STAGES", "STAGES.COMPRESSOR_CHART", "STAGES.INLET_TEMPERATURE",
    "MODELS.CHART_TYPE", "CURVES.RATE", "CURVES.HEAD", "CURVES.EFFICIENCY", "CURVE.RATE", "CURVE.HEAD", "CURVE.EFFICIENCY", "MODELS.POLYTROPIC_EFFICIENCY", "MODELS.DESIGN_RATE", "MODELS.DESIGN_HEAD",
    "MODELS.COMPOSITION", "MODELS.GAS_TYPE", "STAGES.CONTROL_MARGIN", "STAGES.CONTROL_MARGIN_UNIT", "ENERGY_USAGE_MODEL.COMPRESSOR_TRAIN_MODEL", "ENERGY_USAGE_MODEL.RATE_PER_STREAM",
    "STREAMS.NAME", "STREAMS.TYPE", "STREAMS.FLUID_MODEL", "MODELS.STREAMS", "MODELS.STAGES",
}  # fmt: skip
EXPRESSIONS = {"LOAD", "FUELRATE", "RATE", "CONDITION", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "FLUID_DENSITY", "TOTAL_SYSTEM_RATE", "POWERLOSSFACTOR", "CABLE_LOSS", "MAX_USAGE_FROM_SHORE", "HCEXPORT", "REGULARITY", "EMISSION_FACTOR", "EXPRESSION", "VALUE", "FACTOR", "INTERSTAGE_CONTROL_PRESSURE"}
EXPRESSION_LISTS = {"RATES", "RATE_FRACTIONS", "SUCTION_PRESSURES", "DISCHARGE_PRESSURES", "FLUID_DENSITIES", "RATE_PER_STREAM"}
TRAINS = {"SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN"}
PUMPS = {"PUMP_CHART_SINGLE_SPEED", "PUMP_CHART_VARIABLE_SPEED"}
# what the thing referred to at a place may be
REFERS = {
    "ELECTRICITY2FUEL": {"ELECTRICITY2FUEL"}, "CHART": PUMPS, "FLUID_MODEL": {"FLUID"}, "COMPRESSOR_CHART": {"COMPRESSOR_CHART"}, "TURBINE_MODEL": {"TURBINE"},
    "COMPRESSOR_TRAIN_MODEL": {"VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_WITH_TURBINE"},
}  # fmt: skip


def where_is(p):
    """KEYWORD.OF_PARENT context of a path without the positions and dates"""
    return ".".join([x for x in p if isinstance(x, str)][-2:])


def keyword(p):
    return next((x for x in reversed(p) if isinstance(x, str)), "")


def refers_to(doc, p):
    """the kinds that are allowed for the reference at p, or None if p is not a reference"""
    k = keyword(p)
    x = at(doc, p)
    if not isinstance(x, str):
        return None
    if k in ("ELECTRICITY2FUEL", "CHART", "FLUID_MODEL", "COMPRESSOR_CHART", "TURBINE_MODEL", "COMPRESSOR_TRAIN_MODEL"):
        return REFERS[k]
    if k == "COMPRESSOR_MODEL":
        return TRAINS | {"COMPRESSOR_TABULAR", "COMPRESSOR_WITH_TURBINE"} if "COMPRESSORS" in p else TRAINS | {"COMPRESSOR_TABULAR", "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"}
    if k == "ENERGYFUNCTION":
        kind = at(doc, p[:-1]).get("TYPE")
        return {"COMPRESSOR": TRAINS | {"COMPRESSOR_TABULAR", "COMPRESSOR_WITH_TURBINE"}, "PUMP": PUMPS, "TABULATED": {"TABULAR"}}.get(kind)
    return None


def is_expression(doc, p):
    x = at(doc, p)
    if not isinstance(x, str | int | float) or isinstance(x, bool) or p[0] not in ("INSTALLATIONS", "VARIABLES", "FUEL_TYPES"):
        return False
    k = keyword(p)
    if p[0] == "FUEL_TYPES" and not any(keyword(q) == "FUEL" and x == doc["FUEL_TYPES"][p[1]]["NAME"] for q, x in walk(doc["INSTALLATIONS"])):
        return False  # fuels that are not used are not calculated
    return k in EXPRESSIONS or k in EXPRESSION_LISTS


def named(doc):
    """path -> namespace of everything that has a name which has to be unique"""
    out = {}
    for p, x in walk(doc):
        if isinstance(x, dict) and isinstance(x.get("NAME"), str):
            ctx = [y for y in p if isinstance(y, str)]
            key = ctx[-1] if ctx else ""
            if key in ("INSTALLATIONS", "GENERATORSETS", "CONSUMERS", "FUELCONSUMERS", "VENTING_EMITTERS"):
                out[p] = "component"
            elif key in ("FACILITY_INPUTS", "MODELS"):
                out[p] = "facility"
            elif key in ("FUEL_TYPES", "TIME_SERIES"):
                out[p] = key
            elif key in ("COMPRESSORS", "PUMPS", "EMISSIONS", "STREAMS"):
                out[p] = name_of(p[:-1])
    return out


def rules(kind):
    """(rule, path, edit, words that have to be in the explanation) for every place where a rule can be broken"""
    doc = base(kind)
    out = []

    def add(rule, p, v, *words):
        out.append((rule, p, v, words))

    models = {m["NAME"]: m["TYPE"] for m in doc.get("FACILITY_INPUTS", []) + doc.get("MODELS", [])}
    sampled = {m["NAME"]: "FUEL" if "FUEL" in str(FAC.get(m.get("FILE"), "")).upper() else "POWER" for m in doc.get("FACILITY_INPUTS", [])}
    for p, x in walk(doc):
        if not p:
            continue
        last = p[-1]
        # missing information
        if isinstance(last, str) and where_is(p) in REQUIRED:
            add("missing", p, MISSING)
            add("missing", p, None)
        # keywords that do not exist
        if isinstance(x, dict) and not is_dated(x) and p[0] != "VARIABLES" and not keyword(p).startswith("COMPOSITION"):
            add("unknown keyword", (*p, "NOPE"), 1, "nope")
        # references
        allowed = refers_to(doc, p)
        if allowed:
            add("unknown reference", p, "absent", "absent")
            for name, typ in models.items():
                if typ not in allowed:
                    add("wrong kind", p, name, name.lower())
        if keyword(p) == "FUEL" and isinstance(x, str) and p[0] == "INSTALLATIONS":
            add("unknown reference", p, "absent", "absent")
            for name in models:
                add("wrong kind", p, name, name.lower())
        if last == "FILE":
            add("unknown reference", p, "absent.csv", "absent.csv")
        if keyword(p) == "STREAM" and isinstance(x, str):
            add("unknown reference", p, "absent", "absent")
        # expressions
        if is_expression(doc, p):
            for token in ("S;NOPE", "NOPE;Q", "$var.nope"):
                add("unknown token", p, f"{x} {{+}} {token}", token.lower())
            add("malformed expression", p, f"{x} {{+}}")
            add("malformed expression", p, f"({x}")
            add("malformed expression", p, f"{x} {{+}} words")
        # dates
        if is_dated(x) and len(x) > 1 and p[0] != "VARIABLES":
            add("unordered dates", p, dict(list(x.items())[::-1]))
        if p[0] == "INSTALLATIONS" and keyword(p) in ("ENERGY_USAGE_MODEL", "FUEL", "ELECTRICITY2FUEL", "REGULARITY", "HCEXPORT") and last == keyword(p) and not is_dated(x):
            add("unordered dates", p, {D(2021): copy.deepcopy(x), D(2020): copy.deepcopy(x)})
            add("not a date", p, {"someday": copy.deepcopy(x)})
    for k in ("START", "END"):
        add("not a date", (k,), "someday", k.lower())
        add("not a date", (k,), {"x": 1}, k.lower())
    if "START" in doc:
        add("end before start", ("END",), D(1999))
    # names
    spaces = named(doc)
    for a, b in itertools.permutations(spaces, 2):
        if spaces[a] == spaces[b]:
            add("duplicate name", (*a, "NAME"), at(doc, b)["NAME"])
    for p in spaces:
        if spaces[p] == "component":
            add("name with strange characters", (*p, "NAME"), "a;b{}")
    # electricity and fuel
    for p, x in walk(doc):
        if isinstance(x, dict) and "NAME" in x and keyword(p) in ("CONSUMERS", "FUELCONSUMERS"):
            other = {"TYPE": "DIRECT", "FUELRATE": 10} if keyword(p) == "CONSUMERS" else {"TYPE": "DIRECT", "LOAD": 10}
            add("wrong kind of energy", (*p, "ENERGY_USAGE_MODEL"), other)
            add("wrong kind of energy", (*p, "ENERGY_USAGE_MODEL"), {D(2020): other})
            need = "FUEL" if keyword(p) == "CONSUMERS" else "POWER"
            for m in doc.get("FACILITY_INPUTS", []):
                if m["TYPE"] == "TABULAR" and sampled[m["NAME"]] == need:
                    add("wrong kind of energy", (*p, "ENERGY_USAGE_MODEL"), {"TYPE": "TABULATED", "ENERGYFUNCTION": m["NAME"], "VARIABLES": [{"NAME": "RATE", "EXPRESSION": 10}]})
                if m["TYPE"] == "COMPRESSOR_TABULAR" and sampled[m["NAME"]] == need:
                    add("wrong kind of energy", (*p, "ENERGY_USAGE_MODEL"), {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": m["NAME"], "RATE": 10, "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 50})
            for m in doc.get("MODELS", []):
                if m["TYPE"] in TRAINS and keyword(p) == "FUELCONSUMERS" or m["TYPE"] == "COMPRESSOR_WITH_TURBINE" and keyword(p) == "CONSUMERS":
                    add("wrong kind of energy", (*p, "ENERGY_USAGE_MODEL"), {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": m["NAME"], "RATE": 10, "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 50})
    # values out of range, and lists that do not match
    for p, x in walk(doc):
        if not p:
            continue
        k = keyword(p)
        if isinstance(x, dict) and x.get("TYPE") in ("COMPRESSOR_SYSTEM", "PUMP_SYSTEM"):
            n = len(x.get("COMPRESSORS") or x.get("PUMPS"))
            for i, s in enumerate(x["OPERATIONAL_SETTINGS"]):
                q = (*p, "OPERATIONAL_SETTINGS", i)
                for key in EXPRESSION_LISTS & set(s):
                    add("wrong length", (*q, key), s[key][:-1])
                    add("wrong length", (*q, key), s[key] + [s[key][0]])
                for bad in ([1] * n, [n + 1] + [0] * (n - 1), [-1] + [0] * (n - 1), [0] * (n - 1), [0] * (n + 1)):
                    add("impossible cross-over", (*q, "CROSSOVER"), bad, "crossover")
                add("both", (*q, "RATES" if "RATE_FRACTIONS" in s else "RATE_FRACTIONS"), [0.1] * n)
                add("both", (*q, "SUCTION_PRESSURES" if "SUCTION_PRESSURE" in s else "SUCTION_PRESSURE"), [20] * n if "SUCTION_PRESSURE" in s else 20)
                add("both", (*q, "DISCHARGE_PRESSURES" if "DISCHARGE_PRESSURE" in s else "DISCHARGE_PRESSURE"), [50] * n if "DISCHARGE_PRESSURE" in s else 50)
            add("nothing", (*p, "OPERATIONAL_SETTINGS"), [])
            add("nothing", (*p, "COMPRESSORS" if "COMPRESSORS" in x else "PUMPS"), [])
        if k == "RATE_PER_STREAM" and isinstance(x, list):
            add("wrong length", p, x[:-1])
            add("wrong length", p, x + [0])
        if k in ("RATE", "HEAD", "EFFICIENCY") and isinstance(x, list):
            add("wrong length", p, x[:-1])
            add("out of range", (*p, 0), -1)
            if k == "EFFICIENCY":
                add("out of range", (*p, 0), 101)
            if k == "EFFICIENCY":
                add("out of range", (*p, 0), 0)
        if k in ("TURBINE_LOADS", "TURBINE_EFFICIENCIES") and isinstance(x, list):
            add("wrong length", p, x[:-1])
        if k == "TURBINE_EFFICIENCIES" and isinstance(x, list):
            add("out of range", (*p, 1), 1.1)
            add("out of range", (*p, 1), -0.1)
        for key, bads in OUT_OF_RANGE.items():
            if p[-1] == key and not isinstance(x, list | dict):
                for bad in bads:
                    add("out of range", p, bad, key.lower())
        if p[-1] == "POLYTROPIC_EFFICIENCY":
            for bad in (0, -0.1, 1.1):
                add("out of range", p, bad, "efficiency")
        if k in ENUMS and p[-1] == k and isinstance(x, str):
            add("unknown choice", p, "NOPE")
        if is_expression(doc, p) and k in ("SUCTION_PRESSURE", "DISCHARGE_PRESSURE"):
            add("out of range", p, -5)
        if is_expression(doc, p) and k == "DISCHARGE_PRESSURE" and ("COMPRESSOR" in str(at(doc, p[:-1]).get("TYPE")) or "PUMP" in str(at(doc, p[:-1]).get("TYPE"))):
            add("discharge below suction", p, 0.5)
        if k == "REGULARITY" and is_expression(doc, p):
            add("out of range", p, 1.5, "regularity")
            add("out of range", p, -0.5, "regularity")
        if k == "POWERLOSSFACTOR" and is_expression(doc, p):
            add("out of range", p, 1.5)
            add("out of range", p, -0.5)
        if k == "FLUID_DENSITY" and is_expression(doc, p):
            add("out of range", p, 0)
            add("out of range", p, -1)
    return out


OUT_OF_RANGE = {
    "CONTROL_MARGIN": (-1, 100, 150), "PRESSURE_DROP_AHEAD_OF_STAGE": (-1,), "MAXIMUM_DISCHARGE_PRESSURE": (-1, 0), "MAXIMUM_PRESSURE_RATIO_PER_STAGE": (0.5, 1), "LOWER_HEATING_VALUE": (-1, 0),
    "DESIGN_RATE": (-1,), "DESIGN_HEAD": (-1,),
}  # fmt: skip
ENUMS = {"TYPE", "CHART_TYPE", "FLUID_MODEL_TYPE", "EOS_MODEL", "GAS_TYPE", "PRESSURE_CONTROL", "CONTROL_MARGIN_UNIT", "INTERPOLATION_TYPE", "EXTRAPOLATION_", "UNIT", "CATEGORY", "UPSTREAM_PRESSURE_CONTROL", "DOWNSTREAM_PRESSURE_CONTROL"}


def break_rule(t, doc, rule, p, v):
    try:
        if v is MISSING:
            del at(doc, p[:-1])[p[-1]]
        else:
            at(doc, p[:-1])[p[-1]] = copy.deepcopy(v)
    except (KeyError, IndexError, TypeError):
        raise Prune("the other edit has removed the place") from None


def first_and_last(items, key):
    """of the items with the same key, the first and the last (the rest are at places of the same kind)"""
    by = {}
    for i, x in enumerate(items):
        by.setdefault(key(x), []).append(i)
    keep = {i for group in by.values() for i in (group[0], group[-1])}
    return [x for i, x in enumerate(items) if i in keep]


@functools.cache
def RULES(kind, few=False):
    out = rules(kind)
    return first_and_last(out, lambda r: (r[0], where_is(r[1]), str(type(r[2])), str(r[3]))) if few else out


@functools.cache
def PLACES(kind, few=False):
    out = places(kind)
    return first_and_last(out, lambda x: (where_is(x[0]), type(x[1]))) if few else out


@functools.cache
def representatives(kind, every):
    """one place for each rule (every: for each rule and keyword)"""
    out = {}
    for r in RULES(kind):
        rule, p, v, _ = r
        # edits of what is referred to by everything would make the other edit disappear
        if len(p) == 1 and v is MISSING:
            continue
        out.setdefault((rule, where_is(p), v is MISSING or v is None) if every else rule, r)
    return list(out.values())


@functools.cache
def options(kind):
    doc = base(kind)
    return [p for p, _ in walk(doc) if p and isinstance(p[-1], str) and where_is(p) in OPTIONAL]


def one_edit(few):
    def scenario(t):
        kind, i = t.pick("place", [(k, i) for k in KINDS for i in range(len(PLACES(k, few)))])
        p, x = PLACES(kind, few)[i]
        es = list(edits(x, p, few))
        what, v = es[t.pick("edit", list(range(len(es))))]
        doc = base(kind)
        apply(doc, p, v)
        t.step()
        label = f"{kind}: {name_of(p)} {what}"
        t.note(label)
        verdict, e = judge(t, doc, label)
        t.outcome((kind, verdict, type(e).__name__))

    return scenario


def one_rule(t, few):
    kind, i = t.pick("rule and place", [(k, i) for k in KINDS for i in range(len(RULES(k, few)))])
    rule, p, v, words = RULES(kind, few)[i]
    doc = base(kind)
    break_rule(t, doc, rule, p, v)
    t.step()
    label = f"{kind}: {rule} at {name_of(p)} ({'deleted' if v is MISSING else str(v)[:60]})"
    t.note(label)
    verdict, e = judge(t, doc, label)
    t.check(verdict == "rejected", f"{label}: accepted ({verdict})", key=f"accepted {rule} {where_is(p)}")
    for w in words:
        t.check(w in text_of(e), f"{label}: the explanation does not mention {w!r}: {str(e)[:300]}", key=f"explanation {rule} {where_is(p)}")
    t.outcome((kind, rule))


def two_rules(every):
    def scenario(t):
        kind, i = t.pick("first", [(k, i) for k in KINDS for i in range(len(representatives(k, every)))])
        rs = representatives(kind, every)
        j = t.pick("second", list(range(i)) or [None])
        if j is None:
            raise Prune("one rule only")
        doc = base(kind)
        for rule, p, v, _ in (rs[i], rs[j]):
            break_rule(t, doc, rule, p, v)
            t.step()
        label = f"{kind}: {rs[i][0]} at {name_of(rs[i][1])} and {rs[j][0]} at {name_of(rs[j][1])}"
        t.note(label)
        verdict, e = judge(t, doc, label)
        # one edit can replace or heal the other one, they only have to be handled
        if not related(rs[i], rs[j]):
            t.check(verdict == "rejected", f"{label}: accepted ({verdict})", key=f"accepted two {rs[i][0]} {rs[j][0]}")
        t.outcome((kind, rs[i][0], rs[j][0], verdict))

    return scenario


def related(a, b):
    """the edits can influence each other: they touch the same object or what one of them refers to"""
    return a[1][:1] == b[1][:1]


def without_options(n):
    def scenario(t):
        kind = t.pick("model", KINDS)
        os = options(kind)
        doc = base(kind)
        before = len(os)
        gone = []
        for k in range(n):
            i = t.pick(f"option {k}", [None, *range(before)])
            if i is None:
                break
            p = os[i]
            try:
                del at(doc, p[:-1])[p[-1]]
            except KeyError:
                raise Prune("removed together with another option") from None
            t.step()
            gone.append(name_of(p))
            before = i
        label = f"{kind} without {', '.join(gone) or 'nothing'}"
        t.note(label)
        verdict, e = judge(t, doc, label)
        t.check(verdict == "done", f"{label}: {verdict}: {str(e)[:300]}", key=f"refused without {[where_is(p.split('.')) for p in gone]}")
        t.outcome((kind, len(gone)))

    return scenario


def run(ck):
    q = ck.quick
    ck.bounds.update(
        {
            "models": "five base models (sampled consumers with generator sets, fuel consumers with venting, both, compressor trains of every kind, consumer systems and multiple streams)",
            "one edit": f"{'the first and last place of every kind' if q else 'every place'} of every base model x {'8-11' if q else '23-32'} edits (removed, wrong type, empty, out of range, unknown names, repeated or missing entries, dates)",
            "one rule": f"every documented rule at {'the first and last place of every kind' if q else 'every place'} where it applies: missing information, unknown keywords, references, tokens and choices, references to the wrong kind, malformed expressions, unordered or impossible dates, duplicate names, wrong kind of energy, lists of the wrong length, values out of range, impossible cross-overs",
            "two rules": f"all pairs of one place per rule{'' if q else ' and keyword'}",
            "options": f"all combinations of up to {1 if q else 2} optional keywords left out",
        }
    )
    ck.assumptions += [
        "perfect gas behind FluidService",
        "numbers are finite",
        "a domain error with an explanation while evaluating (e.g. a pressure drop larger than the pressure) is an answer, internal errors and failing reports are not",
        "dates of VARIABLES can be in any order, fuels that are not used are not calculated",
    ]
    ck.explore("one rule", functools.partial(one_rule, few=q), bound=0)
    ck.explore("options", without_options(1 if q else 2), bound=0, cap_s=250)
    ck.explore("two rules", two_rules(not q), bound=0, cap_s=220)
    ck.explore("one edit", one_edit(q), bound=0, cap_s=400)
