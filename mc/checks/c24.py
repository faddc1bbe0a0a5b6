"""C24: written outputs.  The command line programme itself is run in scratch folders on models that produce every shape of result (missing
values, zeros, values of every magnitude and sign, dated definitions, odd calendars, odd names) with every combination of frequency, date
format and output variant; every file is parsed back and every cell, key, unit, date and file name is compared with the computed result."""

import contextlib
import csv as csvlib
import io
import json
import math
import tempfile
from datetime import datetime, timedelta
from enum import Enum
from pathlib import Path

import yaml
from typer.testing import CliRunner

import ecalc_cli.commands.run as cli_run
from ecalc_cli.main import app
from libecalc.common.time_utils import Frequency, Period, Periods
from libecalc.presentation.json_result.mapper import get_asset_result

from mc.checks import c10, c23
from mc.checks.c13 import BOE, cum_at
from mc.core import Prune
from mc.e2e import D, csv, to_yaml
from mc.e2e import run as run_model
from mc.refmodel import Asset

FORMATS = {"0": "%Y-%m-%d %H:%M:%S", "1": "%Y%m%d %H:%M:%S", "2": "%d.%m.%Y %H:%M:%S"}
FREQ = {"NONE": Frequency.NONE, "YEAR": Frequency.YEAR, "MONTH": Frequency.MONTH, "DAY": Frequency.DAY}


class _NoEngine:
    """no compressor trains in these models: nothing needs the engine"""

    @staticmethod
    def factory(*a, **k):
        return _NoEngine()

    def initialize(self):
        return contextlib.nullcontext()


def allowed(x):
    a = math.floor(math.log10(abs(x))) if x else -1
    return 0.5000001 * 10.0 ** -(6 if a < 0 else max(6 - a, 0)) + abs(x) * 1e-14


def undefined(x):
    return x is None or (isinstance(x, float) and not math.isfinite(x))


def number(t, got, want, where, extra=0.0):
    """got: text or parsed number; want: computed number"""
    if undefined(want):
        t.check(got is None or got in ("nan", "NaN", ""), lambda: f"{where}: missing value written as {got!r}")
        return
    try:
        g = float(got)
    except (TypeError, ValueError):
        t.fail(f"{where}: {want!r} written as {got!r}")
    w = float(want)
    t.check(math.isfinite(g) and abs(g - w) <= allowed(w) + extra, lambda: f"{where}: {want!r} written as {got!r}")
    t.check(g == 0 or (g > 0) == (w > 0), lambda: f"{where}: sign of {want!r} written as {got!r}")


BASIS = {"/d": {"STREAM_DAY": "/sd", "CALENDAR_DAY": "/cd"}, "MW": {"STREAM_DAY": "MW (sd)", "CALENDAR_DAY": "MW (cd)"}}
UNITS = {  # attribute -> admissible units, written down from the documentation
    "power": {"MW (sd)"}, "power_cumulative": {"GWh (cd)"}, "energy_usage": {"Sm3/cd", "MW (sd)"}, "energy_usage_cumulative": {"Sm3 (cd)", "GWh (cd)"},
    "rate": {"t/cd"}, "cumulative": {"t (cd)"}, "hydrocarbon_export_rate": {"Sm3/cd"}, "is_valid": {"N/A"}, "regularity": {"N/A"}, "power_electrical": {"MW (sd)"},
    "power_mechanical": {"MW (sd)"}, "power_electrical_cumulative": {"GWh (cd)"}, "power_mechanical_cumulative": {"GWh (cd)"}, "power_capacity_margin": {"MW (sd)"},
}  # fmt: skip


def unit_of(x):
    u = str(x.unit.value if isinstance(x.unit, Enum) else x.unit)
    cls = [c.__name__ for c in type(x).__mro__]
    if "TimeSeriesRate" in cls:
        k = str(getattr(x.rate_type, "value", x.rate_type))
        return BASIS["MW"][k] if u == "MW" else u.replace("/d", BASIS["/d"][k])
    if "TimeSeriesVolumesCumulative" in cls:
        return f"{u} (cd)"
    return u


def is_series(x):
    return hasattr(x, "periods") and isinstance(getattr(x, "values", None), list)


def columns_of(component):
    """[(column, {start: value})] in the result's own words"""
    out = []

    def rec(prefix, x):
        for f in type(x).model_fields:
            v = getattr(x, f)
            if is_series(v):
                u = unit_of(v)
                if f in UNITS and u not in UNITS[f]:
                    raise AssertionError(f"{prefix}.{f} is given in {u}")
                out.append((f"{prefix}.{f}[{u}]", dict(zip([p.start for p in v.periods], v.values, strict=True))))
            elif isinstance(v, (list, dict)):
                for i in v.values() if isinstance(v, dict) else v:
                    if hasattr(type(i), "model_fields") and hasattr(i, "periods") and not is_series(i):
                        rec(f"{prefix}.{i.name}", i)

    rec(component.name, component)
    return out


def check_csv(t, text, result, fmt):
    rows = list(csvlib.reader(io.StringIO(text)))
    head, rows = rows[0], rows[1:]
    t.check(head[0] == "timesteps", f"first column {head[0]}")
    starts = [p.start for p in result.periods]
    t.check([r[0] for r in rows] == [s.strftime(FORMATS[fmt]) for s in starts], lambda: f"csv dates {[r[0] for r in rows][:5]}, expected {starts[:5]}")
    t.check(all(len(r) == len(head) for r in rows), "ragged csv")
    want = [c for comp in [result.component_result, *result.sub_components] for c in columns_of(comp)]
    got = {}
    for i, h in enumerate(head[1:], 1):
        got.setdefault(h, []).append([r[i].strip() for r in rows])
    t.check(sorted(head[1:]) == sorted(c for c, _ in want), lambda: f"csv columns: {sorted(set(head[1:]) ^ {c for c, _ in want})[:6]} / {len(head) - 1} instead of {len(want)}")
    for c, values in want:
        cells = got[c].pop(0)
        for s, cell in zip(starts, cells):
            number(t, cell, values.get(s), f"csv {c} at {s}", 0.50001e-5)
    t.step(len(want) * len(starts))


def date_text(d, fmt):
    return d.strftime(FORMATS[fmt])


def check_periods(t, js, periods, fmt, where, timesteps=None):
    want = [{"start": date_text(p.start, fmt), "end": date_text(p.end, fmt)} for p in periods]
    t.check(js["periods"] == want, lambda: f"{where}: periods {js['periods'][:3]}, expected {want[:3]}")
    if timesteps or "timesteps" in js:
        t.check(js.get("timesteps") == [p["start"] for p in want], lambda: f"{where}: timesteps {js.get('timesteps')}")


def check_json(t, js, x, fmt, where=""):
    """every field of the computed object is in the file, and nothing else"""
    if isinstance(x, Periods):
        return check_periods(t, js, x, fmt, where)
    if isinstance(x, Period):
        t.check(js == {"start": date_text(x.start, fmt), "end": date_text(x.end, fmt)}, f"{where}: {js}")
    elif hasattr(type(x), "model_fields"):
        want = {f: getattr(x, f) for f in type(x).model_fields}
        t.check(isinstance(js, dict), lambda: f"{where}: {js!r}")
        for f, v in want.items():
            if v is None:
                t.check(js.get(f) is None, f"{where}.{f}: missing value written as {js.get(f)!r}")
            else:
                t.check(f in js, f"{where}.{f} is not written")
                check_json(t, js[f], v, fmt, f"{where}.{f}")
        t.check(set(js) <= set(want), lambda: f"{where}: {set(js) - set(want)} written")
    elif isinstance(x, dict):
        t.check(set(js) == {str(getattr(k, "value", k)) for k in x}, lambda: f"{where}: keys {sorted(js)}, expected {sorted(map(str, x))}")
        for k, v in x.items():
            check_json(t, js[str(getattr(k, "value", k))], v, fmt, f"{where}.{k}")
    elif isinstance(x, (list, tuple)):
        t.check(isinstance(js, list) and len(js) == len(x), lambda: f"{where}: {len(js)} values for {len(x)}")
        for i, v in enumerate(x):
            check_json(t, js[i], v, fmt, f"{where}[{i}]")
    elif isinstance(x, datetime):
        t.check(js == date_text(x, fmt), f"{where}: {js}")
    elif isinstance(x, Enum):
        t.check(js == x.value, f"{where}: {js!r} for {x!r}")
    elif isinstance(x, bool) or isinstance(x, str):
        t.check(js == x and isinstance(js, bool) == isinstance(x, bool), f"{where}: {js!r} for {x!r}")
    elif isinstance(x, (int, float)) or x is None:
        number(t, js, x, where)
    else:
        t.check(str(x) == js, f"{where}: {type(x)}")


def check_simple(t, js, result, fmt):
    t.check(set(js) == {"periods", "components"}, f"simple json has {sorted(js)}")
    check_periods(t, js["periods"], result.periods, fmt, "simple json")
    comps = [result.component_result, *result.sub_components]
    t.check([(c["componentType"], c["name"]) for c in js["components"]] == [(c.componentType.value, c.name) for c in comps], "components of the simple json")
    for c, x in zip(js["components"], comps):
        w = f"simple json {x.name}"
        t.check(c.get("parent") == x.parent and c["component_level"] == x.component_level.value, f"{w}: parent {c.get('parent')}, level {c['component_level']}")
        check_periods(t, c["periods"], x.periods, fmt, w)
        series = {"energy_usage": x.energy_usage.values, "is_valid": [int(v) for v in x.is_valid.values]}
        t.check(c["energy_usage_unit"] == x.energy_usage.unit.value, f"{w}: unit {c['energy_usage_unit']}")
        if getattr(x, "power", None) is not None:
            series["power"] = x.power.values
        else:
            t.check("power" not in c, f"{w}: power without power")
        for k, v in series.items():
            check_json(t, c[k], v, fmt, f"{w}.{k}")
        t.check(set(c["emissions"]) == set(x.emissions), f"{w}: emissions {sorted(c['emissions'])}")
        for e, v in x.emissions.items():
            t.check(c["emissions"][e]["name"] == v.name, f"{w}: emission name {c['emissions'][e]['name']}")
            check_json(t, c["emissions"][e]["rate"], v.rate.values, fmt, f"{w}.{e}")


def intensity(result):
    """[(start, cumulative mass, cumulative export, own mass, own export)] in kg and Sm3, None without co2"""
    c = result.component_result
    co2 = next((e for k, e in c.emissions.items() if k.lower() == "co2"), None)
    if co2 is None:
        return None
    per = [(p.start, p.end) for p in c.periods]
    days = [(b - a) / timedelta(days=1) for a, b in per]
    mass = [1000 * v for v in co2.cumulative.values]
    own = [r * d for r, d in zip(c.hydrocarbon_export_rate.values, days)]
    vol, s = [], 0.0
    for v in own:
        s += v
        vol.append(s)
    return [(a, m, v, m - m0, v - v0) for (a, _), m, m0, v, v0 in zip(per, mass, [0.0, *mass[:-1]], vol, [0.0, *vol[:-1]])]


def close_number(t, got, want, where):
    """intensities are quotients computed in another order here"""
    if undefined(want):
        return number(t, got, want, where)
    t.check(got is not None and got != "nan" and abs(float(got) - want) <= allowed(want) + abs(want) * 1e-9 + 0.5001e-5, lambda: f"{where}: {want!r} written as {got!r}")


def check_intensity(t, text, js, result, freq, fmt):
    want = intensity(result)
    names = {"intensity_sm3": ("kg/Sm3", 1.0, False), "intensity_boe": ("kg/BOE", BOE, False)}
    if freq == "YEAR":
        names |= {"intensity_yearly_sm3": ("kg/Sm3", 1.0, True), "intensity_yearly_boe": ("kg/BOE", BOE, True)}
    rows = list(csvlib.reader(io.StringIO(text))) if text is not None else None
    if want is None:
        if js is not None:
            t.check(js == {"results": []}, f"intensity without co2: {js}")
        if rows:
            t.check(len(rows) <= 1 and len(rows[0]) <= 1, f"intensity table without co2: {rows[:2]}")
        t.outcome("no co2")
        return

    def quotient(k, unit, factor, own):
        _, m, v, mo, vo = want[k]
        a, b = (mo, vo) if own else (m, v)
        return a / (b * factor) if abs(b) > 1e-7 else math.nan

    if rows is not None:
        t.check(rows[0] == ["timesteps", *[f"co2.{n}[{u}]" for n, (u, _, _) in names.items()]], f"intensity columns {rows[0]}")
        t.check([r[0] for r in rows[1:]] == [date_text(w[0], fmt) for w in want], f"intensity dates {[r[0] for r in rows[1:]]}")
        for k, r in enumerate(rows[1:]):
            for (n, spec), cell in zip(names.items(), r[1:]):
                close_number(t, cell.strip(), quotient(k, *spec), f"intensity csv {n} {k}")
    if js is not None:
        (x,) = js["results"]
        t.check(x["name"] == "co2" and set(x) == {"name", *names}, f"intensity json has {sorted(x)}")
        for n, spec in names.items():
            t.check(x[n]["unit"] == spec[0] and len(x[n]["values"]) == len(want), f"intensity json {n}: {x[n]['unit']}")
            check_periods(t, x[n]["periods"], result.component_result.periods, fmt, f"intensity json {n}")
            for k, v in enumerate(x[n]["values"]):
                close_number(t, v, quotient(k, *spec), f"intensity json {n} {k}")


def check_tsv(t, files, table, asset, freq, insts, result):
    want = c10.expected_tables(asset, FREQ[freq]) if asset else None
    starts = [(p.start.strftime("%Y"), p.start.strftime("%m")) for p in result.periods]
    for i in insts:
        rows = [x.split("\t") for x in files[i].splitlines()]
        t.check(rows[0][:2] == ["forecastYear", "forecastMonth"] and rows[1][:2] == ["#Years", "Months"], f"{i} {table}: {rows[0][:2]} {rows[1][:2]}")
        t.check(len({len(r) for r in rows}) == 1, f"{i} {table}: ragged table")
        if len(rows[0]) > 2:
            t.check([(r[0], r[1]) for r in rows[2:]] == starts, f"{i} {table}: periods {[r[:2] for r in rows[2:]]}, expected {starts}")
        for r in rows[2:]:
            for cell in r[2:]:
                t.check(math.isfinite(float(cell)), f"{i} {table}: cell {cell!r}")
        if want:
            _, cols = want[i, table]
            t.check(set(cols) == set(rows[0][2:]), f"{i} {table}: columns {rows[0]}")
            for k, c in enumerate(rows[0][2:], 2):
                unit, vals = cols[c]
                t.check(rows[1][k].endswith(f"[{unit}]"), f"{i} {table} {c}: title {rows[1][k]}")
                for r, v in zip(rows[2:], vals):
                    number(t, r[k], v, f"{i} {table} {c}", abs(v) * 1e-12)


def cli(t, argv):
    cli_run.NeqsimService = _NoEngine
    r = CliRunner().invoke(app, argv, catch_exceptions=True)
    if r.exit_code != 0:
        t.fail(f"the programme ended with {type(r.exception).__name__}: {str(r.exception)[:300]}")
    return r


def execute(t, doc, ts, fac, freq="NONE", fmt="0", detailed=False, csv_=True, json_=True, ltp=True, stp=True, flow=False, prefix=None, folder=None, asset=None, stem="model", extra=()):
    """run the programme in a scratch folder and check everything it wrote"""
    model = run_model(doc, ts, fac) if stem == "model" else None
    text = to_yaml(doc)
    if model is None:
        from libecalc.presentation.yaml.yaml_entities import ResourceStream
        from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel
        from libecalc.presentation.yaml.model import YamlModel
        from mc.e2e import MemResources

        model = YamlModel(configuration=PyYamlYamlModel.read(ResourceStream(name=stem, stream=io.StringIO(text))), resource_service=MemResources(ts, fac)).validate_for_run()
        model.evaluate_energy_usage()
    result = get_asset_result(model)
    if freq != "NONE":
        result = result.resample(FREQ[freq])
    with tempfile.TemporaryDirectory() as d:
        d = Path(d)
        (d / f"{stem}.yml").write_text(text)
        for n, s in (*ts.items(), *fac.items()):
            (d / n).write_text(s)
        argv = ["run", str(d / f"{stem}.yml"), "-f", freq, "--date-format-option", fmt, *extra]
        if folder:
            argv += ["-o", str(d / folder)]
        if prefix is not None:
            argv += ["-n", prefix]
        argv += ["--csv" if csv_ else "--no-csv", *["--json"] * json_, *["--ltp-export"] * ltp, *["--stp-export"] * stp, *["--flow-diagram"] * flow, *["--detailed-output"] * detailed]
        cli(t, argv)
        out = d / (folder or "output")
        files = {str(p.relative_to(out)): p.read_text() for p in out.rglob("*") if p.is_file()}
        rest = {str(p.relative_to(d)) for p in d.rglob("*") if p.is_file() and out not in p.parents}
    t.check(rest == {f"{stem}.yml", *ts, *fac}, f"files outside the output folder: {rest}")
    t.step()
    pre = prefix if prefix is not None else stem
    insts = [i["NAME"] for i in doc["INSTALLATIONS"]]

    def file_of(i, kind):
        found = [n for n in files if n.startswith(f"{pre}.") and n.endswith(f".{kind}.tsv") and "/" not in n]
        exact = f"{pre}.{i}.{kind}.tsv"
        if exact in files:
            return exact
        t.check("/" in i, lambda: f"no {kind} export for {i}: {sorted(files)}")
        return next((n for n in found if len(n) == len(exact) and all(a == b or b == "/" for a, b in zip(n, exact)) and n not in {f"{pre}.{o}.{kind}.tsv" for o in insts}), None)

    want = set()
    if csv_:
        want |= {f"{pre}.csv", f"{pre}_intensity.csv"}
    if json_:
        want |= {f"{pre}_v3.json", f"{pre}_intensity.json", f"{pre}_run_info.json"}
    tables = {}
    for kind, on in (("ltp", ltp), ("stp", stp)):
        if on:
            tables[kind] = {i: file_of(i, kind) for i in insts}
            t.check(None not in tables[kind].values() and len(set(tables[kind].values())) == len(insts), lambda: f"{kind} files: {tables[kind]} of {sorted(files)}")
            want |= set(tables[kind].values())
    if flow:
        want.add(f"{pre}.flow-diagram.json")
    t.check(set(files) == want, lambda: f"files written: {sorted(set(files) ^ want)} should (not) be there")

    def load(name):
        def no_constant(x):
            t.fail(f"{name}: {x} is not json")

        return json.loads(files[name], parse_constant=no_constant)

    if csv_:
        check_csv(t, files[f"{pre}.csv"], result, fmt)
    if json_:
        js = load(f"{pre}_v3.json")
        if detailed:
            check_json(t, js, result, fmt, "json")
        else:
            check_simple(t, js, result, fmt)
    check_intensity(t, files.get(f"{pre}_intensity.csv"), load(f"{pre}_intensity.json") if json_ else None, result, freq, fmt)
    for kind, names in tables.items():
        check_tsv(t, {i: files[n] for i, n in names.items()}, kind, asset, freq, insts, result)
    if flow:
        load(f"{pre}.flow-diagram.json")
    return result


EMS = {"co2": 2.0, "ch4": [0.1, 0.2, 0.3]}
CAL = [D(2020, 1, 1), D(2020, 2, 15), D(2021, 1, 1), D(2021, 1, 2)]
ODD = [D(2019, 12, 30), D(2020, 2, 29), D(2020, 3, 1), D(2021, 2, 1)]
ONE = [D(2020, 1, 1), D(2021, 1, 1)]


def assets(kind):
    gen = {"name": "g", "category": "TURBINE-GENERATOR", "cons": [{"name": "l", "load": [5.0, 7.0, 0.0]}, {"name": "w", "load": [-1.0, 0.0, -0.0], "category": "OFFSHORE-WIND"}]}
    if kind == "usual":
        return [
            {"name": "one", "category": "FIXED", "fuel": ["gas", "diesel", "gas"], "reg": [1.0, 0.5, 0.9], "hc": [100.0, 0.0, 7.0], "gens": [gen], "fcs": [{"name": "f", "fuelrate": [10.0, 0.0, 30.0], "category": "FLARE"}]},
            {"name": "two", "category": "MOBILE", "fuel": "diesel", "fcs": [{"name": "c", "rate": [50.0, 80.0, 20.0], "category": "GAS-DRIVEN-COMPRESSOR"}]},
        ]  # fmt: skip
    if kind == "invalid":
        return [{"name": "one", "category": "FIXED", "fuel": "gas", "hc": [1.0, 2.0, 3.0], "fcs": [{"name": "c", "rate": [250.0, 80.0, 250.0], "category": "GAS-DRIVEN-COMPRESSOR"}], "gens": [{"name": "g", "cons": [{"name": "l", "load": [15.0, 25.0, 0.0]}]}]}]
    if kind == "nothing":
        return [{"name": "one", "category": "FIXED", "fuel": "gas", "hc": 0.0, "fcs": [{"name": "f", "fuelrate": 0.0, "category": "FLARE"}]}]
    if kind == "venting":
        return [{"name": "one", "category": "FIXED", "fuel": "bare", "hc": [3.0, 0.0, 1.0], "fcs": [{"name": "f", "fuelrate": 1.0, "category": "FLARE"}], "vents": [{"name": "v", "emissions": {"co2": {"value": [1.0, 0.0, 5.0]}}}, {"name": "o", "category": "LOADING", "oil": {"value": [1000.0, 0.0, 500.0]}, "factors": {"nmvoc": 0.5}}]}]
    if kind == "no emission":
        return [{"name": "one", "fuel": "bare", "fcs": [{"name": "f", "fuelrate": [1.0, 2.0, 3.0], "category": "FLARE"}]}]
    raise KeyError(kind)


def fuels():
    return {"gas": {"emissions": EMS, "category": "FUEL-GAS"}, "diesel": {"emissions": {"co2": 3.0}, "category": "DIESEL"}, "bare": {"emissions": {}}}


def shorten(x, n):
    """the first n periods of every vector"""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(v, (int, float, str)) for v in x):
            return x[:n]
        return [shorten(v, n) for v in x]
    return x


SHAPES = ["usual", "invalid", "nothing", "venting", "no emission"]
MANTISSAS = [1.0, 1.2345678, 2.5, 4.9999995, 9.9999999, 9.99999949, 5.0000005]


def run(ck):
    ck.bounds.update(result_shapes=len(SHAPES) + 3, frequencies=4, date_formats=3, variants="csv/json/detailed/ltp/stp/flow", mantissas=len(MANTISSAS), exponents=[-9, 15])
    ck.assumptions += [
        "documented rounding: six decimals below one, one decimal fewer per power of ten above, whole numbers from a million on; csv shows five decimals",
        "the computed numbers are those of the result of the same model evaluated in the check's own process",
        "models without compressor trains: the engine session (C27) is replaced by nothing",
    ]

    def shapes(t):
        kind = t.pick("model", [*SHAPES, *c23.KINDS])
        freq = t.pick("frequency", list(FREQ)[: ck.q(3, 4)])
        fmt = t.pick("date format", list(FORMATS))
        detailed = t.flip("detailed")
        if kind in SHAPES:
            cal = t.pick("calendar", ck.q([CAL, ONE], [CAL, ODD, ONE]))
            a = Asset(cal, shorten(fuels(), len(cal) - 1), shorten(assets(kind), len(cal) - 1))
            doc, ts, fac = a.build()
        else:
            a, doc = None, c23.base(kind)
            ts, fac = {n: csv(*v) for n, v in c23.TS.items()}, c23.FAC
        r = execute(t, doc, ts, fac, freq, fmt, detailed, asset=a)
        t.outcome((kind, freq))
        t.state(kind, len(r.periods))

    ck.explore("every shape of result", shapes)

    def variants(t):
        on = {k: t.flip(k) for k in ("csv_", "json_", "ltp", "stp", "flow", "detailed")}
        kind = t.pick("model", ["usual", "invalid"][: ck.q(1, 2)])
        a = Asset(CAL, fuels(), assets(kind))
        execute(t, *a.build(), prefix=t.pick("prefix", [None, "p"]), asset=a, **on)
        t.state(on)

    ck.explore("output variants", variants)

    EXP = list(range(-9, 16))

    def values(t):
        m = t.pick("mantissa", MANTISSAS)
        sign = t.pick("sign", [1.0, -1.0])
        where = t.pick("quantity", ["fuel", "load", "export", "vented"])
        shift = t.pick("order", [0, 7, 13][: ck.q(2, 3)])
        exps = EXP[shift:] + EXP[:shift]
        vals = [sign * m * 10.0**e for e in exps]
        if sign < 0 and where == "fuel":
            raise Prune
        cal = [D(2000 + k, 1 + k % 12) for k in range(len(vals) + 1)]
        doc = {"START": cal[0], "END": cal[-1], "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}]}
        ts = {"s.csv": csv(["DATE", "V"], [[c.strftime("%Y-%m-%d"), repr(v)] for c, v in zip(cal, [*vals, 0.0])])}
        fac = {"g.csv": csv(["POWER", "FUEL"], [[0, 0], [1e17, 1e17]])}
        ft = [{"NAME": "gas", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1000.0}]}]
        i = {"NAME": "I", "FUEL": "gas", "FUELCONSUMERS": [{"NAME": "f", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "S;V" if where == "fuel" else 1}}]}
        doc["FACILITY_INPUTS"] = [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}]
        doc["FUEL_TYPES"], doc["INSTALLATIONS"] = ft, [i]
        if where == "export":
            i["HCEXPORT"] = "S;V"
        elif where == "load":
            i["GENERATORSETS"] = [{"NAME": "g1", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [
                {"NAME": "l", "CATEGORY": "OFFSHORE-WIND" if sign < 0 else "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": "S;V"}}, {"NAME": "k", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 1e16 if sign < 0 else 0}}]}]  # fmt: skip
        elif where == "vented":
            i["VENTING_EMITTERS"] = [{"NAME": "v", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [{"NAME": "ch4", "RATE": {"VALUE": "S;V", "TYPE": "CALENDAR_DAY", "UNIT": "TONS_PER_DAY"}}]}]
            if sign < 0:
                raise Prune
        r = execute(t, doc, ts, fac, detailed=t.flip("detailed"), ltp=False, stp=False)
        comp = {c.name: c for c in [r.component_result, *r.sub_components]}
        got = {"fuel": lambda: comp["f"].energy_usage.values, "load": lambda: comp["l"].energy_usage.values, "export": lambda: comp["I"].hydrocarbon_export_rate.values, "vented": lambda: comp["v"].emissions["ch4"].rate.values}[where]()
        t.same(got, vals, f"{where} values as given", rel=1e-12, abs_=1e-300)
        t.state(m, sign, where, shift)

    ck.explore("values of every magnitude", values)

    def dates(t):
        """times of day, single days, late years; the date columns of every file"""
        cands = [datetime(1999, 12, 31, 23, 59, 59), datetime(2000, 1, 1, 0, 0, 1), datetime(2000, 2, 29, 12), datetime(2000, 3, 1), datetime(2009, 9, 9, 9, 9, 9), datetime(2019, 12, 31)]
        i = t.pick("first", range(len(cands) - 2))
        j = t.pick("second", range(i + 1, len(cands) - 1))
        k = t.pick("end", range(j + 1, len(cands)))
        cal = [cands[x] for x in (i, j, k)]
        fmt = t.pick("date format", list(FORMATS))
        freq = t.pick("frequency", ["NONE", "YEAR"])
        a = Asset(cal, shorten(fuels(), 2), shorten(assets("usual"), 2))
        doc, ts, fac = a.build()
        t.check(all(isinstance(x, str) for x in ts.values()), "time series")
        execute(t, doc, ts, fac, freq, fmt, t.flip("detailed"), asset=None if freq != "NONE" else a)
        t.state(cal, fmt)

    ck.explore("dates and times", dates)

    def names(t):
        """file, prefix, folder, installation, component and emission names"""
        what = t.pick("named", ["installation", "installations", "component", "emission", "prefix", "folder", "file"])
        insts = assets("usual")
        f = fuels()
        kw = {"freq": t.pick("frequency", ["NONE", "YEAR"])}
        odd = ["A/B", "Å ø-_/1", "x y", "1", "a-b", "_"]
        if what == "installation":
            insts[0]["name"] = t.pick("name", odd)
        elif what == "installations":
            insts[0]["name"], insts[1]["name"] = t.pick("names", [("A/B", "A"), ("A", "B/A"), ("a", "A"), ("A B", "A_B"), ("A", "A.B")[:1] + ("A-B",)])
        elif what == "component":
            insts[0]["fcs"][0]["name"] = t.pick("name", [*odd, "model.", "one "][:6])
            insts[1]["fcs"][0]["name"] = t.pick("other name", ["C/D", "q"])
        elif what == "emission":
            f["gas"]["emissions"] = {t.pick("name", ["co2_x", "x_co2", "nmvoc", "æ1"]): 2.0}
        elif what == "prefix":
            kw["prefix"] = t.pick("prefix", ["v1.2", "a b", "run-1", "x.csv", "æ", "p_intensity"])
        elif what == "folder":
            kw["folder"] = t.pick("folder", ["out", "o.1", "o u t"])
        elif what == "file":
            kw["stem"] = t.pick("stem", ["my model", "æ-1", "x_y"])
        a = Asset(CAL, f, insts)
        doc, ts, fac = a.build()
        execute(t, doc, ts, fac, asset=a, detailed=t.flip("detailed"), flow=True, **kw)
        t.state(what)

    ck.explore("names", names)

    def show(t):
        """show yaml writes the model with its included files in place: reading what was written gives the same document"""
        kind = t.pick("model", c23.KINDS)
        doc = c23.base(kind)
        key = t.pick("included", [None, *doc])
        with tempfile.TemporaryDirectory() as d:
            d = Path(d)
            text = to_yaml(doc)
            if key:
                (d / "part.yml").write_text(to_yaml(doc[key]) if isinstance(doc[key], (dict, list)) else str(doc[key]))
                text = to_yaml({k: v for k, v in doc.items() if k != key}) + f"{key}: !include part.yml\n"
            (d / "model.yml").write_text(text)
            to_file = t.flip("to a file")
            r = cli(t, ["show", "yaml", str(d / "model.yml"), *(["--file", str(d / "o.yml")] if to_file else [])])
            got = yaml.safe_load((d / "o.yml").read_text() if to_file else r.stdout)
        t.check(got == doc, lambda: f"show yaml gives {[k for k in doc if got.get(k) != doc[k]]} differently")
        t.step()
        t.state(kind, key)

    ck.explore("show yaml", show)
