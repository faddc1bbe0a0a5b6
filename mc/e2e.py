"""Build and run real eCalc models from plain Python dictionaries (YAML text + CSV text in memory)."""

from __future__ import annotations

from datetime import datetime
from io import StringIO

import yaml

from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
from libecalc.presentation.yaml.model import YamlModel
from libecalc.presentation.yaml.resource_service import ResourceService
from libecalc.presentation.yaml.yaml_entities import MemoryResource, ResourceStream
from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel


class MemResources(ResourceService):
    def __init__(self, time_series: dict[str, str], facility: dict[str, str]):
        self.ts = time_series
        self.fac = facility

    def get_time_series_resources(self):
        return {
            n: TimeSeriesResource(MemoryResource.from_string(s, allow_nans=True)).validate() for n, s in self.ts.items()
        }, []

    def get_facility_resources(self):
        return {n: MemoryResource.from_string(s, allow_nans=False) for n, s in self.fac.items()}, []


class _Dumper(yaml.SafeDumper):
    def ignore_aliases(self, data):
        return True


def to_yaml(doc: dict) -> str:
    return yaml.dump(doc, Dumper=_Dumper, sort_keys=False)


def load(doc: dict | str, ts: dict[str, str] | None = None, fac: dict[str, str] | None = None) -> YamlModel:
    text = doc if isinstance(doc, str) else to_yaml(doc)
    conf = PyYamlYamlModel.read(ResourceStream(name="model", stream=StringIO(text)))
    return YamlModel(configuration=conf, resource_service=MemResources(ts or {}, fac or {}))


def run(doc, ts=None, fac=None) -> YamlModel:
    m = load(doc, ts, fac).validate_for_run()
    m.evaluate_energy_usage()
    return m


def result(doc, ts=None, fac=None):
    from libecalc.presentation.json_result.mapper import get_asset_result

    return get_asset_result(run(doc, ts, fac))


def D(y, m=1, d=1):
    return datetime(y, m, d)


def csv(headers, rows) -> str:
    return "\n".join([",".join(headers), *[",".join(str(c) for c in r) for r in rows]]) + "\n"


def fuel(name="gas", factors=None, category=None):
    factors = {"co2": 2.0} if factors is None else factors
    d = {"NAME": name, "EMISSIONS": [{"NAME": k, "FACTOR": v} for k, v in factors.items()]}
    if category:
        d["CATEGORY"] = category
    return d


def direct_fuel(name, rate, category="FLARE", rate_type=None, condition=None, fuel=None):
    m = {"TYPE": "DIRECT", "FUELRATE": rate}
    if rate_type:
        m["CONSUMPTION_RATE_TYPE"] = rate_type
    if condition is not None:
        m["CONDITION"] = condition
    c = {"NAME": name, "CATEGORY": category, "ENERGY_USAGE_MODEL": m}
    if fuel:
        c["FUEL"] = fuel
    return c


def direct_load(name, load, category="BASE-LOAD", rate_type=None, condition=None, plf=None):
    m = {"TYPE": "DIRECT", "LOAD": load}
    if rate_type:
        m["CONSUMPTION_RATE_TYPE"] = rate_type
    if condition is not None:
        m["CONDITION"] = condition
    if plf is not None:
        m["POWERLOSSFACTOR"] = plf
    return {"NAME": name, "CATEGORY": category, "ENERGY_USAGE_MODEL": m}


GENSET_CSV = csv(["POWER", "FUEL"], [[0, 0], [10, 100], [20, 150]])


def interp(x, xs, ys):
    """piecewise linear, constant outside"""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
